use proc_macro2::*;
fn needs_space(prev: &str, next: &TokenTree) -> bool {
    if prev.is_empty() || prev.ends_with(|c: char| c.is_whitespace()) { return false }
    let last = prev.chars().last().unwrap();
    match next {
        TokenTree::Punct(p) => match p.as_char() {
            ';' | ',' | '.' | '?' => last == '.' && p.as_char() != '.' && false,
            ':' => false,
            _ => true,
        },
        TokenTree::Group(g) => match g.delimiter() {
            Delimiter::Parenthesis | Delimiter::Bracket => !(last.is_alphanumeric() || last == '_' || last == '!' || last == ')' || last == '(' || last == '[' || last == '&') ,
            _ => true,
        },
        _ => !(last == '.' || last == '(' || last == '[' || prev.ends_with("::")),
    }
}
fn go(ts: TokenStream, out: &mut String, nl: bool, ind: usize) {
    let mut joint = false;
    let pad = |out: &mut String, n: usize| { if nl { while out.ends_with(' ') { out.pop(); } if !out.ends_with('\n') { out.push('\n'); } for _ in 0..n { out.push_str("  ") } } };
    for t in ts {
        // never glue ".." to a following float-like token
        if !joint && needs_space(out, &t) { out.push(' ') }
        // a range operator after an integer literal needs care: `1usize..` is fine, `1 ..` too
        joint = false;
        match t {
            TokenTree::Ident(i) => out.push_str(&i.to_string()),
            TokenTree::Literal(l) => {
                if out.ends_with('.') && !out.ends_with("..") { /* tuple index */ }
                out.push_str(&l.to_string());
                // keep `0 ..x` from lexing as a float
                if l.to_string().chars().all(|c| c.is_ascii_digit()) { out.push(' ') }
            }
            TokenTree::Punct(p) => {
                out.push(p.as_char());
                joint = p.spacing() == Spacing::Joint || p.as_char() == '\'';
                if p.as_char() == ';' { pad(out, ind) }
            }
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::None => ("", ""),
                };
                out.push_str(o);
                if o == "{" { pad(out, ind + 1) ; go(g.stream(), out, nl, ind + 1); pad(out, ind) }
                else { go(g.stream(), out, nl, ind) }
                out.push_str(c);
                if o == "{" { pad(out, ind) }
            }
        }
    }
}
pub fn tokens(ts: &TokenStream) -> String { let mut s = String::new(); go(ts.clone(), &mut s, true, 0); s }
pub fn inline(ts: &TokenStream) -> String { let mut s = String::new(); go(ts.clone(), &mut s, false, 0); s }
