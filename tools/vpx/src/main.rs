//! vpx: mechanical extraction of functions from rustc-expanded source into a Verus file.
//! usage: vpx EXPANDED.rs SPEC OUT.rs MAP.json
//! See DESIGN.md "What the extraction drops and rewrites".
mod spec;
mod xform;
mod print;
mod inline;

use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Write as _;
use syn::*;
use quote::{format_ident, ToTokens};

pub struct Ctx {
    pub spec: spec::Spec,
    pub notes: Vec<String>,       // lost anchors, dropped items
    pub unsupported: Vec<String>,
    pub lits: Vec<String>, // string literals of bodies
    pub shapes: BTreeMap<String, String>, // kinds of the loops of each function
    pub ranges: HashMap<String, ExprRange>, // constants whose value is a range
    pub trait_consts: Vec<String>, // associated constants of source traits (emitted as functions)
}

fn strip_attrs(attrs: &mut Vec<Attribute>) { attrs.clear(); }

fn has_attr(attrs: &[Attribute], name: &str) -> bool {
    attrs.iter().any(|a| a.path().is_ident(name))
}

fn is_cfg_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && a.to_token_stream().to_string().contains("test"))
}

pub fn ty_name(t: &Type) -> String {
    match t {
        Type::Reference(r) => format!("&{}{}", if r.mutability.is_some() { "mut " } else { "" }, ty_name(&r.elem)),
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Paren(p) => ty_name(&p.elem),
        Type::Slice(s) => format!("[{}]", ty_name(&s.elem)),
        t => t.to_token_stream().to_string(),
    }
}

fn find_mod<'a>(items: &'a [Item], path: &[&str]) -> Option<&'a [Item]> {
    if path.is_empty() { return Some(items) }
    for it in items {
        if let Item::Mod(m) = it {
            if m.ident == path[0] {
                return find_mod(&m.content.as_ref()?.1, &path[1..]);
            }
        }
    }
    None
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let src = std::fs::read_to_string(&a[1]).expect("read expanded");
    let spec = spec::Spec::parse(&a[2]);
    let file = match syn::parse_file(&src) {
        Ok(f) => f,
        Err(e) => { eprintln!("UNSUPPORTED parse: {e}"); std::process::exit(3) }
    };
    let mut cx = Ctx { spec, notes: vec![], unsupported: vec![], shapes: BTreeMap::new(), lits: vec![], ranges: HashMap::new(), trait_consts: vec![] };
    let mut items: Vec<Item> = vec![];
    for m in cx.spec.modules.clone() {
        let path: Vec<&str> = if m == "crate" { vec![] } else { m.split("::").collect() };
        match find_mod(&file.items, &path) {
            Some(its) => items.extend(its.iter().filter(|i| !matches!(i, Item::Mod(_))).cloned()),
            None => { eprintln!("UNSUPPORTED module {m} not found"); std::process::exit(3) }
        }
    }
    if !cx.spec.alias.is_empty() { for it in items.iter_mut() { xform::alias(it, &cx.spec) } }
    // 1. filter
    let mut kept: Vec<Item> = vec![];
    let mut hoisted: Vec<Item> = vec![];
    let mut dropped: Vec<String> = vec![];
    for mut it in items {
        let (attrs, name): (Vec<Attribute>, String) = match &mut it {
            Item::Use(_) | Item::ExternCrate(_) | Item::Macro(_) => continue,
            Item::Struct(s) => (std::mem::take(&mut s.attrs), s.ident.to_string()),
            Item::Enum(s) => (std::mem::take(&mut s.attrs), s.ident.to_string()),
            Item::Type(s) => (std::mem::take(&mut s.attrs), s.ident.to_string()),
            Item::Const(s) => (std::mem::take(&mut s.attrs), s.ident.to_string()),
            Item::Static(s) => (std::mem::take(&mut s.attrs), s.ident.to_string()),
            Item::Fn(s) => (std::mem::take(&mut s.attrs), s.sig.ident.to_string()),
            Item::Trait(s) => (std::mem::take(&mut s.attrs), s.ident.to_string()),
            Item::Impl(s) => {
                let n = xform::impl_name(s);
                (std::mem::take(&mut s.attrs), n)
            }
            _ => { dropped.push(it.to_token_stream().to_string().chars().take(60).collect()); continue }
        };
        if is_cfg_test(&attrs) { continue }
        if has_attr(&attrs, "automatically_derived") { continue }
        if let Item::Const(c) = &it {
            if let Expr::Range(r) = &*c.expr { cx.ranges.insert(name.clone(), r.clone()); continue }
        }
        if cx.spec.drops(&name) { dropped.push(name); continue }
        kept.push(it);
    }
    for it in &kept { if let Item::Trait(t) = it { for i in &t.items { if let TraitItem::Const(c) = i { cx.trait_consts.push(c.ident.to_string()) } } } }
    // 2. monomorphise configured impls
    let kept = xform::monomorphise(kept, &cx.spec);
    // 3. inline uncontracted local helpers
    let kept = inline::run(kept, &mut cx);
    // 4. transform + print
    let mut out = String::new();
    let mut map: BTreeMap<String, (usize, usize)> = BTreeMap::new();
    let mut unused: BTreeSet<String> = cx.spec.fns.keys().cloned().collect();
    out.push_str("// generated by vpx; do not edit\n");
    out.push_str(&cx.spec.head.clone());
    out.push_str("\nverus! {\n");
    out.push_str(&cx.spec.prelude.clone());
    out.push('\n');
    let mut body = String::new();
    for it in kept {
        emit_item(it, &mut cx, &mut body, &mut hoisted, &mut unused);
    }
    let mut seen = BTreeSet::new();
    for h in hoisted {
        let t = match h {
            Item::Const(mut c) => { c.vis = parse_quote!(pub);
                if let Expr::Lit(ExprLit { lit: Lit::ByteStr(_), .. }) | Expr::Array(_) = &*c.expr { let mut t = String::new(); emit_array(&c.ident, &c.ty, &c.expr, &mut t); if seen.insert(t.clone()) { out.push_str(&t); } continue }
                print::tokens(&c.to_token_stream()) }
            h => print::tokens(&h.to_token_stream()),
        };
        if seen.insert(t.clone()) { out.push_str(&t); out.push('\n'); }
    }
    for (n, l) in cx.lits.iter().enumerate() {
        let b: Vec<String> = l.bytes().map(|x| format!("{x}u8")).collect();
        let _ = writeln!(out, "pub fn vp_lit{n}() -> (r: &'static str) ensures r.spec_bytes() == seq![{0}], vstd::string::is_ascii(r) {{ proof {{ reveal_strlit({1:?}); vstd::utf8::is_ascii_chars_encode_utf8({1:?}@); assert(vstd::utf8::encode_utf8({1:?}@) =~= seq![{0}]); }} {1:?} }}", b.join(", "), l);
    }
    out.push_str(&body);
    out.push_str(&cx.spec.postlude.clone());
    out.push_str("\n} // verus!\nfn main() {}\n");
    // line map
    let mut cur: Option<(String, usize)> = None;
    for (n, l) in out.lines().enumerate() {
        if let Some(p) = l.strip_prefix("//@fn ") { cur = Some((p.to_string(), n + 1)); }
        if l == "//@end" {
            if let Some((p, s)) = cur.take() { map.insert(p, (s, n + 1)); }
        }
    }
    unused.retain(|u| !cx.spec.drops(u) && cx.spec.fns.get(u).map_or(true, |f| f.contract_set || !f.loops.is_empty() || !f.inserts.is_empty()));
    for u in &unused { cx.notes.push(format!("lost-anchor: contract for `{u}` matches no function")); }
    std::fs::write(&a[3], &out).unwrap();
    let mut j = String::from("{\n \"fns\": {\n");
    let mut first = true;
    for (p, (s, e)) in &map {
        let base = p.split(" @").next().unwrap();
        let f = cx.spec.fns.get(base);
        let props = f.map(|f| f.props.clone()).unwrap_or_default();
        if !first { j.push_str(",\n") } first = false;
        write!(j, "  {:?}: {{\"start\": {s}, \"end\": {e}, \"contract\": {}, \"external\": {}, \"props\": {:?}}}", p,
            f.map(|f| f.has_contract()).unwrap_or(false), f.map(|f| f.external).unwrap_or(false), props).unwrap();
    }
    let sh: Vec<String> = cx.shapes.iter().map(|(k, v)| format!("{k:?}: {v:?}")).collect();
    write!(j, "\n }},\n \"shapes\": {{{}}},\n \"notes\": {:?},\n \"dropped\": {:?},\n \"unsupported\": {:?}\n}}\n", sh.join(", "), cx.notes, dropped, cx.unsupported).unwrap();
    std::fs::write(&a[4], j).unwrap();
    let _ = HashMap::<u8, u8>::new();
}

fn pub_fields(f: &mut Fields) {
    for x in f.iter_mut() { x.vis = parse_quote!(pub); strip_attrs(&mut x.attrs); }
    // tuple struct fields of enums must not be pub; handled by the caller
}

fn emit_item(it: Item, cx: &mut Ctx, out: &mut String, hoisted: &mut Vec<Item>, unused: &mut BTreeSet<String>) {
    match it {
        Item::Struct(mut s) => {
            s.vis = parse_quote!(pub);
            pub_fields(&mut s.fields);
            xform::norm_struct(&mut s);
            out.push_str(&print::tokens(&s.to_token_stream())); out.push('\n');
        }
        Item::Enum(mut e) => {
            e.vis = parse_quote!(pub);
            for v in e.variants.iter_mut() {
                strip_attrs(&mut v.attrs);
                for x in v.fields.iter_mut() { strip_attrs(&mut x.attrs); }
            }
            out.push_str(&print::tokens(&e.to_token_stream())); out.push('\n');
        }
        Item::Type(mut t) => {
            t.vis = parse_quote!(pub);
            xform::norm_paths_item(&mut t);
            out.push_str(&print::tokens(&t.to_token_stream())); out.push('\n');
        }
        Item::Const(mut c) => {
            c.vis = parse_quote!(pub);
            if let Type::Array(_) = &*c.ty { emit_array(&c.ident, &c.ty, &c.expr, out); return }
            out.push_str(&print::tokens(&c.to_token_stream())); out.push('\n');
        }
        Item::Static(s) => emit_array(&s.ident, &s.ty, &s.expr, out),
        Item::Fn(f) => {
            let path = f.sig.ident.to_string();
            emit_fn(&path, &path, f.sig, Some(*f.block), cx, out, hoisted, unused, true);
        }
        Item::Trait(mut t) => {
            let mut hdr = String::new();
            t.vis = parse_quote!(pub);
            let name = t.ident.to_string();
            let items = std::mem::take(&mut t.items);
            if let Some(f) = cx.spec.fns.get(&name) { for b in &f.bounds { t.supertraits.push(parse_str(b).expect("bound")); } }
            xform::norm_trait(&mut t);
            let txt = print::tokens(&t.to_token_stream());
            hdr.push_str(txt.trim_end().trim_end_matches('}').trim_end());
            hdr.push('\n');
            out.push_str(&hdr);
            if let Some(x) = cx.spec.impl_extra.get(&name) { out.push_str(x); out.push('\n'); }
            for i in items {
                match i {
                    TraitItem::Fn(f) => {
                        let path = format!("{name}::{}", f.sig.ident);
                        if cx.spec.drops(&path) { cx.notes.push(format!("dropped: {path}")); continue }
                        emit_fn(&path, &path, f.sig, f.default, cx, out, hoisted, unused, false);
                    }
                    // an associated constant becomes a function, so that it can carry a contract
                    TraitItem::Const(c) => {
                        let path = format!("{name}::{}", c.ident); let (id, ty) = (format_ident!("vp_const_{}", c.ident), &c.ty);
                        let f: TraitItemFn = parse_quote!(fn #id() -> #ty;);
                        let d = c.default.map(|(_, d)| -> Block { parse_quote!({ #d }) });
                        emit_fn(&path, &path, f.sig, d, cx, out, hoisted, unused, false);
                    }
                    TraitItem::Type(mut c) => { strip_attrs(&mut c.attrs); out.push_str(&print::tokens(&c.to_token_stream())); out.push('\n'); }
                    _ => {}
                }
            }
            out.push_str("}\n");
        }
        Item::Impl(mut im) => {
            let name = xform::impl_name(&im);
            let mono = xform::mono_tag(&mut im);
            let items = std::mem::take(&mut im.items);
            let istrait = im.trait_.is_some();
            xform::norm_impl(&mut im);
            let txt = print::tokens(&im.to_token_stream());
            out.push_str(txt.trim_end().trim_end_matches('}').trim_end());
            out.push('\n');
            if let Some(x) = cx.spec.impl_extra.get(&name) {
                out.push_str(&cx.spec.subst_mono(x, &mono)); out.push('\n');
            }
            // methods whose body is checked outside of the impl (the verifier refuses an impl whose proof needs itself)
            let mut outlined: Vec<(String, Signature, Block)> = vec![];
            for i in items {
                match i {
                    ImplItem::Fn(f) => {
                        let path = format!("{name}::{}", f.sig.ident);
                        if let Some((_, tr)) = cx.spec.outline.iter().find(|o| o.0 == path).cloned() {
                            let stub = format!("{path} (signature)");
                            let e = cx.spec.fns.entry(stub.clone()).or_default(); e.external = true; e.stub = true;
                            emit_fn(&stub, &stub, f.sig.clone(), Some(f.block.clone()), cx, out, hoisted, unused, false);
                            let st = print::inline(&im.self_ty.to_token_stream());
                            let own = cx.spec.fns.get(&tr).map(|t| t.contract.replace("Self::", &format!("{}::", st.trim()))).unwrap_or_default();
                            let e = cx.spec.fns.entry(path.clone()).or_default(); e.contract_set = true; e.contract = format!("{own}{}", e.contract);
                            let (mut sig, mut b) = (f.sig, f.block);
                            xform::replace_self(&mut sig, &mut b, &im.self_ty);
                            for p in im.generics.params.iter().rev() { sig.generics.params.insert(0, p.clone()); }
                            sig.ident = Ident::new(&format!("vp_outlined{}", out.len()), sig.ident.span());
                            outlined.push((path, sig, b));
                            continue
                        }
                        if cx.spec.drops(&path) { cx.notes.push(format!("dropped: {path}")); continue }
                        let full = if mono.is_empty() { path.clone() } else { format!("{path} @{}", mono) };
                        emit_fn(&path, &full, f.sig, Some(f.block), cx, out, hoisted, unused, !istrait);
                    }
                    ImplItem::Const(c) if istrait && cx.trait_consts.contains(&c.ident.to_string()) => {
                        let path = format!("{name}::{}", c.ident); let (id, ty, d) = (format_ident!("vp_const_{}", c.ident), &c.ty, &c.expr);
                        let f: ImplItemFn = parse_quote!(fn #id() -> #ty { #d });
                        emit_fn(&path, &path, f.sig, Some(f.block), cx, out, hoisted, unused, false);
                    }
                    ImplItem::Const(mut c) => {
                        strip_attrs(&mut c.attrs);
                        out.push_str(&print::tokens(&c.to_token_stream())); out.push('\n');
                    }
                    ImplItem::Type(mut c) => { strip_attrs(&mut c.attrs); xform::norm_paths_item(&mut c); out.push_str(&print::tokens(&c.to_token_stream())); out.push('\n'); }
                    _ => {}
                }
            }
            out.push_str("}\n");
            for (path, sig, b) in outlined { emit_fn(&path, &path, sig, Some(b), cx, out, hoisted, unused, true); }
        }
        _ => {}
    }
}

fn emit_array(id: &Ident, ty: &Type, e: &Expr, out: &mut String) {
    let t = print::tokens(&ty.to_token_stream()).replacen("&", "&'static ", if matches!(ty, Type::Reference(r) if r.lifetime.is_none()) { 1 } else { 0 });
    let (amp, elems): (&str, Vec<String>) = match e {
        Expr::Lit(ExprLit { lit: Lit::ByteStr(b), .. }) => ("&", b.value().iter().map(|x| format!("{x}u8")).collect()),
        Expr::Array(a) => ("", a.elems.iter().map(|x| x.to_token_stream().to_string()).collect()),
        Expr::Reference(r) => match &*r.expr { Expr::Array(a) => ("&", a.elems.iter().map(|x| x.to_token_stream().to_string()).collect()), _ => ("", vec![]) },
        _ => ("", vec![]),
    };
    if elems.is_empty() {
        let _ = writeln!(out, "pub exec const {id}: {} ensures true {{ {} }}", t.trim(), e.to_token_stream());
        return
    }
    let ety = { let mut t = ty; loop { match t { Type::Reference(r) => t = &r.elem, Type::Array(a) => break a.elem.to_token_stream().to_string(), _ => break "u8".to_string() } } };
    fn tree(xs: &[String], lo: usize) -> String {
        if xs.len() == 1 { return xs[0].clone() }
        let m = xs.len() / 2;
        format!("if k < {} {{ {} }} else {{ {} }}", lo + m, tree(&xs[..m], lo), tree(&xs[m..], lo + m))
    }
    let n = elems.len();
    let _ = writeln!(out, "pub open spec fn vp_tab_{id}(k: int) -> {ety} {{ {} }}", tree(&elems, 0));
    let _ = writeln!(out, "pub exec const {id}: {} ensures {id}@.len() == {n}, forall|k: int| 0 <= k < {n} ==> #[trigger] {id}@[k] == vp_tab_{id}(k) {{ {amp}[{}] }}", t.trim(), elems.join(", "));
}

fn emit_fn(path: &str, full: &str, mut sig: Signature, block: Option<Block>, cx: &mut Ctx, out: &mut String,
           hoisted: &mut Vec<Item>, unused: &mut BTreeSet<String>, mkpub: bool) {
    unused.remove(path);
    let mut fs = cx.spec.fns.get(path).cloned().unwrap_or_default();
    // functions the driver found to be outside the verifier's reach on this run: contract assumed, reported undecided
    let forced = std::env::var("VPX_EXTERNAL").unwrap_or_default();
    if forced.split('|').any(|x| x == full) && block.is_some() { fs.external = true; fs.stub = true; cx.notes.push(format!("undecided: {full}")); }
    let mut block = block;
    xform::cell_params(&mut sig, &mut block);
    xform::norm_sig(&mut sig);
    xform::mut_self(&mut sig, &mut block);
    let mono = full.strip_prefix(path).and_then(|x| x.strip_prefix(" @")).unwrap_or("").to_string();
    out.push_str(&format!("//@fn {full}\n"));
    if fs.external { out.push_str("#[verifier::external_body]\n"); } else if block.is_some() { out.push_str("#[verifier::spinoff_prover] #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]\n"); }
    for a in &fs.attrs { out.push_str(a); out.push('\n'); }
    // signature text with named result
    let mut gen = sig.generics.clone();
    let wh = gen.where_clause.take();
    let mut s = String::new();
    if mkpub { s.push_str("pub ") }
    if sig.constness.is_some() { s.push_str("const ") }
    match &fs.rename { Some(n) => s.push_str(&format!("fn {n}")), None => s.push_str(&format!("fn {}", sig.ident)) }
    s.push_str(&print::inline(&gen.to_token_stream()));
    s.push('(');
    let ins: Vec<String> = sig.inputs.iter().map(|a| print::inline(&a.to_token_stream())).collect();
    s.push_str(&ins.join(", "));
    s.push(')');
    if let ReturnType::Type(_, t) = &sig.output {
        let rname = fs.ret.clone().unwrap_or_else(|| "r".into());
        s.push_str(&format!(" -> ({}: {})", rname, print::inline(&t.to_token_stream())));
    }
    let mut wh = wh;
    for b in &fs.bounds {
        let w = wh.get_or_insert_with(|| parse_quote!(where));
        w.predicates.push(parse_str(b).expect("bound"));
    }
    if let Some(w) = wh { if !w.predicates.is_empty() {
        s.push(' ');
        s.push_str(&print::inline(&w.to_token_stream()));
    } }
    out.push_str(&s);
    out.push('\n');
    let c = cx.spec.subst_mono(&fs.contract, &mono);
    if !c.trim().is_empty() { out.push_str(&c); out.push('\n'); }
    match block {
        None => out.push_str(";\n"),
        Some(b) => {
            if fs.external && fs.stub {
                out.push_str("{ unimplemented!() }\n");
            } else {
                let txt = xform::body(path, b, &fs, cx, hoisted);
                let mut txt = cx.spec.subst_mono(&txt, &mono);
                if std::env::var("VPX_CANARY").is_ok() && !fs.external {
                    if let Some(i) = txt.find('{') { txt.insert_str(i + 1, " proof { assert(false); } /*vp_canary*/ "); }
                }
                out.push_str(&txt);
                out.push('\n');
            }
        }
    }
    out.push_str("//@end\n");
}
