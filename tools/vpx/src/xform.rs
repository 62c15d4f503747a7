use std::collections::BTreeMap;
use syn::*;
use syn::visit_mut::{self, VisitMut};
use syn::visit::{self, Visit};
use quote::{quote, format_ident, ToTokens};
use proc_macro2::TokenStream;
use crate::{Ctx, ty_name, print};
use crate::spec::{Spec, FnSpec};

pub fn impl_name(im: &ItemImpl) -> String {
    let t = ty_name(&im.self_ty);
    match &im.trait_ {
        Some((_, p, _)) => {
            let seg = p.segments.last().unwrap();
            let mut n = seg.ident.to_string();
            if n == "From" || n == "AsRef" || n == "AsMut" {
                if let PathArguments::AngleBracketed(a) = &seg.arguments {
                    if let Some(GenericArgument::Type(t)) = a.args.first() { n = format!("{n}<{}>", ty_name(t)); }
                }
            }
            format!("{n} for {t}")
        }
        None => t,
    }
}

pub fn mono_tag(im: &mut ItemImpl) -> String {
    let mut tag = String::new();
    for a in im.attrs.drain(..) {
        if a.path().is_ident("vpmono") {
            if let Meta::List(l) = &a.meta { tag = l.tokens.to_string() }
        }
    }
    tag
}

// ---------- monomorphisation of generic impls at their only instantiations ----------
struct SubstTy<'a> { m: &'a BTreeMap<String, String> }
impl<'a> VisitMut for SubstTy<'a> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            if p.qself.is_none() && p.path.segments.len() == 1 && p.path.segments[0].arguments.is_none() {
                if let Some(r) = self.m.get(&p.path.segments[0].ident.to_string()) {
                    *t = parse_str(r).expect("mono type");
                    return
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
}
pub fn monomorphise(items: Vec<Item>, sp: &Spec) -> Vec<Item> {
    let mut out = vec![];
    for it in items {
        if let Item::Impl(im) = &it {
            let t = match &*im.self_ty { Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(), _ => String::new() };
            let hits: Vec<_> = sp.mono.iter().filter(|m| m.0 == t).collect();
            if !hits.is_empty() && im.trait_.is_some() {
                for (_, tag, m) in hits {
                    let mut im2 = im.clone();
                    let mut extra: Vec<GenericParam> = vec![];
                    im2.generics.params = im2.generics.params.into_iter().filter(|p| match p {
                        GenericParam::Type(t) => !m.contains_key(&t.ident.to_string()),
                        _ => true,
                    }).collect();
                    if let Some(g) = m.get("generics") { extra.push(parse_str(g).unwrap()) }
                    im2.generics.params.extend(extra);
                    im2.generics.where_clause = None;
                    SubstTy { m }.visit_item_impl_mut(&mut im2);
                    let id: TokenStream = tag.parse().unwrap();
                    im2.attrs.push(parse_quote!(#[vpmono(#id)]));
                    out.push(Item::Impl(im2));
                }
                continue
            }
        }
        out.push(it);
    }
    out
}

// ---------- path normalisation ----------
pub struct Norm;
impl Norm {
    fn path(&self, p: &mut Path) {
        let names: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        if names.len() >= 2 && names[names.len() - 2] == "__private" && names.last().unwrap() == "Result" {
            let a = p.segments.last().unwrap().arguments.clone();
            *p = parse_quote!(core::result::Result); p.segments.last_mut().unwrap().arguments = a;
            return
        }
        if names.len() >= 2 {
            let last = names.last().unwrap().clone();
            let head = names[0].as_str();
            let cut = |p: &mut Path, n: usize| {
                p.leading_colon = None;
                let s: Vec<PathSegment> = p.segments.iter().skip(n).cloned().collect();
                p.segments = s.into_iter().collect();
            };
            if head == "serde" || head == "serde_core" || head == "de" || head == "ser" {
                let isde = names.iter().any(|n| n == "de");
                let isser = names.iter().any(|n| n == "ser") || (head == "serde" && last == "Serializer");
                let mut n = 0;
                while n + 1 < names.len() && ["serde", "serde_core", "de", "ser"].contains(&names[n].as_str()) { n += 1 }
                cut(p, n);
                if p.segments[0].ident == "Deserializer" && isde { p.segments[0].ident = format_ident!("SerdeDeserializer") }
                else if p.segments[0].ident == "VariantAccess" && isde { p.segments[0].ident = format_ident!("SerdeVariantAccess") }
                else if p.segments[0].ident == "Serializer" && isser { p.segments[0].ident = format_ident!("SerdeSerializer") }
            } else if head == "crate" || head == "super" || head == "ser_write" || head == "magick" || head == "base64" {
                let n = names.iter().take(names.len() - 1).take_while(|s| ["crate", "super", "ser_write", "magick", "base64"].contains(&s.as_str())).count();
                cut(p, n);
            } else if head == "fmt" || (names.len() >= 3 && (head == "core" || head == "std") && names[1] == "fmt") {
                let n = if head == "fmt" { 1 } else { 2 };
                cut(p, n);
                let id = p.segments[0].ident.to_string();
                p.segments[0].ident = match id.as_str() {
                    "Write" => format_ident!("FmtWrite"), "Error" => format_ident!("FmtError"),
                    "Result" => format_ident!("FmtResult"), "Display" => format_ident!("FmtDisplay"),
                    "write" => format_ident!("vp_fmt_write"), "Debug" => format_ident!("FmtDebug"),
                    _ => format_ident!("{}", id),
                };
            }
        }
    }
}
fn is_fmt_bound(b: &TypeParamBound) -> bool {
    matches!(b, TypeParamBound::Trait(t) if { let s = t.path.segments.last().unwrap().ident.to_string(); s == "FmtDisplay" || s == "FmtDebug" })
}
impl VisitMut for Norm {
    fn visit_path_mut(&mut self, p: &mut Path) { self.path(p); visit_mut::visit_path_mut(self, p) }
    fn visit_type_mut(&mut self, t: &mut Type) {
        // `<Self as Trait>::Error` -> `Self::Error`
        if let Type::Path(p) = t { if let Some(q) = &p.qself { if tstr(&q.ty) == "Self" {
            let l = p.path.segments.last().unwrap().ident.clone();
            *t = parse_quote!(Self::#l); return
        } } }
        visit_mut::visit_type_mut(self, t)
    }
    fn visit_generics_mut(&mut self, g: &mut Generics) {
        visit_mut::visit_generics_mut(self, g);
        for p in g.params.iter_mut() {
            if let GenericParam::Type(t) = p {
                if t.ident == "E" { t.bounds = t.bounds.iter().filter(|b| !is_fmt_bound(b)).cloned().collect(); }
            }
        }
        if let Some(w) = &mut g.where_clause {
            let mut ps = vec![];
            for mut p in w.predicates.iter().cloned() {
                if let WherePredicate::Type(t) = &mut p {
                    let ident = t.bounded_ty.to_token_stream().to_string();
                    // `&'a mut Serializer<W, Self>: serde::Serializer<..>`: a type-level condition met by the (only) implementation
                    if matches!(t.bounded_ty, Type::Reference(_)) {
                        t.bounds = t.bounds.iter().filter(|b| !matches!(b, TypeParamBound::Trait(t) if t.path.segments.last().unwrap().ident == "SerdeSerializer")).cloned().collect();
                        if t.bounds.is_empty() { continue }
                    }
                    if ident.contains("Error") || ident == "E" {
                        t.bounds = t.bounds.iter().filter(|b| !is_fmt_bound(b)).cloned().collect();
                        if t.bounds.is_empty() { continue }
                    }
                }
                ps.push(p);
            }
            w.predicates = ps.into_iter().collect();
            if w.predicates.is_empty() { g.where_clause = None }
        }
    }
    fn visit_attribute_mut(&mut self, _: &mut Attribute) {}
}
/// `mut self` by value: bound to a local of its own
pub fn mut_self(sig: &mut Signature, block: &mut Option<Block>) {
    let Some(FnArg::Receiver(r)) = sig.inputs.first_mut() else { return };
    if r.reference.is_some() || r.mutability.is_none() || block.is_none() { return }
    r.mutability = None;
    struct V;
    impl VisitMut for V { fn visit_path_mut(&mut self, p: &mut Path) { if p.is_ident("self") { *p = parse_quote!(vp_self) } visit_mut::visit_path_mut(self, p) } }
    let b = block.as_mut().unwrap();
    V.visit_block_mut(b);
    b.stmts.insert(0, parse_quote!(let mut vp_self = self;));
}
/// types of other crates under the names their contracts are declared with
pub fn alias(it: &mut Item, sp: &Spec) {
    struct A<'a>(&'a Spec);
    impl<'a> VisitMut for A<'a> { fn visit_path_mut(&mut self, p: &mut Path) {
        for (k, v) in &self.0.alias {
            if p.segments.len() >= k.len() && p.segments.iter().zip(k).all(|(s, n)| s.ident == n) {
                let mut segs: Vec<PathSegment> = p.segments.iter().skip(k.len() - 1).cloned().collect();
                segs[0].ident = Ident::new(v, segs[0].ident.span());
                p.leading_colon = None; p.segments = segs.into_iter().collect();
                break
            }
        }
        visit_mut::visit_path_mut(self, p)
    } }
    A(sp).visit_item_mut(it)
}
pub fn norm_struct(s: &mut ItemStruct) { Norm.visit_item_struct_mut(s) }
pub fn norm_paths_item<T: NormItem>(t: &mut T) { t.norm() }
pub trait NormItem { fn norm(&mut self); }
impl NormItem for ItemType { fn norm(&mut self) { Norm.visit_item_type_mut(self) } }
impl NormItem for ImplItemType { fn norm(&mut self) { Norm.visit_impl_item_type_mut(self) } }
pub fn norm_trait(t: &mut ItemTrait) { Norm.visit_item_trait_mut(t) }
pub fn norm_impl(t: &mut ItemImpl) { Norm.visit_item_impl_mut(t) }
pub fn norm_sig(s: &mut Signature) {
    Norm.visit_signature_mut(s);
    for a in s.inputs.iter_mut() { match a { FnArg::Typed(t) => t.attrs.clear(), FnArg::Receiver(r) => r.attrs.clear() } }
    for (n, a) in s.inputs.iter_mut().enumerate() {
        if let FnArg::Typed(t) = a {
            if let Pat::Slice(_) = &*t.pat {
                let id = format_ident!("vp_arg{}", n);
                *t.pat = parse_quote!(#id);
            }
        }
    }
}

// ---------- function bodies ----------
pub fn tstr<T: ToTokens>(t: &T) -> String { t.to_token_stream().to_string() }

struct Body<'a> { cx: &'a mut Ctx, fs: &'a FnSpec, path: String, npos: usize, nloop: usize, hoisted: &'a mut Vec<Item>, texts: Vec<(String, String)>, used_loops: Vec<usize>, retty: String, arrs: usize, extras: Vec<(String, String)>, kind: &'static str, shape: String }

fn strip_ref_pat(p: &Pat) -> (Pat, bool) {
    match p { Pat::Reference(r) => ((*r.pat).clone(), true), Pat::Paren(q) => strip_ref_pat(&q.pat), p => (p.clone(), false) }
}
fn peel(e: &Expr) -> &Expr { match e { Expr::Paren(p) => peel(&p.expr), Expr::Group(g) => peel(&g.expr), e => e } }

/// pattern test on a byte/integer/bool scrutinee as a boolean expression
fn pat_bool(p: &Pat, v: &TokenStream) -> Option<TokenStream> {
    Some(match p {
        Pat::Lit(l) => quote!((#v == #l)),
        Pat::Path(q) => quote!((#v == #q)),
        Pat::Ident(i) if i.subpat.is_none() && i.ident.to_string().chars().all(|c| c.is_uppercase() || c == '_' || c.is_numeric()) => { let i = &i.ident; quote!((#v == #i)) }
        Pat::Wild(_) => quote!(true),
        Pat::Paren(p) => pat_bool(&p.pat, v)?,
        Pat::Or(o) => {
            let ts: Option<Vec<TokenStream>> = o.cases.iter().map(|c| pat_bool(c, v)).collect();
            let ts = ts?; quote!((#(#ts)||*))
        }
        Pat::Range(r) => {
            let lo = r.start.as_ref(); let hi = r.end.as_ref();
            let a = lo.map(|l| quote!(#l <= #v)); let incl = matches!(r.limits, RangeLimits::Closed(_));
            let b = hi.map(|h| if incl { quote!(#v <= #h) } else { quote!(#v < #h) });
            match (a, b) { (Some(a), Some(b)) => quote!((#a && #b)), (Some(a), None) => quote!((#a)), (None, Some(b)) => quote!((#b)), _ => quote!(true) }
        }
        _ => return None,
    })
}
/// a side-effect-free boolean expression usable in a specification
pub fn pure_bool(e: &Expr) -> Option<TokenStream> {
    Some(match peel(e) {
        Expr::Lit(l) => quote!(#l),
        Expr::Path(p) => quote!(#p),
        Expr::Binary(b) => {
            let (l, r) = (pure_bool(&b.left)?, pure_bool(&b.right)?);
            let op = &b.op;
            if matches!(op, BinOp::AddAssign(_) | BinOp::SubAssign(_)) { return None }
            quote!((#l #op #r))
        }
        Expr::Unary(u) => { let x = pure_bool(&u.expr)?; let op = &u.op; quote!((#op #x)) }
        Expr::Match(m) => {
            let v = pure_bool(&m.expr)?;
            let mut acc: Option<TokenStream> = None;
            for arm in m.arms.iter().rev() {
                if arm.guard.is_some() { return None }
                let b = pure_bool(&arm.body)?;
                let c = pat_bool(&arm.pat, &v)?;
                acc = Some(match acc { None => b, Some(rest) => quote!((if #c { #b } else { #rest })) });
            }
            acc?
        }
        Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] { Stmt::Expr(e, None) => pure_bool(e)?, _ => return None },
        Expr::Cast(c) => { let x = pure_bool(&c.expr)?; let t = &c.ty; quote!((#x as #t)) }
        Expr::If(i) => { let Some((_, x)) = &i.else_branch else { return None }; let c = pure_bool(&i.cond)?; let t: Expr = { let b = &i.then_branch; parse_quote!(#b) }; let (a, b) = (pure_bool(&t)?, pure_bool(x)?); quote!((if #c { #a } else { #b })) }
        Expr::MethodCall(m) if m.args.is_empty() && m.turbofish.is_none() => {
            let x = pure_bool(&m.receiver)?;
            match m.method.to_string().as_str() {
                "is_ascii_digit" => quote!((48 <= #x && #x <= 57)),
                "is_ascii_whitespace" => quote!((#x == 32 || #x == 9 || #x == 10 || #x == 12 || #x == 13)),
                "is_ascii_control" => quote!((#x < 32 || #x == 127)),
                "is_ascii" => quote!((#x < 128)),
                "is_ascii_hexdigit" => quote!(((48 <= #x && #x <= 57) || (65 <= #x && #x <= 70) || (97 <= #x && #x <= 102))),
                _ => return None,
            }
        }
        _ => return None,
    })
}

fn closure1(e: &Expr) -> Option<(Pat, Expr)> {
    match peel(e) {
        Expr::Closure(c) if c.inputs.len() <= 1 => {
            let p = match c.inputs.first() { Some(Pat::Type(t)) => (*t.pat).clone(), Some(p) => p.clone(), None => parse_quote!(_) };
            struct R(bool);
            impl<'a> Visit<'a> for R {
                fn visit_expr_return(&mut self, _: &'a ExprReturn) { self.0 = true }
                fn visit_expr_try(&mut self, _: &'a ExprTry) { self.0 = true }
                fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
            }
            let mut r = R(false); r.visit_expr(&c.body);
            if r.0 { return None }
            Some((p, (*c.body).clone()))
        }
        Expr::Path(p) => {
            let id: Pat = parse_quote!(vp_x);
            Some((id, parse_quote!(#p(vp_x))))
        }
        _ => None,
    }
}
fn as_slice_expr(e: &Expr) -> Expr {
    match e {
        Expr::Index(i) if matches!(peel(&i.index), Expr::Range(_)) => parse_quote!(&#e),
        _ => e.clone(),
    }
}

impl<'a> Body<'a> {
    fn unsup(&mut self, m: &str) { self.cx.unsupported.push(format!("{}: {m}", self.path)) }
    fn mark(&mut self, text: String) -> Stmt {
        let n = self.texts.len();
        let key = format!("vp_mark{}", n);
        let id = format_ident!("{}", key);
        self.texts.push((key, text));
        parse_quote!(#id!();)
    }
    /// receiver kind of `.map`: Result if the nearest call is a known Result method
    fn is_result_recv(&self, e: &Expr) -> bool {
        match peel(e) {
            Expr::MethodCall(m) => self.cx.spec.result_methods.iter().any(|x| m.method == x) ,
            _ => false,
        }
    }
    fn position(&mut self, base: Expr, clo: &Expr, rev: bool) -> Option<Expr> {
        let (pat, body) = closure1(clo)?;
        let (pat, _) = strip_ref_pat(&pat);
        let n = self.npos; self.npos += 1;
        let p = format_ident!("vp_p{}", n); let q = format_ident!("vp_q{}", n); let r = format_ident!("vp_r{}", n);
        let base = as_slice_expr(&base);
        let extra = self.fs.inserts.iter().filter(|(a, _)| a == &format!("pos{n}")).map(|x| x.1.clone()).collect::<String>();
        let idx: TokenStream = if rev { quote!(#p.len() - 1 - #q) } else { quote!(#q) };
        let spec = pure_bool(&body);
        let pats = tstr(&pat);
        let mut inv = format!(" invariant_except_break {r} is None, {q} <= {p}@.len(),\n");
        inv.push_str(" invariant\n");
        if let Some(s) = &spec {
            let s = s.to_string();
            if rev { inv.push_str(&format!("  forall|vp_j: int| {p}@.len() - {q} <= vp_j < {p}@.len() ==> !({{ let {pats} = #[trigger] {p}@[vp_j]; {s} }}),\n")); }
            else { inv.push_str(&format!("  forall|vp_j: int| 0 <= vp_j < {q} ==> !({{ let {pats} = #[trigger] {p}@[vp_j]; {s} }}),\n")); }
        }
        inv.push_str(&extra);
        if rev {
            inv.push_str(&format!(" ensures {r} is None ==> {q} == {p}@.len(), {r} is Some ==> {r}->0 == {q} && {q} < {p}@.len(),\n"));
        } else {
            inv.push_str(&format!(" ensures {r} is None ==> {q} == {p}@.len(), {r} is Some ==> {r}->0 == {q} && {q} < {p}@.len(),\n"));
        }
        if let Some(s) = &spec {
            let s = s.to_string();
            let at = if rev { format!("{p}@.len() - 1 - {q}") } else { format!("{q} as int") };
            inv.push_str(&format!("  {r} is Some ==> ({{ let {pats} = {p}@[{at}]; {s} }}),\n"));
        }
        inv.push_str(&format!(" decreases {p}@.len() - {q},\n"));
        let m = self.mark(inv);
        let fin = self.fs.inserts.iter().filter(|(a, _)| a == &format!("posend{n}")).map(|x| x.1.clone()).collect::<String>();
        let after: Vec<Stmt> = if fin.is_empty() { vec![] } else {
            let key = format!("vp_posend{n}"); let id = format_ident!("{}", key);
            self.extras.push((key, fin));
            vec![parse_quote!(#id!();)]
        };
        Some(parse_quote!({
            let #p = #base;
            let mut #q: usize = 0;
            let mut #r: Option<usize> = None;
            while #q < #p.len() { #m let #pat = #p[#idx]; if #body { #r = Some(#q); break; } #q += 1; }
            #(#after)*
            #r
        }))
    }
}

/// the arm that takes over when the guard of arm k does not hold, and what it binds in terms of arm k's names
fn other_arm(arms: &[Arm], k: usize) -> Option<(usize, Vec<Stmt>)> {
    let head = |p: &Pat| match p { Pat::TupleStruct(t) => t.path.segments.last().map(|s| s.ident.to_string()), Pat::Path(q) => q.path.segments.last().map(|s| s.ident.to_string()), Pat::Ident(i) if i.ident.to_string().chars().next().unwrap().is_uppercase() => Some(i.ident.to_string()), _ => None };
    let name = |p: &Pat| match p { Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() && i.ident.to_string().chars().next().unwrap().is_lowercase() => Some(i.ident.clone()), _ => None };
    for j in k + 1..arms.len() {
        if arms[j].guard.is_some() { return None }
        if let Pat::Wild(_) = arms[j].pat { return Some((j, vec![])) }
        if tstr(&arms[j].pat) == tstr(&arms[k].pat) { return Some((j, vec![])) }
        let (hk, hj) = (head(&arms[k].pat)?, head(&arms[j].pat)?);
        if hk != hj { continue }
        let (Pat::TupleStruct(a), Pat::TupleStruct(b)) = (&arms[k].pat, &arms[j].pat) else { return None };
        if a.elems.len() != b.elems.len() { return None }
        let mut binds: Vec<Stmt> = vec![];
        for (x, y) in a.elems.iter().zip(&b.elems) {
            if let Pat::Wild(_) = y { continue }
            let (y, x) = (name(y)?, name(x)?);
            if x != y { binds.push(parse_quote!(let #y = #x;)) }
        }
        return Some((j, binds))
    }
    None
}
fn is_call_to(e: &Expr, name: &str) -> bool {
    matches!(e, Expr::MethodCall(m) if m.method == name)
}

/// elided lifetimes of a hoisted constant's type
fn static_refs(t: &mut Type) {
    struct S; impl VisitMut for S { fn visit_type_reference_mut(&mut self, r: &mut TypeReference) { if r.lifetime.is_none() { r.lifetime = Some(parse_quote!('static)) } visit_mut::visit_type_reference_mut(self, r) } }
    S.visit_type_mut(t)
}
/// the displayed value of `format_args!("{0}", V)`
fn display_arg(m: &Macro) -> Option<TokenStream> {
    let toks: Vec<proc_macro2::TokenTree> = m.tokens.clone().into_iter().collect();
    let f = toks.first()?.to_string();
    if f != "\"{0}\"" && f != "\"{}\"" { return None }
    let v: Vec<_> = toks.into_iter().skip(2).collect();
    if v.is_empty() || v.iter().any(|t| t.to_string() == ",") { return None }
    Some(v.into_iter().collect())
}

impl<'a> VisitMut for Body<'a> {
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_attribute_mut(&mut self, _: &mut Attribute) {}
    fn visit_block_mut(&mut self, b: &mut Block) {
        // hoist local items
        let mut st = vec![];
        for s in std::mem::take(&mut b.stmts) {
            match s {
                Stmt::Item(Item::Const(mut c)) => { c.attrs.clear(); static_refs(&mut c.ty); self.hoisted.push(Item::Const(c)) }
                Stmt::Item(Item::Use(u)) => {
                    let t = tstr(&u.tree);
                    if t.ends_with(":: *") && !t.contains("serde") { let mut u = u; u.attrs.clear(); self.hoisted.push(Item::Use(u)) }
                }
                Stmt::Local(mut l) => { l.attrs.clear(); st.push(Stmt::Local(l)) }
                Stmt::Macro(m) => { st.push(Stmt::Macro(m)) }
                s => st.push(s),
            }
        }
        b.stmts = st;
        visit_mut::visit_block_mut(self, b);
        // `let [a, b] = E;` (array pattern of plain names): bind the array, then its elements
        let mut st = vec![];
        for s in std::mem::take(&mut b.stmts) {
            if let Stmt::Local(l) = &s {
                if let (Pat::Slice(p), Some(init)) = (&l.pat, &l.init) {
                    if init.diverge.is_none() && p.elems.iter().all(|x| matches!(x, Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none())) {
                        self.arrs += 1;
                        let t = format_ident!("vp_arr{}", self.arrs); let (e, n) = (&init.expr, p.elems.len());
                        st.push(parse_quote!(let #t: [_; #n] = #e;));
                        for (k, x) in p.elems.iter().enumerate() { st.push(parse_quote!(let #x = #t[#k];)) }
                        continue
                    }
                }
            }
            st.push(s);
        }
        b.stmts = st;
    }
    fn visit_local_mut(&mut self, l: &mut Local) {
        visit_mut::visit_local_mut(self, l);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        strip_expr_attrs(e);
        // ---- pre-order rewrites
        if let Expr::Unsafe(u) = e {
            let s = tstr(&u.block);
            if s.contains("assume_init") {
                *e = parse_quote!(vp_uninit_array());
                return
            }
            if s.contains("as * const _ as * const [u8]") || s.contains("as * const [MaybeUninit < u8 >] as * const [u8]") {
                // &*(&buf[i..] as *const _ as *const [u8])
                struct F(Option<Expr>);
                impl<'a> Visit<'a> for F { fn visit_expr_reference(&mut self, r: &'a ExprReference) {
                    if let Expr::Index(_) = peel(&r.expr) { if self.0.is_none() { self.0 = Some(Expr::Reference(r.clone())) } }
                    visit::visit_expr_reference(self, r) } }
                let mut f = F(None); f.visit_block(&u.block);
                if let Some(r) = f.0 { *e = r; return }
            }
            if u.block.stmts.len() == 1 {
                if let Stmt::Expr(Expr::Call(_), _) = &u.block.stmts[0] {
                    let b = &u.block; let s2 = tstr(b);
                    if s2.contains("from_utf8_unchecked") { if let Stmt::Expr(c, _) = &b.stmts[0] { *e = c.clone(); } }
                }
                // unsafe { input.add(index).write(byte); }
                if let Expr::Unsafe(u) = e { if let Stmt::Expr(Expr::MethodCall(w), _) = &u.block.stmts[0] {
                    if w.method == "write" { if let Expr::MethodCall(a) = &*w.receiver { if a.method == "add" {
                        let (i, v) = (&a.args[0], &w.args[0]);
                        let base = &a.receiver;
                        *e = parse_quote!(vp_raw_store!(#base, #i, #v));
                    } } }
                } }
            }
        }
        if let Expr::Call(c) = e {
            // fmt::write(A, format_args!("{0}", V))
            if c.args.len() == 2 && tstr(&c.func).ends_with("write") && tstr(&c.args[1]).contains("format_args") {
                if let Expr::Macro(m) = &c.args[1] {
                    let f = c.args[0].clone();
                    match display_arg(&m.mac) { Some(v) => *e = parse_quote!(vp_fmt_write(#f, #v)), None => self.unsup("format string") }
                }
            }
        }
        match e {
            Expr::ForLoop(_) => { self.desugar_for(e); return }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        self.post(e);
    }
}

fn strip_expr_attrs(e: &mut Expr) {
    match e {
        Expr::MethodCall(x) => x.attrs.clear(), Expr::Block(x) => x.attrs.clear(), Expr::If(x) => x.attrs.clear(),
        Expr::Match(x) => { x.attrs.clear(); for a in x.arms.iter_mut() { a.attrs.clear() } }
        Expr::Call(x) => x.attrs.clear(), Expr::Path(x) => x.attrs.clear(), Expr::Closure(x) => x.attrs.clear(), Expr::Unsafe(x) => x.attrs.clear(),
        _ => {}
    }
}

impl<'a> Body<'a> {
    fn loop_mark(&mut self, auto: &str) -> Stmt {
        let n = self.nloop; self.nloop += 1;
        let k = std::mem::replace(&mut self.kind, "loop"); if !self.shape.is_empty() { self.shape.push(' ') } self.shape.push_str(k);
        self.used_loops.push(n);
        let t = match self.fs.loops.get(&n) {
            Some(t) => {
                // lines of the annotation are merged after automatic invariants
                if auto.is_empty() { t.clone() } else { format!("{}\n{}", merge_inv(auto, t), "") }
            }
            None => if auto.is_empty() { String::new() } else { format!(" invariant {auto}\n") },
        };
        self.mark(t)
    }
    fn desugar_for(&mut self, e: &mut Expr) {
        let Expr::ForLoop(f) = e.clone() else { unreachable!() };
        let n = self.nloop; // number that loop_mark will take
        let (i, s) = (format_ident!("vp_i{}", n), format_ident!("vp_s{}", n));
        let label = f.label.clone();
        if let Expr::Range(r) = peel(&f.expr) {
            let (Some(a), Some(b)) = (&r.start, &r.end) else { self.unsup("open range in for"); return };
            if matches!(r.limits, RangeLimits::Closed(_)) { self.unsup("closed range in for"); return }
            let nn = format_ident!("vp_n{}", n);
            self.kind = "range";
            let m = self.loop_mark(&format!("{i} <= {nn} || {i} == ({}),", tstr(a)));
            let (mut a, mut b) = ((**a).clone(), (**b).clone());
            self.visit_expr_mut(&mut a); self.visit_expr_mut(&mut b);
            let mut body = f.body.clone();
            self.visit_block_mut(&mut body);
            let stmts = &body.stmts; let pat = &f.pat;
            *e = parse_quote!({ let mut #i = #a; let #nn = #b; #label while #i < #nn { #m let #pat = #i; #i += 1; #(#stmts)* } });
            return
        }
        // slice iteration
        let mut base = f.expr.as_ref().clone();
        let (mut copied, mut enumerate, mut iter) = (false, false, false);
        let mut chunks: Option<Expr> = None;
        let mut byref = false;
        loop {
            let nb = match peel(&base) {
                Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => { iter = true; (*m.receiver).clone() }
                Expr::MethodCall(m) if (m.method == "copied" || m.method == "cloned") && m.args.is_empty() => { copied = true; (*m.receiver).clone() }
                Expr::MethodCall(m) if m.method == "enumerate" && m.args.is_empty() => { enumerate = true; (*m.receiver).clone() }
                Expr::MethodCall(m) if m.method == "by_ref" && m.args.is_empty() => { byref = true; (*m.receiver).clone() }
                Expr::MethodCall(m) if m.method == "chunks_exact" && !iter => { chunks = Some(m.args[0].clone()); let r = (*m.receiver).clone(); base = r; break }
                _ => break,
            };
            base = nb;
            if iter { break }
        }
        let _ = chunks;
        if byref && !iter {
            // for slice in chunks.by_ref(): chunk iterator object of the prelude
            self.kind = "chunks";
            let m = self.loop_mark("");
            let mut body = f.body.clone();
            self.visit_block_mut(&mut body);
            let stmts = &body.stmts; let pat = &f.pat;
            *e = parse_quote!({ #label while #base.has_next() { #m let #pat = #base.next_chunk(); #(#stmts)* } });
            return
        }
        self.visit_expr_mut(&mut base);
        let base = as_slice_expr(&base);
        self.kind = "slice";
        let m = self.loop_mark(&format!("{i} <= {s}@.len(),"));
        let (mut epat, mut ipat) = ((*f.pat).clone(), None);
        if enumerate {
            if let Pat::Tuple(t) = &epat { ipat = Some(t.elems[0].clone()); epat = t.elems[1].clone(); }
            else { self.unsup("enumerate pattern"); return }
        }
        let (p2, wasref) = strip_ref_pat(&epat);
        let elem: Stmt = if wasref || copied { parse_quote!(let #p2 = #s[#i];) } else { parse_quote!(let #p2 = &#s[#i];) };
        let mut body = f.body.clone();
        self.visit_block_mut(&mut body);
        let stmts = &body.stmts;
        let il: Option<Stmt> = ipat.map(|p| parse_quote!(let #p = #i;));
        *e = parse_quote!({ let #s = #base; let mut #i: usize = 0; #label while #i < #s.len() { #m #il #elem #i += 1; #(#stmts)* } });
    }

    fn post(&mut self, e: &mut Expr) {
        // loops
        match e {
            Expr::While(w) if !matches!(w.body.stmts.first(), Some(Stmt::Macro(_))) => {
                if let Expr::Let(_) = peel(&w.cond) {
                    // while let P = E { B }  ==> loop { if let P = E { B } else { break } }
                    let (c, b, l) = (w.cond.clone(), w.body.clone(), w.label.clone());
                    self.kind = "whilelet";
                    let m = self.loop_mark("");
                    *e = parse_quote!(#l loop { #m if #c #b else { break; } });
                } else {
                    self.kind = "while";
                    let m = self.loop_mark("");
                    w.body.stmts.insert(0, m);
                }
                return
            }
            Expr::Loop(w) if !matches!(w.body.stmts.first(), Some(Stmt::Macro(_))) => {
                let m = self.loop_mark("");
                w.body.stmts.insert(0, m);
                return
            }
            _ => {}
        }
        if let Expr::Lit(ExprLit { lit: Lit::ByteStr(b), .. }) = e {
            let v = b.value();
            let lits: Vec<LitInt> = v.iter().map(|x| LitInt::new(&format!("{x}u8"), proc_macro2::Span::call_site())).collect();
            *e = if lits.is_empty() { parse_quote!(&vp_empty_bytes()) } else { parse_quote!(&[#(#lits),*]) };
            return
        }
        // a string literal: a function that states (and proves) which bytes it has
        if let Expr::Lit(ExprLit { lit: Lit::Str(l), .. }) = e {
            let v = l.value();
            if v.is_ascii() && v.len() <= 40 {
                let n = match self.cx.lits.iter().position(|x| *x == v) { Some(n) => n, None => { self.cx.lits.push(v); self.cx.lits.len() - 1 } };
                let id = format_ident!("vp_lit{}", n);
                *e = parse_quote!(#id());
            }
            return
        }
        if let Expr::Match(m) = e {
            // `Some(&LITERAL)` patterns: match on the copied option
fn refpat(p: &Pat) -> bool { matches!(p, Pat::TupleStruct(t) if t.path.is_ident("Some") && t.elems.len() == 1 && matches!(&t.elems[0], Pat::Reference(r) if r.mutability.is_none())) }
            fn okpat(p: &Pat) -> bool { refpat(p) || match p { Pat::TupleStruct(t) => t.path.is_ident("Some") && t.elems.len() == 1 && matches!(&t.elems[0], Pat::Wild(_) | Pat::Rest(_)), Pat::Ident(i) => i.ident == "None", Pat::Path(_) | Pat::Wild(_) => true, _ => false } }
            if m.arms.iter().any(|a| refpat(&a.pat)) && m.arms.iter().all(|a| okpat(&a.pat)) {
                for a in m.arms.iter_mut() { if let Pat::TupleStruct(t) = &mut a.pat { if let Pat::Reference(r) = &t.elems[0] { let q = (*r.pat).clone(); t.elems[0] = q; } } }
                let x = m.expr.clone(); *m.expr = parse_quote!((#x).copied());
            }
        }
        if let Expr::Match(m) = e {
            // a guarded arm: an `if` inside the arm, whose other branch is the later arm that takes the same values
            for k in (0..m.arms.len()).rev() {
                let Some((_, g)) = m.arms[k].guard.clone() else { continue };
                if matches!(&*g, Expr::Let(_)) { continue }
                let Some((j, binds)) = other_arm(&m.arms, k) else { continue };
                let d = m.arms[j].body.clone();
                if tstr(&d).len() >= 300 { continue }
                m.arms[k].guard = None;
                let b = m.arms[k].body.clone();
                *m.arms[k].body = parse_quote!(if #g { #b } else { #(#binds)* #d });
            }
        }
        if let Expr::Let(l) = e {
            // `if let Some(&x) = e`: a pattern `&x` only binds Copy values
            if let Pat::TupleStruct(t) = &mut *l.pat {
                if t.path.is_ident("Some") && t.elems.len() == 1 {
                    if let Pat::Reference(r) = &t.elems[0] { if r.mutability.is_none() {
                        let q = (*r.pat).clone(); t.elems[0] = q;
                        let x = l.expr.clone(); *l.expr = parse_quote!((#x).copied());
                    } }
                }
            }
        }
        if let Expr::Match(m) = e {
            // match on a slice with patterns of plain names: a chain of length tests
            let simple = |p: &Pat| matches!(p, Pat::Slice(s) if s.elems.iter().all(|x| matches!(x, Pat::Ident(i) if i.subpat.is_none())));
            if m.arms.len() >= 2 && m.arms[..m.arms.len() - 1].iter().all(|a| simple(&a.pat) && a.guard.is_none()) && matches!(m.arms.last().unwrap().pat, Pat::Wild(_)) {
                let last = &m.arms.last().unwrap().body;
                let mut acc: Expr = parse_quote!({ #last });
                for a in m.arms[..m.arms.len() - 1].iter().rev() {
                    let Pat::Slice(s) = &a.pat else { unreachable!() };
                    let n = s.elems.len(); let body = &a.body;
                    let binds: Vec<Stmt> = s.elems.iter().enumerate().map(|(k, p)| -> Stmt { parse_quote!(let #p = vp_m[#k];) }).collect();
                    acc = parse_quote!(if vp_m.len() == #n { #(#binds)* #body } else { #acc });
                }
                let sc = &m.expr;
                *e = parse_quote!({ let vp_m = #sc; #acc });
                return
            }
        }
        if let Expr::Cast(c) = e {
            // casts to floating point go through a contracted function of the prelude
            let t = tstr(&c.ty);
            if t == "f32" || t == "f64" { let f = format_ident!("vp_as_{}", t); let x = &c.expr; *e = parse_quote!(#f(#x)); }
            return
        }
        if let Expr::Path(p) = e {
            let key = tstr(&p.path).replace(' ', "");
            if let Some(r) = self.cx.spec.subst_path.get(&key) { *e = parse_str(r).expect("subst-path"); return }
            // associated constant of a source trait: its function
            if p.path.segments.len() == 2 { if let Some(id) = p.path.segments.last().map(|s| s.ident.to_string()) { if self.cx.trait_consts.contains(&id) {
                let t = &p.path.segments[0]; let f = format_ident!("vp_const_{}", id);
                *e = parse_quote!(#t::#f());
            } } }
            return
        }
        let Expr::MethodCall(m) = e else { return };
        let name = m.method.to_string();
        let recv = (*m.receiver).clone();
        let args: Vec<Expr> = m.args.iter().cloned().collect();
        match (name.as_str(), args.len()) {
            ("write", 1) => {
                // MaybeUninit element write: buf[i].write(x)
                if let Expr::Index(_) = peel(&recv) { let a = &args[0]; *e = parse_quote!(#recv = #a); return }
            }
            ("write_str" | "serialize_str", 1) => {
                // a str argument sliced by a range: `&value[a..b]` is a str slice (core panics off a character boundary)
                if let Expr::Reference(r) = peel(&args[0]) { if let Expr::Index(i) = peel(&r.expr) { if let Expr::Range(rg) = peel(&i.index) {
                    let x = &i.expr;
                    let lo: Expr = rg.start.as_ref().map(|e| (**e).clone()).unwrap_or(parse_quote!(0));
                    let hi: Expr = rg.end.as_ref().map(|e| (**e).clone()).unwrap_or(parse_quote!(vp_str_len(#x)));
                    if matches!(rg.limits, RangeLimits::HalfOpen(_)) || rg.end.is_none() {
                        if let Expr::MethodCall(m) = e { m.args[0] = parse_quote!(vp_str_slice(#x, #lo, #hi)); }
                    }
                } } }
            }
            // write!(A, "{}", V)
            ("write_fmt", 1) => if let Expr::Macro(mc) = peel(&args[0]) {
                match display_arg(&mc.mac) { Some(v) => { *e = if matches!(peel(&recv), Expr::Reference(_)) { parse_quote!(vp_fmt_write(#recv, #v)) } else { parse_quote!(vp_fmt_write(&mut #recv, #v)) }; return } None => self.unsup("format string") }
            }
            ("position", 1) => {
                let (mut r, mut rev) = (recv.clone(), false);
                if let Expr::MethodCall(x) = peel(&r).clone() { if x.method == "rev" { rev = true; r = (*x.receiver).clone() } }
                if let Expr::MethodCall(x) = peel(&r).clone() {
                    if x.method == "iter" {
                        match self.position((*x.receiver).clone(), &args[0], rev) { Some(n) => { *e = n; return } None => self.unsup("position closure") }
                    } else { self.unsup("position on an unknown iterator") }
                }
            }
            // `x.extend(y.iter().copied())`: appends the elements of a slice
            ("extend", 1) => if let Expr::Path(x) = peel(&args[0]) { *e = parse_quote!(#recv.vp_extend(#x)); return }
            else if let Expr::MethodCall(it) = peel(&args[0]) { if it.method == "iter" && it.args.is_empty() { let x = &it.receiver; *e = parse_quote!(#recv.vp_extend(#x)); return }
            else if let Expr::MethodCall(c) = peel(&args[0]) { if c.method == "copied" || c.method == "cloned" { if let Expr::MethodCall(it) = peel(&c.receiver) { if it.method == "iter" {
                let x = &it.receiver; *e = parse_quote!(#recv.vp_extend(#x)); return
            } } } } },
            ("map_err", 1) => if let Some((p, b)) = closure1(&args[0]) {
                *e = parse_quote!((match #recv { Ok(vp_v) => Ok(vp_v), Err(#p) => Err(#b) })); return
            },
            ("map", 1) => if let Some((p, b)) = closure1(&args[0]) {
                if let Expr::Array(a) = peel(&recv) {
                    let els: Vec<Expr> = a.elems.iter().map(|x| -> Expr { parse_quote!({ let #p = #x; #b }) }).collect();
                    *e = parse_quote!([#(#els),*]); return
                }
                *e = if self.is_result_recv(&recv) { parse_quote!((match #recv { Ok(#p) => Ok(#b), Err(vp_e) => Err(vp_e) })) }
                     else { parse_quote!((match #recv { Some(#p) => Some(#b), None => None })) };
                return
            },
            ("and_then", 1) => if let Some((p, b)) = closure1(&args[0]) {
                *e = if self.is_result_recv(&recv) { parse_quote!((match #recv { Ok(#p) => #b, Err(vp_e) => Err(vp_e) })) }
                     else { parse_quote!((match #recv { Some(#p) => #b, None => None })) };
                return
            },
            ("unwrap_or_else", 1) => if let Some((_, b)) = closure1(&args[0]) {
                if let Expr::Closure(c) = peel(&args[0]) { if c.inputs.is_empty() {
                    *e = parse_quote!((match #recv { Some(vp_v) => vp_v, None => #b })); return
                } }
            },
            ("ok_or_else", 1) => if let Some((_, b)) = closure1(&args[0]) {
                *e = parse_quote!((match #recv { Some(vp_v) => Ok(vp_v), None => Err(#b) })); return
            },
            ("contains", 1) => {
                // membership of a range (a range constant or a range expression)
                let r = match peel(&recv) {
                    Expr::Range(r) => Some(r.clone()),
                    Expr::Path(p) => p.path.segments.last().and_then(|s| self.cx.ranges.get(&s.ident.to_string()).cloned()),
                    _ => None,
                };
                if let Some(r) = r {
                    if let (Some(lo), Some(hi)) = (&r.start, &r.end) {
                        let x = match peel(&args[0]) { Expr::Reference(x) => (*x.expr).clone(), x => parse_quote!(*#x) };
                        *e = match r.limits { RangeLimits::Closed(_) => parse_quote!(((#lo) <= #x && #x <= (#hi))), _ => parse_quote!(((#lo) <= #x && #x < (#hi))) };
                        return
                    }
                }
            }
            ("copy_within", 2) => if let Expr::Range(r) = peel(&args[0]) {
                if let (Some(lo), Some(hi), true) = (&r.start, &r.end, matches!(r.limits, RangeLimits::HalfOpen(_))) {
                    let d = &args[1];
                    *e = parse_quote!(vp_copy_within(&mut *#recv, #lo, #hi, #d)); return
                }
            },
            ("len", 0) => if let Expr::MethodCall(x) = peel(&recv) { if x.method == "encode_utf8" && x.args.len() == 1 {
                // `c.encode_utf8(&mut buf[d..]).len()`
                if let Expr::Reference(r) = peel(&x.args[0]) { if let Expr::Index(i) = peel(&r.expr) { if let Expr::Range(rg) = peel(&i.index) {
                    if let (Some(lo), None) = (&rg.start, &rg.end) {
                        let (c, b) = (&x.receiver, &i.expr);
                        *e = parse_quote!(vp_encode_utf8_at(#c, &mut *#b, #lo)); return
                    }
                } } }
            } },
            ("then_some", 1) => { let a = &args[0]; *e = parse_quote!((if #recv { Some(#a) } else { None })); return }
            ("unwrap", 0) => {
                if let Expr::MethodCall(x) = peel(&recv) { if x.method == "try_into" { let r = &x.receiver;
                    if let Expr::Index(i) = peel(r) { if let Expr::Range(_) = peel(&i.index) { *e = parse_quote!(vp_array_from_slice(&#r)); return } }
                    *e = parse_quote!(vp_array_from_slice(#r)); return } }
                if let Expr::Call(x) = peel(&recv) { if tstr(&x.func) == "vp_try_into" { let r = &x.args[0]; *e = parse_quote!(vp_array_from_slice(#r)); return } }
            },
            _ => {}
        }
        if let Expr::MethodCall(m) = e {
            if let Some((_, tr, mode)) = self.fs.ufcs.iter().find(|u| u.0 == name) {
                let tr: Path = parse_str(tr).unwrap(); let mm = &m.method;
                let r = &m.receiver; let a = m.args.iter();
                *e = match mode.as_str() { "mut" => parse_quote!(#tr::#mm(&mut #r, #(#a),*)), _ => parse_quote!(#tr::#mm(#r, #(#a),*)) };
                return
            }
            if let Some(r) = self.cx.spec.subst_fn.get(&name) {
                let f: Path = parse_str(r).unwrap(); let rc = &m.receiver; let a = m.args.iter();
                *e = parse_quote!(#f(#rc #(, #a)*)); return
            }
            if let Some(r) = self.cx.spec.subst_method.get(&format!("{name}/{}", m.args.len())).or_else(|| self.cx.spec.subst_method.get(&name)) { m.method = format_ident!("{}", r); }
        }
    }
}

fn merge_inv(auto: &str, t: &str) -> String {
    // insert the automatic facts right after the word `invariant` of the annotation, or add a clause
    if let Some(i) = t.find("invariant\n") { format!("{}invariant {}\n{}", &t[..i], auto, &t[i + 10..]) }
    else if let Some(i) = t.find("invariant ") { format!("{}invariant {} {}", &t[..i], auto, &t[i + 10..]) }
    else { format!(" invariant {auto}\n{t}") }
}

/// `break X` of a loop in tail position is `return X`
struct TailBreak { depth: usize }
impl VisitMut for TailBreak {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) => { self.depth += 1; visit_mut::visit_expr_mut(self, e); self.depth -= 1; }
            Expr::Closure(_) => {}
            Expr::Break(b) if self.depth == 0 && b.expr.is_some() && b.label.is_none() => {
                let mut x = (**b.expr.as_ref().unwrap()).clone();
                self.visit_expr_mut(&mut x);
                *e = parse_quote!(return #x);
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}

/// a parameter `x: &Cell<u8>` that is only read becomes its value
pub fn cell_params(sig: &mut Signature, b: &mut Option<Block>) {
    let mut names = vec![];
    for a in sig.inputs.iter_mut() { if let FnArg::Typed(t) = a {
        if tstr(&t.ty).replace(' ', "") == "&Cell<u8>" { names.push(tstr(&t.pat)); *t.ty = parse_quote!(u8); }
    } }
    struct G(Vec<String>);
    impl VisitMut for G { fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::MethodCall(m) = e { if m.method == "get" && m.args.is_empty() && self.0.contains(&tstr(&m.receiver)) { *e = (*m.receiver).clone(); } }
    } }
    // a type parameter that ranges over iterators of cells is the cursor
    let mut it = None;
    if let Some(w) = &sig.generics.where_clause { for p in &w.predicates { if let WherePredicate::Type(t) = p {
        if tstr(&t.bounds).replace(' ', "").contains("Cell<u8>>") && tstr(&t.bounds).starts_with("Iterator") { it = Some((tstr(&t.bounded_ty), t.bounds.clone())) }
    } } }
    if it.is_none() { for p in sig.generics.type_params() { if tstr(&p.bounds).replace(' ', "").contains("Cell<u8>>") && tstr(&p.bounds).starts_with("Iterator") { it = Some((p.ident.to_string(), p.bounds.clone())) } } }
    if let (Some(b), Some((id, bd))) = (b.as_mut(), it) {
        let lt = tstr(&bd).replace(' ', "").contains("&'a");
        let ty = if lt { "VpCellIter<'a>" } else { "VpCellIter<'_>" };
        let m: BTreeMap<String, String> = [(id.clone(), ty.to_string())].into_iter().collect();
        for a in sig.inputs.iter_mut() { if let FnArg::Typed(t) = a { SubstTy { m: &m }.visit_type_mut(&mut t.ty) } }
        sig.generics.where_clause = None;
        sig.generics.params = sig.generics.params.clone().into_iter().filter(|p| !matches!(p, GenericParam::Type(t) if t.ident == id)).collect();
        cell_sets(b);
    }
    if let (Some(b), false) = (b, names.is_empty()) { G(names).visit_block_mut(b) }
}

pub fn body(path: &str, mut b: Block, fs: &FnSpec, cx: &mut Ctx, hoisted: &mut Vec<Item>) -> String {
    // array patterns in parameters were renamed by norm_sig: bind them here (see inline::bind_params)
    if let Some(Stmt::Expr(Expr::Loop(l), None)) = b.stmts.last_mut() {
        TailBreak { depth: 0 }.visit_block_mut(&mut l.body);
    }
    special_cells(&mut b);
    special_rawptr(&mut b);
    Norm.visit_block_mut(&mut b);
    let (texts, nloop, mut extra);
    {
        let mut bd = Body { cx, fs, path: path.to_string(), npos: 0, nloop: 0, hoisted, texts: vec![], used_loops: vec![], retty: String::new(), arrs: 0, extras: vec![], kind: "loop", shape: String::new() };
        bd.visit_block_mut(&mut b);
        let _ = &bd.retty;
        texts = bd.texts; nloop = bd.nloop; extra = bd.extras;
        let shape = std::mem::take(&mut bd.shape);
        if !shape.is_empty() { cx.shapes.insert(path.to_string(), shape); }
    }
    let want = fs.loops.keys().max().map(|x| x + 1).unwrap_or(0);
    if want > nloop || (nloop > want && want > 0) || (nloop > 0 && want == 0) {
        cx.notes.push(format!("lost-anchor: {path}: loops {nloop} annotated {want}"));
    }
    let mut marks: Vec<(String, String)> = vec![];
    for (n, (a, t)) in fs.inserts.iter().enumerate() {
        if a.starts_with("pos") { continue }
        let id = format_ident!("vp_ins{}", n);
        let st: Stmt = parse_quote!(#id!(););
        if insert_at(&mut b, a, st) { extra.push((format!("vp_ins{n}"), t.clone())) }
        else { cx.notes.push(format!("lost-anchor: {path}: no place for `{a}`")) }
    }
    marks.extend(texts);
    let mut s = print::tokens(&b.to_token_stream());
    for (k, t) in &marks {
        // `{ MARK!(); rest` -> `INV { rest`
        let pat = format!("{k} !()");
        if let Some(i) = s.find(&pat) {
            let ob = s[..i].rfind('{').unwrap();
            let semi = i + s[i..].find(';').unwrap() + 1;
            s = format!("{}\n{}{{{}", &s[..ob], t, &s[semi..]);
        }
    }
    for (k, t) in &extra {
        let pat = format!("{k} !()");
        if let Some(i) = s.find(&pat) {
            let semi = i + s[i..].find(';').unwrap() + 1;
            s = format!("{}\n{}\n{}", &s[..i], t, &s[semi..]);
        }
    }
    s
}

/// `let P = X.as_mut_ptr()` (the raw view of self.input) and its raw stores become checked stores
fn special_rawptr(b: &mut Block) {
    let s = tstr(b);
    if !s.contains("as_mut_ptr") { return }
    // the parts of the buffer taken through the raw view are drawn from a permission that covers the whole buffer once
    struct V { names: Vec<String>, parts: bool }
    impl VisitMut for V {
        fn visit_block_mut(&mut self, b: &mut Block) {
            let mut out = vec![];
            for st in std::mem::take(&mut b.stmts) {
                if let Stmt::Local(l) = &st {
                    if let (Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
                        let t = tstr(&init.expr);
                        if t.contains("self . input . as_mut_ptr ()") {
                            self.names.push(i.ident.to_string());
                            if self.parts { let id = &i.ident; out.push(parse_quote!(let mut #id = vp_raw_of(&mut self.input);)); }
                            continue
                        }
                    }
                }
                out.push(st);
            }
            b.stmts = out;
            visit_mut::visit_block_mut(self, b);
        }
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if let Expr::Unsafe(u) = e {
                if u.block.stmts.len() == 1 {
                    if let Stmt::Expr(Expr::MethodCall(w), _) = &u.block.stmts[0] {
                        if w.method == "write" { if let Expr::MethodCall(a) = &*w.receiver { if a.method == "add" && self.names.contains(&tstr(&a.receiver)) {
                            let (i, v) = (&a.args[0], &w.args[0]);
                            *e = parse_quote!(self.input[#i] = #v);
                            return
                        } } }
                    }
                }
            }
            if let Expr::Call(c) = e {
                if tstr(&c.func).ends_with("from_raw_parts_mut") && c.args.len() == 2 {
                    let (ptr, off): (Expr, Expr) = match peel(&c.args[0]) {
                        Expr::MethodCall(a) if a.method == "add" && self.names.contains(&tstr(&a.receiver)) => ((*a.receiver).clone(), a.args[0].clone()),
                        x if self.names.contains(&tstr(x)) => (x.clone(), parse_quote!(0)),
                        _ => { visit_mut::visit_expr_mut(self, e); return }
                    };
                    let l = &c.args[1];
                    *e = parse_quote!(vp_raw_part(&mut #ptr, #off, #l));
                    return
                }
            }
            visit_mut::visit_expr_mut(self, e)
        }
    }
    V { names: vec![], parts: s.contains("from_raw_parts_mut") }.visit_block_mut(b);
}

/// Cell-slice aliasing idiom of the in-place base64 decoder: chunks become index ranges, the destination iterator a cursor that owns the buffer
fn cell_cursor(b: &mut Block) {
    let (mut cells, mut dest): (Option<(String, Expr)>, Option<Ident>) = (None, None);
    let mut out = vec![];
    for st in std::mem::take(&mut b.stmts) {
        if let Stmt::Local(l) = &st {
            if let (Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
                let t = tstr(&init.expr); let id = &i.ident;
                if t.starts_with("Cell :: from_mut (") && t.ends_with(". as_slice_of_cells ()") {
                    if let Expr::MethodCall(m) = &*init.expr { if let Expr::Call(c) = &*m.receiver { cells = Some((id.to_string(), c.args[0].clone())); continue } }
                }
                if let (Some((c, buf)), Expr::MethodCall(m)) = (&cells, &*init.expr) {
                    if tstr(&m.receiver) == *c && m.method == "chunks_exact" { let n = &m.args[0]; out.push(parse_quote!(let mut #id = VpCellChunks::new(#buf.len(), #n);)); continue }
                    if tstr(&m.receiver) == *c && m.method == "iter" { dest = Some(id.clone()); out.push(parse_quote!(let mut #id = VpCellIter::new(#buf);)); continue }
                }
            }
        }
        out.push(st);
    }
    b.stmts = out;
    let Some(dest) = dest else { return };
    struct V { dest: Ident }
    impl VisitMut for V {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            visit_mut::visit_expr_mut(self, e);
            if let Expr::MethodCall(m) = e {
                if m.method == "try_fold" && m.args.len() == 2 {
                    if let Expr::MethodCall(it) = &*m.receiver { if it.method == "iter" {
                        let (r, i, f, d) = (&it.receiver, &m.args[0], format_ident!("vp_fold_{}", tstr(&m.args[1])), &self.dest);
                        *e = parse_quote!(#f(&#d, #r, #i));
                    } }
                }
            }
        }
    }
    V { dest }.visit_block_mut(b);
    cell_sets(b);
}
/// `D.next().unwrap().set(v)` on a cell iterator: a checked store through the cursor
fn cell_sets(b: &mut Block) {
    struct S;
    impl VisitMut for S {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            visit_mut::visit_expr_mut(self, e);
            if let Expr::MethodCall(m) = e {
                if m.method == "set" && m.args.len() == 1 {
                    if let Expr::MethodCall(u) = &*m.receiver { if u.method == "unwrap_unchecked" || u.method == "unwrap" {
                        if let Expr::MethodCall(n) = &*u.receiver { if n.method == "next" {
                            let (d, v) = (&n.receiver, &m.args[0]);
                            *e = parse_quote!(#d.set_next(#v)); return
                        } }
                    } }
                }
            }
            if let Expr::Unsafe(u) = e {
                // only cursor stores inside: checked stores now
                if !u.block.stmts.is_empty() && u.block.stmts.iter().all(|s| matches!(s, Stmt::Expr(Expr::MethodCall(m), _) if m.method == "set_next")) {
                    let b = &u.block; *e = Expr::Block(parse_quote!(#b));
                }
            }
        }
    }
    S.visit_block_mut(b)
}


/// Cell-slice aliasing idiom of the in-place hex decoder (see DESIGN.md)
fn special_cells(b: &mut Block) {
    let s = tstr(b);
    if !s.contains("as_slice_of_cells") { return }
    if s.contains("try_fold") { return cell_cursor(b) }
    // expected statements:
    //   let cells = Cell::from_mut(input).as_slice_of_cells();
    //   let mut src = cells.chunks_exact(2);
    //   let mut iter = src.by_ref().zip(cells.iter());
    //   while let Some(([a, b], t)) = iter.next() {..}
    //   ... src.remainder() ...
    let mut cells = None; let mut src = None; let mut iter = None; let mut buf = None;
    let mut out = vec![];
    for st in std::mem::take(&mut b.stmts) {
        if let Stmt::Local(l) = &st {
            if let (Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
                let t = tstr(&init.expr);
                if t.starts_with("Cell :: from_mut (") && t.ends_with(". as_slice_of_cells ()") {
                    cells = Some(i.ident.to_string());
                    let inner: Expr = parse_str(t.trim_start_matches("Cell :: from_mut (").trim_end_matches(") . as_slice_of_cells ()").trim_end_matches(").as_slice_of_cells ()")).unwrap_or(parse_quote!(input));
                    let id = &i.ident;
                    buf = Some(id.clone());
                    out.push(parse_quote!(let #id = #inner;));
                    continue
                }
                if let Some(c) = &cells {
                    if t == format!("{c} . chunks_exact (2)") { src = Some(i.ident.to_string()); out.push(parse_quote!(let mut vp_k: usize = 0;)); continue }
                    if let Some(sn) = &src { if t == format!("{sn} . by_ref () . zip ({c} . iter ())") { iter = Some(i.ident.to_string()); continue } }
                }
            }
        }
        out.push(st);
    }
    b.stmts = out;
    let (Some(buf), Some(src), Some(iter)) = (buf, src, iter) else { return };
    struct V { buf: Ident, src: String, iter: String, names: Vec<(String, usize)>, one: Vec<String> }
    impl VisitMut for V {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if let Expr::While(w) = e {
                if let Expr::Let(l) = &*w.cond {
                    if tstr(&l.expr) == format!("{} . next ()", self.iter) {
                        // Some(([a, b], t))
                        let p = tstr(&l.pat).replace(' ', "");
                        if let Some(x) = p.strip_prefix("Some(([").and_then(|x| x.strip_suffix("))")) {
                            if let Some((ab, t)) = x.split_once("],") {
                                if let Some((a, bb)) = ab.split_once(',') {
                                    self.names.push((a.into(), 0)); self.names.push((bb.into(), 1)); self.names.push((t.into(), 2));
                                    let mut body = w.body.clone();
                                    self.visit_block_mut(&mut body);
                                    let stmts = &body.stmts; let buf = &self.buf;
                                    *e = parse_quote!(while vp_k < #buf.len() / 2 { vp_k += 1; #(#stmts)* });
                                    return
                                }
                            }
                        }
                    }
                }
            }
            if let Expr::Match(m) = e {
                if tstr(&m.expr) == format!("{} . remainder ()", self.src) {
                    // match src.remainder() { [c] if c.get() == QU => A, _ => B }
                    if m.arms.len() == 2 {
                        if let (Pat::Slice(ps), Some((_, g))) = (&m.arms[0].pat, &m.arms[0].guard) {
                            if ps.elems.len() == 1 {
                                self.one.push(tstr(&ps.elems[0]));
                                let (mut g, mut a, mut bb) = ((**g).clone(), (*m.arms[0].body).clone(), (*m.arms[1].body).clone());
                                self.visit_expr_mut(&mut g); self.visit_expr_mut(&mut a); self.visit_expr_mut(&mut bb);
                                let buf = &self.buf;
                                *e = parse_quote!(if #buf.len() % 2 == 1 && #g { #a } else { #bb });
                                return
                            }
                        }
                    }
                }
            }
            visit_mut::visit_expr_mut(self, e);
            if let Expr::MethodCall(m) = e {
                let r = tstr(&m.receiver); let buf = self.buf.clone();
                if m.method == "get" && m.args.is_empty() {
                    if self.one.contains(&r) { *e = parse_quote!(#buf[#buf.len() - 1]); return }
                    if let Some((_, k)) = self.names.iter().find(|n| n.0 == r) {
                        *e = match k { 0 => parse_quote!(#buf[2 * (vp_k - 1)]), 1 => parse_quote!(#buf[2 * (vp_k - 1) + 1]), _ => parse_quote!(#buf[vp_k - 1]) };
                    }
                } else if m.method == "set" && m.args.len() == 1 {
                    if let Some((_, k)) = self.names.iter().find(|n| n.0 == r) {
                        let v = &m.args[0];
                        *e = match k { 0 => parse_quote!(#buf[2 * (vp_k - 1)] = #v), 1 => parse_quote!(#buf[2 * (vp_k - 1) + 1] = #v), _ => parse_quote!(#buf[vp_k - 1] = #v) };
                    }
                }
            }
        }
    }
    V { buf, src, iter, names: vec![], one: vec![] }.visit_block_mut(b);
}

// ---------- proof insertion ----------
// anchors: begin | end (before the tail expression) | before N/after N: top-level statement index is avoided on purpose
//          loopbegin N | loopend N | afterloop N | beforeloop N | before "text" | after "text" (first statement, any depth, whose tokens contain text)
fn squash(s: &str) -> String { s.chars().filter(|c| !c.is_whitespace()).collect() }
fn insert_at(b: &mut Block, a: &str, st: Stmt) -> bool {
    if a == "begin" { b.stmts.insert(0, st); return true }
    if a == "end" {
        let n = b.stmts.len();
        if matches!(b.stmts.last(), Some(Stmt::Expr(_, None))) { b.stmts.insert(n - 1, st) } else { b.stmts.push(st) }
        return true
    }
    if a == "tail" {
        // bind the value of the tail expression, so that the proof sees the state after it
        match b.stmts.pop() {
            Some(Stmt::Expr(e, None)) => { b.stmts.push(parse_quote!(let vp_r = #e;)); b.stmts.push(st); b.stmts.push(Stmt::Expr(parse_quote!(vp_r), None)); }
            Some(x) => { b.stmts.push(x); b.stmts.push(st); }
            None => b.stmts.push(st),
        }
        return true
    }
    let (kind, arg) = a.split_once(' ').unwrap_or((a, ""));
    match kind {
        "loopbegin" | "loopend" | "afterloop" | "beforeloop" => {
            let n: usize = arg.parse().unwrap();
            struct L { n: usize, cur: usize, kind: String, st: Stmt, done: bool }
            // loops that carry a loop_mark are numbered in the order of their mark id
            impl VisitMut for L {
                fn visit_block_mut(&mut self, b: &mut Block) {
                    let mut i = 0;
                    while i < b.stmts.len() {
                        let before = self.done;
                        let hit = {
                            let mut is = false;
                            if let Stmt::Expr(e, _) = &mut b.stmts[i] {
                                if let Some(body) = loop_body(e) { if real_loop(body) {
                                    if self.cur == self.n && !self.done {
                                        is = true;
                                        match self.kind.as_str() {
                                            "loopbegin" => { let k = skip_binds(body); body.stmts.insert(k, self.st.clone()); self.done = true }
                                            "loopend" => { body.stmts.push(self.st.clone()); self.done = true }
                                            _ => {}
                                        }
                                    }
                                    self.cur += 1;
                                } }
                            }
                            is
                        };
                        if hit && self.kind == "afterloop" { b.stmts.insert(i + 1, self.st.clone()); self.done = true; i += 2; continue }
                        if hit && self.kind == "beforeloop" { b.stmts.insert(i, self.st.clone()); self.done = true; i += 2; continue }
                        if !before && self.done { return }
                        visit_mut::visit_stmt_mut(self, &mut b.stmts[i]);
                        if self.done { return }
                        i += 1;
                    }
                }
            }
            let mut l = L { n, cur: 0, kind: kind.into(), st, done: false };
            l.visit_block_mut(b);
            l.done
        }
        "before" | "after" => {
            let want = squash(arg.trim_matches('"'));
            struct P { want: String, before: bool, st: Stmt, done: bool }
            impl VisitMut for P {
                fn visit_block_mut(&mut self, b: &mut Block) {
                    // innermost match first
                    for i in 0..b.stmts.len() {
                        if self.done { return }
                        if squash(&tstr(&b.stmts[i])).contains(&self.want) {
                            visit_mut::visit_stmt_mut(self, &mut b.stmts[i]);
                            if self.done { return }
                            b.stmts.insert(if self.before { i } else { i + 1 }, self.st.clone());
                            self.done = true;
                            return
                        }
                    }
                }
            }
            let mut p = P { want, before: kind == "before", st, done: false };
            p.visit_block_mut(b);
            p.done
        }
        _ => panic!("anchor {a}"),
    }
}
fn loop_body(e: &mut Expr) -> Option<&mut Block> {
    match e { Expr::While(w) => Some(&mut w.body), Expr::Loop(l) => Some(&mut l.body), _ => None }
}
fn real_loop(b: &Block) -> bool {
    matches!(b.stmts.first(), Some(Stmt::Macro(m)) if tstr(&m.mac.path).starts_with("vp_mark")) && !tstr(b).starts_with("{ vp_pos")
        && !is_pos_loop(b)
}
fn is_pos_loop(b: &Block) -> bool {
    // position loops bind from vp_p*
    b.stmts.iter().any(|s| matches!(s, Stmt::Local(l) if l.init.as_ref().map(|i| tstr(&i.expr).starts_with("vp_p")).unwrap_or(false)))
}
fn skip_binds(b: &Block) -> usize {
    let mut k = 0;
    for (n, s) in b.stmts.iter().enumerate() {
        let t = tstr(s);
        if t.starts_with("vp_mark") || t.contains("vp_s") && t.starts_with("let") || t.starts_with("vp_i") || t.starts_with("let") && t.contains("= vp_i") || t.starts_with("vp_k += 1") { k = n + 1 } else { break }
    }
    k
}

/// `Self` -> the type it stands for, in a method moved out of its impl
pub fn replace_self(sig: &mut Signature, b: &mut Block, ty: &Type) {
    struct R<'a>(&'a Type);
    impl VisitMut for R<'_> {
        fn visit_type_mut(&mut self, t: &mut Type) {
            if let Type::Path(p) = t { if p.qself.is_none() && p.path.is_ident("Self") { *t = self.0.clone(); return } }
            visit_mut::visit_type_mut(self, t);
        }
        fn visit_path_mut(&mut self, p: &mut Path) {
            if p.leading_colon.is_none() && p.segments.len() > 1 && p.segments[0].ident == "Self" {
                if let Type::Path(tp) = self.0 { p.segments[0] = tp.path.segments.last().unwrap().clone(); }
            }
            visit_mut::visit_path_mut(self, p);
        }
    }
    let mut r = R(ty);
    r.visit_signature_mut(sig); r.visit_block_mut(b);
}
