//! Inlining of local helper functions that carry no contract (for example a helper extracted by a refactoring).
use syn::*;
use syn::visit_mut::{self, VisitMut};
use syn::visit::{self, Visit};
use quote::{format_ident, ToTokens};
use std::collections::BTreeMap;
use crate::{Ctx, xform};

#[derive(Clone)]
struct Helper { sig: Signature, block: Block, #[allow(dead_code)] owner: Option<String>, simple: bool }

fn has_flow(b: &Block) -> (bool, bool) {
    // (contains `?` or `return`, contains `return` of something that is not Err)
    struct F(bool, bool);
    impl<'a> Visit<'a> for F {
        fn visit_expr_try(&mut self, t: &'a ExprTry) { self.0 = true; visit::visit_expr_try(self, t) }
        fn visit_expr_return(&mut self, r: &'a ExprReturn) {
            self.0 = true;
            let t = r.expr.as_ref().map(|e| e.to_token_stream().to_string()).unwrap_or_default();
            if !t.starts_with("Err (") && !t.starts_with("Err(") { self.1 = true }
            visit::visit_expr_return(self, r)
        }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut f = F(false, false); f.visit_block(b); (f.0, f.1)
}

pub fn run(mut items: Vec<Item>, cx: &mut Ctx) -> Vec<Item> {
    // bind array patterns of parameters
    for it in items.iter_mut() {
        match it {
            Item::Fn(f) => bind_params(&f.sig, &mut f.block),
            Item::Impl(i) => for x in i.items.iter_mut() { if let ImplItem::Fn(f) = x { bind_params(&f.sig, &mut f.block) } },
            _ => {}
        }
    }
    let mut all: std::collections::BTreeSet<String> = Default::default();
    let mut reffields: BTreeMap<String, bool> = BTreeMap::new();
    for it in &items { if let Item::Struct(st) = it { for f in st.fields.iter() {
        if let Some(n) = &f.ident {
            let r = matches!(&f.ty, Type::Reference(t) if t.mutability.is_some());
            let e = reffields.entry(n.to_string()).or_insert(r); *e = *e && r;
        }
    } } }
    for _round in 0..3 {
        let mut free: BTreeMap<String, Helper> = BTreeMap::new();
        let mut meth: BTreeMap<String, Vec<Helper>> = BTreeMap::new();
        let mut all_meth: BTreeMap<String, usize> = BTreeMap::new();
        for it in &items {
            match it {
                Item::Fn(f) => {
                    let n = f.sig.ident.to_string();
                    if !cx.spec.fns.get(&n).map(|f| f.contract_set).unwrap_or(false) && !calls_self(&f.block, &n) {
                        free.insert(n, Helper { sig: f.sig.clone(), block: (*f.block).clone(), owner: None, simple: !has_flow(&f.block).0 });
                    }
                }
                Item::Impl(im) => {
                    let nm = xform::impl_name(im);
                    for x in &im.items {
                        if let ImplItem::Fn(f) = x {
                            let n = f.sig.ident.to_string();
                            *all_meth.entry(n.clone()).or_default() += 1;
                            if im.trait_.is_none() {
                                let p = format!("{nm}::{n}");
                                if !cx.spec.fns.get(&p).map(|f| f.contract_set).unwrap_or(false) && !cx.spec.drops(&p) && !calls_self(&f.block, &n) {
                                    meth.entry(n).or_default().push(Helper { sig: f.sig.clone(), block: f.block.clone(), owner: Some(nm.clone()), simple: !has_flow(&f.block).0 });
                                }
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        meth.retain(|k, v| v.len() == 1 && all_meth.get(k) == Some(&1));
        if free.is_empty() && meth.is_empty() { break }
        let mut inl = Inl { free: &free, meth: &meth, n: 0, notes: vec![], tail: false, skip: String::new(), count: 0, selfref: false, reffields: reffields.clone() };
        for it in items.iter_mut() {
            match it {
                Item::Fn(f) => { inl.skip = f.sig.ident.to_string(); inl.top(&mut f.block) }
                Item::Impl(im) => {
                    let byref = matches!(&*im.self_ty, Type::Reference(_));
                    for x in im.items.iter_mut() { if let ImplItem::Fn(f) = x {
                        inl.skip = f.sig.ident.to_string();
                        inl.selfref = byref || f.sig.receiver().map(|r| r.reference.is_some()).unwrap_or(false);
                        inl.top(&mut f.block)
                    } }
                }
                _ => {}
            }
        }
        let c = inl.count;
        all.extend(inl.notes);
        if c == 0 { break }
    }
    // a helper without any call left has been checked at every call site
    let gone: Vec<String> = all.iter().filter_map(|n| n.strip_prefix("inlined: ").map(|s| s.rsplit("::").next().unwrap().to_string())).collect();
    for g in gone {
        let mut refs = 0usize;
        for it in &items { refs += count_ident(it.to_token_stream(), &g); }
        if refs == 1 {
            items.retain(|it| !matches!(it, Item::Fn(f) if f.sig.ident == g));
            for it in items.iter_mut() { if let Item::Impl(im) = it { if im.trait_.is_none() { im.items.retain(|x| !matches!(x, ImplItem::Fn(f) if f.sig.ident == g)) } } }
        }
    }
    cx.notes.extend(all);
    // helpers whose parameters are closures cannot stand on their own
    for it in items.iter_mut() {
        if let Item::Impl(im) = it {
            im.items.retain(|x| if let ImplItem::Fn(f) = x { !f.sig.inputs.iter().any(|a| a.to_token_stream().to_string().contains("impl FnOnce")) } else { true });
        }
    }
    items
}

fn calls_self(b: &Block, n: &str) -> bool {
    let t = b.to_token_stream().to_string();
    t.contains(&format!("{n} (")) 
}

fn bind_params(sig: &Signature, b: &mut Block) {
    let mut pre: Vec<Stmt> = vec![];
    for (n, a) in sig.inputs.iter().enumerate() {
        if let FnArg::Typed(t) = a {
            if let Pat::Slice(s) = &*t.pat {
                let id = format_ident!("vp_arg{}", n);
                for (k, e) in s.elems.iter().enumerate() { pre.push(parse_quote!(let #e = #id[#k];)); }
            }
        }
    }
    for (k, s) in pre.into_iter().enumerate() { b.stmts.insert(k, s) }
}

struct Inl<'a> { free: &'a BTreeMap<String, Helper>, meth: &'a BTreeMap<String, Vec<Helper>>, n: usize, notes: Vec<String>, tail: bool, skip: String, count: usize,
    /// the caller's `self` is a reference; fields known to be mutable references
    selfref: bool, reffields: std::collections::BTreeMap<String, bool> }

/// `self` of the helper: the place itself under a field access or a method call, a (re)borrow anywhere else
struct SubSelf { with: Expr, bare: Option<Expr> }
impl SubSelf { fn is(e: &Expr) -> bool { matches!(e, Expr::Path(p) if p.path.is_ident("self")) } }
impl VisitMut for SubSelf {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if Self::is(e) { *e = self.bare.clone().unwrap_or_else(|| self.with.clone()); return }
        match e {
            Expr::Field(f) if Self::is(&f.base) => { f.base = Box::new(self.with.clone()); return }
            Expr::MethodCall(m) if Self::is(&m.receiver) => {
                m.receiver = Box::new(self.with.clone());
                for a in m.args.iter_mut() { self.visit_expr_mut(a) }
                return
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e)
    }
}
/// identifiers bound by patterns of a block
fn bound(b: &Block) -> std::collections::BTreeSet<String> {
    struct B(std::collections::BTreeSet<String>);
    impl<'a> Visit<'a> for B { fn visit_pat_ident(&mut self, p: &'a PatIdent) { self.0.insert(p.ident.to_string()); visit::visit_pat_ident(self, p) } }
    let mut v = B(Default::default()); v.visit_block(b); v.0
}
fn idents(t: proc_macro2::TokenStream, o: &mut std::collections::BTreeSet<String>) {
    for x in t { match x {
        proc_macro2::TokenTree::Ident(i) => { o.insert(i.to_string()); }
        proc_macro2::TokenTree::Group(g) => idents(g.stream(), o),
        _ => {}
    } }
}
/// `f(args)` where f is a closure parameter: beta-reduce
struct SubClosure { name: String, clo: ExprClosure, n: usize, reffields: BTreeMap<String, bool> }
impl VisitMut for SubClosure {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func { if p.path.is_ident(&self.name) {
                self.n += 1;
                let mut st: Vec<Stmt> = vec![];
                for (pat, a) in self.clo.inputs.iter().zip(c.args.iter()) {
                    let pat = match pat { Pat::Type(t) => (*t.pat).clone(), p => p.clone() };
                    // a field that is a mutable reference is reborrowed, as a call would
                    let re = if let Expr::Field(f) = a { if let Member::Named(n) = &f.member { self.reffields.get(&n.to_string()).copied().unwrap_or(false) } else { false } } else { false };
                    if re { st.push(parse_quote!(let #pat = &mut *#a;)) } else { st.push(parse_quote!(let #pat = #a;)) }
                }
                let b = &self.clo.body;
                *e = parse_quote!({ #(#st)* #b });
            } }
        }
    }
}

fn place(e: &Expr) -> bool {
    match e { Expr::Path(p) => p.path.get_ident().is_some(), Expr::Field(f) => place(&f.base), Expr::Paren(p) => place(&p.expr), _ => false }
}

impl<'a> Inl<'a> {
    fn top(&mut self, b: &mut Block) {
        // mark the tail expression
        self.visit_block_tail(b, true);
    }
    fn visit_block_tail(&mut self, b: &mut Block, tail: bool) {
        let n = b.stmts.len();
        for (k, s) in b.stmts.iter_mut().enumerate() {
            if k + 1 == n && tail {
                if let Stmt::Expr(e, None) = s { self.expr(e, true); continue }
            }
            self.tail = false;
            visit_mut::visit_stmt_mut(self, s);
        }
    }
    fn expr(&mut self, e: &mut Expr, tail: bool) {
        match e {
            Expr::Match(m) if tail => {
                self.visit_expr_mut(&mut m.expr);
                for a in m.arms.iter_mut() { if let Some((_, g)) = &mut a.guard { self.visit_expr_mut(g) } self.expr(&mut a.body, true) }
            }
            Expr::If(i) if tail => {
                self.visit_expr_mut(&mut i.cond);
                self.visit_block_tail(&mut i.then_branch, true);
                if let Some((_, x)) = &mut i.else_branch { self.expr(x, true) }
            }
            Expr::Block(b) if tail => self.visit_block_tail(&mut b.block, true),
            _ => {
                visit_mut::visit_expr_mut(self, e);
                self.try_inline(e, tail);
            }
        }
    }
    fn try_inline(&mut self, e: &mut Expr, tail: bool) {
        // direct `helper(..)?` is handled from the Try node
        let (inner, under_try) = match &*e { Expr::Try(t) => ((*t.expr).clone(), true), x => (x.clone(), false) };
        let (h, recv, args): (Helper, Option<Expr>, Vec<Expr>) = match &inner {
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return };
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                if segs.len() == 1 {
                    let Some(h) = self.free.get(&segs[0]) else { return };
                    (h.clone(), None, c.args.iter().cloned().collect())
                } else if segs.len() == 2 && segs[0].chars().next().unwrap().is_uppercase() {
                    let Some(h) = self.meth.get(&segs[1]) else { return };
                    let h = h[0].clone();
                    if h.sig.receiver().is_some() { return }
                    (h, None, c.args.iter().cloned().collect())
                } else { return }
            }
            Expr::MethodCall(m) => {
                let Some(h) = self.meth.get(&m.method.to_string()) else { return };
                let h = h[0].clone();
                if h.sig.receiver().is_none() || !place(&m.receiver) { return }
                (h, Some((*m.receiver).clone()), m.args.iter().cloned().collect())
            }
            _ => return,
        };
        if h.sig.ident == self.skip { return }
        let (flow, retok) = has_flow(&h.block);
        let ok = h.simple || !flow || ((under_try || tail) && !retok) || (tail && !under_try);
        if !ok { self.notes.push(format!("not-inlined: {}", h.sig.ident)); return }
        // a pure condition of simple values is put in place of the call, so that it stays a condition
        if recv.is_none() && !under_try {
            if let Some(x) = pure_call(&h, &args) { self.notes.push(format!("inlined: {}", h.sig.ident)); self.n += 1; self.count += 1; *e = x; return }
        }
        self.n += 1; self.count += 1;
        let mut body = h.block.clone();
        let mut pre: Vec<Stmt> = vec![]; let mut binds: Vec<Stmt> = vec![];
        let params: Vec<&FnArg> = h.sig.inputs.iter().filter(|a| matches!(a, FnArg::Typed(_))).collect();
        if params.len() != args.len() { return }
        for (k, (p, a)) in params.iter().zip(args.iter()).enumerate() {
            let FnArg::Typed(t) = p else { unreachable!() };
            if let Expr::Closure(c) = a {
                let Pat::Ident(i) = &*t.pat else { return };
                // no capture: the closure may not mention a name the helper binds
                let mut fv = Default::default(); idents(c.to_token_stream(), &mut fv);
                let mut bv = bound(&body);
                for q in &params { if let FnArg::Typed(t) = q { if let Pat::Ident(i) = &*t.pat { bv.insert(i.ident.to_string()); } } }
                let own: std::collections::BTreeSet<String> = c.inputs.iter().map(|p| p.to_token_stream().to_string()).collect();
                if fv.intersection(&bv).any(|x| !own.contains(x)) { return }
                let mut s = SubClosure { name: i.ident.to_string(), clo: c.clone(), n: 0, reffields: self.reffields.clone() };
                s.visit_block_mut(&mut body);
                if s.n != 1 { return }
                continue
            }
            let tmp = format_ident!("vp_h{}_{}", self.n, k);
            let ty = &t.ty; let pat = &t.pat;
            let generic = ty.to_token_stream().to_string().contains("impl ") || h.sig.generics.type_params().any(|g| ty.to_token_stream().to_string().split(|c: char| !c.is_alphanumeric()).any(|w| g.ident == w));
            let anylt = ty.to_token_stream().to_string().contains('\'') || ty.to_token_stream().to_string().contains("Self");
            let muref = matches!(&**ty, Type::Reference(r) if r.mutability.is_some()) && place(a);
            let a: Expr = if muref { parse_quote!(&mut *#a) } else { a.clone() };
            if generic || anylt { pre.push(parse_quote!(let #tmp = #a;)); } else { pre.push(parse_quote!(let #tmp: #ty = #a;)); }
            if let Pat::Slice(_) = &*t.pat {
                let FnArg::Typed(_) = p else { unreachable!() };
                let n = h.sig.inputs.iter().position(|x| std::ptr::eq(x, *p)).unwrap();
                let id = format_ident!("vp_arg{}", n);
                binds.push(parse_quote!(let #id = #tmp;));
            } else { binds.push(parse_quote!(let #pat = #tmp;)); }
        }
        if let Some(r) = recv {
            let isself = r.to_token_stream().to_string() == "self";
            if !isself {
                // no capture of the receiver's root by a name the helper binds
                let mut fv = Default::default(); idents(r.to_token_stream(), &mut fv); fv.remove("self");
                let mut bv = bound(&body);
                for q in &params { if let FnArg::Typed(t) = q { let mut x = Default::default(); idents(t.pat.to_token_stream(), &mut x); bv.extend(x) } }
                let root = { let mut x = &r; while let Expr::Field(f) = x { x = &f.base } x.to_token_stream().to_string() };
                if bv.contains(&root) { return }
            }
            let isref = if isself { self.selfref } else if let Expr::Field(f) = &r { if let Member::Named(n) = &f.member { self.reffields.get(&n.to_string()).copied().unwrap_or(false) } else { false } } else { false };
            let rc = h.sig.receiver().unwrap();
            let bare: Option<Expr> = match (rc.reference.is_some(), rc.mutability.is_some(), isref) {
                (true, true, true) => Some(parse_quote!((&mut *#r))),
                (true, true, false) => Some(parse_quote!((&mut #r))),
                (true, false, true) => Some(parse_quote!((&*#r))),
                (true, false, false) => Some(parse_quote!((&#r))),
                _ => None,
            };
            SubSelf { with: r, bare }.visit_block_mut(&mut body);
        }
        // keep the helper's declared return type: it may steer type inference
        let retty: Option<Type> = match &h.sig.output {
            ReturnType::Type(_, t) => {
                let w: Vec<String> = t.to_token_stream().to_string().split(|c: char| !c.is_alphanumeric() && c != '_').map(|x| x.to_string()).collect();
                let bad = w.iter().any(|x| x == "Self" || x == "impl") || t.to_token_stream().to_string().contains('\'') || h.sig.generics.type_params().any(|g| w.iter().any(|x| g.ident == x));
                if bad { None } else { Some((**t).clone()) }
            }
            _ => None,
        };
        let okty = retty.as_ref().and_then(|t| if let Type::Path(p) = t {
            let l = p.path.segments.last()?;
            if l.ident != "Result" { return None }
            if let PathArguments::AngleBracketed(x) = &l.arguments { if let Some(GenericArgument::Type(t)) = x.args.first() { return Some(t.clone()) } }
            None
        } else { None });
        let vr = format_ident!("vp_hr{}", self.n);
        self.notes.push(format!("inlined: {}", h.sig.ident));
        // `helper()?` whose body ends in Ok(x): the value is x
        if under_try {
            if let Some(Stmt::Expr(Expr::Call(c), None)) = body.stmts.last() {
                if c.func.to_token_stream().to_string() == "Ok" && c.args.len() == 1 {
                    let x = c.args[0].clone(); let n = body.stmts.len() - 1;
                    let st = &body.stmts[..n];
                    *e = if x.to_token_stream().to_string() == "()" { parse_quote!({ #(#pre)* #(#binds)* #(#st)* }) } else if let Some(ty) = okty { parse_quote!({ #(#pre)* #(#binds)* #(#st)* let #vr: #ty = #x; #vr }) } else { parse_quote!({ #(#pre)* #(#binds)* #(#st)* #x }) };
                    return
                }
            }
        }
        let stmts = &body.stmts;
        let new: Expr = match (&retty, under_try) {
            (Some(t), true) => { *e = parse_quote!({ #(#pre)* #(#binds)* let #vr: #t = { #(#stmts)* }; #vr? }); return }
            (Some(t), false) if !tail => parse_quote!({ #(#pre)* #(#binds)* let #vr: #t = { #(#stmts)* }; #vr }),
            _ => parse_quote!({ #(#pre)* #(#binds)* #(#stmts)* }),
        };
        *e = if under_try { parse_quote!((#new)?) } else { new };
    }
}
impl<'a> VisitMut for Inl<'a> {
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Try(t) = e {
            // visit the operand's children but not the operand itself (handled with the `?`)
            let mut o = (*t.expr).clone();
            visit_mut::visit_expr_mut(self, &mut o);
            t.expr = Box::new(o);
            self.try_inline(e, false);
            return
        }
        if let Expr::Return(r) = e {
            if let Some(x) = &mut r.expr { self.expr(x, true) }
            return
        }
        // `.map(helper)`: the helper's name stands for a closure that calls it
        if let Expr::MethodCall(m) = e { if m.args.len() == 1 && ["map", "map_err", "and_then", "position", "rposition", "filter"].contains(&m.method.to_string().as_str()) {
            if let Expr::Path(p) = &m.args[0] { if let Some(i) = p.path.get_ident() { if let Some(h) = self.free.get(&i.to_string()) {
                if h.sig.inputs.len() == 1 && h.simple { let p = p.clone(); m.args[0] = parse_quote!(|vp_x| #p(vp_x)); }
            } } }
        } }
        visit_mut::visit_expr_mut(self, e);
        self.try_inline(e, false);
    }
}

fn count_ident(t: proc_macro2::TokenStream, g: &str) -> usize {
    t.into_iter().map(|x| match x {
        proc_macro2::TokenTree::Ident(i) => (i == g) as usize,
        proc_macro2::TokenTree::Group(gr) => count_ident(gr.stream(), g),
        _ => 0,
    }).sum()
}

/// `helper(a, b)` whose body is one condition over its parameters, called with plain names or literals
fn pure_call(h: &Helper, args: &[Expr]) -> Option<Expr> {
    if !matches!(&h.sig.output, ReturnType::Type(_, t) if t.to_token_stream().to_string() == "bool") || h.sig.generics.type_params().next().is_some() { return None }
    let [Stmt::Expr(x, None)] = &h.block.stmts[..] else { return None };
    crate::xform::pure_bool(x)?;
    let bv = bound(&h.block);
    let mut map = std::collections::BTreeMap::new();
    for (p, a) in h.sig.inputs.iter().zip(args) {
        let FnArg::Typed(t) = p else { return None };
        if matches!(&*t.ty, Type::Reference(_)) { return None }
        let Pat::Ident(i) = &*t.pat else { return None };
        if bv.contains(&i.ident.to_string()) { return None }
        match a { Expr::Path(q) if q.path.get_ident().is_some() && !bv.contains(&q.path.get_ident().unwrap().to_string()) => {} Expr::Lit(_) => {} _ => return None }
        map.insert(i.ident.to_string(), a.clone());
    }
    struct S(std::collections::BTreeMap<String, Expr>);
    impl VisitMut for S { fn visit_expr_mut(&mut self, e: &mut Expr) { if let Expr::Path(p) = e { if let Some(i) = p.path.get_ident() { if let Some(a) = self.0.get(&i.to_string()) { *e = a.clone(); return } } } visit_mut::visit_expr_mut(self, e) } }
    let mut x = x.clone();
    S(map).visit_expr_mut(&mut x);
    Some(parse_quote!((#x)))
}
