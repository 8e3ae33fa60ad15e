//! Helpers without a contract are put back into their callers before the contracts are attached: a call
//! `self.h(a)`, `Self::h(a)` or `h(a)` of a function of the same file becomes a block with the function's body.
//! Only done where the block means the same as the call: no generics, no recursion; `?` only if the call is itself
//! under `?` or in tail position and the error types agree; `return` only in tail position or where the body can be
//! written without it.
use super::{is_test, norm, rng, tyname};
use std::collections::{BTreeMap, BTreeSet};
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

type R = (usize, usize);
fn toks<T: quote::ToTokens>(t: &T) -> String { norm(&t.to_token_stream().to_string()) }
fn idents(ts: proc_macro2::TokenStream, out: &mut Vec<(String, R)>) {
    for t in ts { match t { proc_macro2::TokenTree::Ident(i) => out.push((i.to_string(), rng(i.span()))), proc_macro2::TokenTree::Group(g) => idents(g.stream(), out), _ => {} } }
}
fn mentions<T: quote::ToTokens>(t: &T, name: &str) -> bool { let mut v = vec![]; idents(t.to_token_stream(), &mut v); v.iter().any(|x| x.0 == name) }

#[derive(Default)]
struct Flow { ret: bool, tr: bool, brk: bool, mac: bool, depth: usize }
impl<'a> Visit<'a> for Flow {
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
    fn visit_item(&mut self, _: &'a syn::Item) {}
    fn visit_expr_return(&mut self, i: &'a syn::ExprReturn) { self.ret = true; visit::visit_expr_return(self, i) }
    fn visit_expr_try(&mut self, i: &'a syn::ExprTry) { self.tr = true; visit::visit_expr_try(self, i) }
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        // opaque tokens: look for control flow in them
        let n = m.path.segments.last().unwrap().ident.to_string();
        if matches!(n.as_str(), "matches" | "debug_assert" | "debug_assert_eq" | "debug_assert_ne" | "assert" | "assert_eq" | "unreachable" | "panic" | "vec" | "format") { let s = m.tokens.to_string(); if s.contains('?') || s.contains("return") { self.mac = true } } else { self.mac = true }
    }
}
fn flow(b: &syn::Block) -> Flow { let mut f = Flow::default(); f.visit_block(b); let _ = f.depth; let _ = f.brk; f }
fn flow_e(e: &syn::Expr) -> Flow { let mut f = Flow::default(); f.visit_expr(e); f }
struct Pats(BTreeSet<String>);
impl<'a> Visit<'a> for Pats { fn visit_pat_ident(&mut self, i: &'a syn::PatIdent) { self.0.insert(i.ident.to_string()); visit::visit_pat_ident(self, i) } }
fn bound(b: &syn::Block) -> BTreeSet<String> { let mut p = Pats(BTreeSet::new()); p.visit_block(b); p.0 }
fn bound_pat(b: &syn::Pat) -> BTreeSet<String> { let mut p = Pats(BTreeSet::new()); p.visit_pat(b); p.0 }

fn sl<'a, T: Spanned>(src: &'a str, t: &T) -> &'a str { let r = rng(t.span()); &src[r.0..r.1] }

/// `stmts` as the inside of a block without `return`
fn deret(src: &str, stmts: &[syn::Stmt], fuel: usize) -> Option<String> {
    if fuel == 0 { return None }
    let mut out = String::new();
    for (i, s) in stmts.iter().enumerate() {
        let mut f = Flow::default(); f.visit_stmt(s);
        if f.mac { return None }
        if !f.ret { out.push_str(sl(src, s)); out.push('\n'); continue; }
        let rest = &stmts[i + 1..];
        out.push_str(&match s {
            syn::Stmt::Expr(syn::Expr::Return(r), _) => match &r.expr { Some(e) if !flow_e(e).ret => sl(src, &**e).to_string(), None => "()".into(), _ => return None },
            syn::Stmt::Expr(e, semi) => if semi.is_none() && rest.is_empty() { deret_value(src, e, fuel - 1)? } else { deret_then(src, e, None, rest, fuel - 1)? },
            syn::Stmt::Local(l) => {
                let init = l.init.as_ref()?;
                match &init.diverge {
                    Some((_, els)) => {
                        if flow_e(&init.expr).ret { return None }
                        let els = match &**els { syn::Expr::Block(b) => deret(src, &b.block.stmts, fuel - 1)?, _ => return None };
                        format!("match {} {{ {} => {{ {} }} _ => {{ {} }} }}", sl(src, &*init.expr), sl(src, &l.pat), deret(src, rest, fuel - 1)?, els)
                    }
                    None => deret_then(src, &init.expr, Some(&l.pat), rest, fuel - 1)?,
                }
            }
            _ => return None,
        });
        return Some(out);
    }
    Some(out)
}
/// tail expression with `return`s in tail position
fn deret_value(src: &str, e: &syn::Expr, fuel: usize) -> Option<String> {
    if fuel == 0 { return None }
    if !flow_e(e).ret { return Some(sl(src, e).into()) }
    match e {
        syn::Expr::Return(r) => Some(match &r.expr { Some(e) if !flow_e(e).ret => sl(src, &**e).to_string(), None => "()".into(), _ => return None }),
        syn::Expr::Block(b) if b.label.is_none() => Some(format!("{{ {} }}", deret(src, &b.block.stmts, fuel - 1)?)),
        syn::Expr::If(i) => {
            if flow_e(&i.cond).ret { return None }
            let els = match &i.else_branch { Some((_, e)) => deret_value(src, e, fuel - 1)?, None => return Some(format!("if {} {{ {} }}", sl(src, &*i.cond), deret(src, &i.then_branch.stmts, fuel - 1)?)) };
            Some(format!("if {} {{ {} }} else {{ {} }}", sl(src, &*i.cond), deret(src, &i.then_branch.stmts, fuel - 1)?, els))
        }
        syn::Expr::Match(m) => {
            if flow_e(&m.expr).ret { return None }
            let mut o = format!("match {} {{ ", sl(src, &*m.expr));
            for a in &m.arms { o.push_str(&format!("{}{} => {{ {} }} ", sl(src, &a.pat), guard(src, a)?, deret_value(src, &a.body, fuel - 1)?)); }
            Some(o + "}")
        }
        _ => None,
    }
}
fn guard(src: &str, a: &syn::Arm) -> Option<String> { Some(match &a.guard { Some((_, g)) => { if flow_e(g).ret { return None } format!(" if {}", sl(src, &**g)) } None => String::new() }) }
fn diverges(b: &[syn::Stmt]) -> bool { matches!(b.last(), Some(syn::Stmt::Expr(syn::Expr::Return(_), _))) }
/// `e` (value bound to `pat`, if given) followed by `rest`, where some branches of `e` return
fn deret_then(src: &str, e: &syn::Expr, pat: Option<&syn::Pat>, rest: &[syn::Stmt], fuel: usize) -> Option<String> {
    if fuel == 0 { return None }
    let rest_block: String = deret(src, rest, fuel - 1)?;
    let clean = |names: &BTreeSet<String>| -> bool { let own = pat.map(bound_pat).unwrap_or_default(); names.iter().all(|n| own.contains(n) || !rest.iter().any(|s| mentions(s, n))) };
    let bind = |v: &str| match pat { Some(p) => format!("let {} = {}; {}", sl(src, p), v, rest_block), None => format!("{v}; {rest_block}") };
    let go = |b: &[syn::Stmt]| -> Option<String> {
        if diverges(b) { return deret(src, b, fuel - 1) }
        let blk = syn::Block { brace_token: Default::default(), stmts: b.to_vec() };
        if flow(&blk).ret { return None }
        if !clean(&bound(&blk)) { return None }
        match b.last() {
            Some(syn::Stmt::Expr(v, None)) => { let mut o = String::new(); for s in &b[..b.len() - 1] { o.push_str(sl(src, s)); o.push('\n'); } Some(o + &bind(sl(src, v))) }
            _ => { if pat.is_some() { return None } let mut o = String::new(); for s in b { o.push_str(sl(src, s)); o.push('\n'); } Some(o + &rest_block) }
        }
    };
    match e {
        syn::Expr::If(i) => {
            if flow_e(&i.cond).ret || matches!(&*i.cond, syn::Expr::Let(l) if !diverges(&i.then_branch.stmts) && !clean(&bound_pat(&l.pat))) { return None }
            let els = match &i.else_branch {
                None => { if pat.is_some() { return None } rest_block.clone() }
                Some((_, e)) => match &**e { syn::Expr::Block(b) => go(&b.block.stmts)?, x => deret_then(src, x, pat, rest, fuel - 1)? },
            };
            Some(format!("if {} {{ {} }} else {{ {} }}", sl(src, &*i.cond), go(&i.then_branch.stmts)?, els))
        }
        syn::Expr::Match(m) => {
            if flow_e(&m.expr).ret { return None }
            let mut o = format!("match {} {{ ", sl(src, &*m.expr));
            for a in &m.arms {
                let body = match &*a.body {
                    syn::Expr::Block(b) if b.label.is_none() => go(&b.block.stmts)?,
                    syn::Expr::Return(r) => match &r.expr { Some(e) => sl(src, &**e).to_string(), None => "()".into() },
                    x => { if flow_e(x).ret { return None } bind(sl(src, x)) }
                };
                if !matches!(&*a.body, syn::Expr::Return(_)) && !matches!(&*a.body, syn::Expr::Block(b) if diverges(&b.block.stmts)) && !clean(&bound_pat(&a.pat)) { return None }
                o.push_str(&format!("{}{} => {{ {} }} ", sl(src, &a.pat), guard(src, a)?, body));
            }
            Some(o + "}")
        }
        _ => None,
    }
}

/// the value of a block under `?`
fn under_try(src: &str, stmts: &[syn::Stmt], same: bool) -> Option<String> {
    let (last, init) = stmts.split_last()?;
    let mut o = String::new();
    for s in init { o.push_str(sl(src, s)); o.push('\n'); }
    match last { syn::Stmt::Expr(e, None) => Some(o + &try_value(src, e, same)?), syn::Stmt::Expr(syn::Expr::Return(r), Some(_)) => { let e = r.expr.as_ref()?; Some(o + &try_value(src, e, same)?) } _ => None }
}
fn try_value(src: &str, e: &syn::Expr, same: bool) -> Option<String> {
    Some(match e {
        syn::Expr::Block(b) if b.label.is_none() => format!("{{ {} }}", under_try(src, &b.block.stmts, same)?),
        syn::Expr::If(i) => { let (_, e) = i.else_branch.as_ref()?; format!("if {} {{ {} }} else {{ {} }}", sl(src, &*i.cond), under_try(src, &i.then_branch.stmts, same)?, try_value(src, e, same)?) }
        syn::Expr::Match(m) => {
            let mut o = format!("match {} {{ ", sl(src, &*m.expr));
            for a in &m.arms { let g = match &a.guard { Some((_, g)) => format!(" if {}", sl(src, &**g)), None => String::new() }; o.push_str(&format!("{}{g} => {{ {} }} ", sl(src, &a.pat), try_value(src, &a.body, same)?)); }
            o + "}"
        }
        syn::Expr::Return(r) => return try_value(src, r.expr.as_ref()?, same),
        syn::Expr::Call(c) if toks(&c.func) == "Ok" && c.args.len() == 1 => sl(src, &c.args[0]).to_string(),
        syn::Expr::Call(c) if toks(&c.func) == "Err" && c.args.len() == 1 && same => format!("return {}", sl(src, e)),
        syn::Expr::Paren(p) => return try_value(src, &p.expr, same),
        e => format!("{}?", sl(src, e)),
    })
}

#[derive(Clone)]
struct Def { path: String, ty: String, name: String, sig: syn::Signature, block: syn::Block, span: R, inherent: bool }
struct Defs { v: Vec<Def>, ty: String, inherent: bool }
impl<'a> Visit<'a> for Defs {
    fn visit_item_mod(&mut self, i: &'a syn::ItemMod) { if !is_test(&i.attrs) { visit::visit_item_mod(self, i) } }
    fn visit_item_fn(&mut self, i: &'a syn::ItemFn) {
        if is_test(&i.attrs) { return }
        let n = i.sig.ident.to_string();
        self.v.push(Def { path: n.clone(), ty: String::new(), name: n, sig: i.sig.clone(), block: (*i.block).clone(), span: rng(i.span()), inherent: true });
    }
    fn visit_item_impl(&mut self, i: &'a syn::ItemImpl) {
        if is_test(&i.attrs) { return }
        let ty = tyname(&i.self_ty);
        let pre = match &i.trait_ { Some((_, p, _)) => format!("<{} as {}>", ty, toks(p)), None => ty.clone() };
        for it in &i.items { if let syn::ImplItem::Fn(f) = it { if is_test(&f.attrs) || super::cfg_off(&f.attrs) { continue }
            let n = f.sig.ident.to_string();
            self.v.push(Def { path: format!("{pre}::{n}"), ty: ty.clone(), name: n, sig: f.sig.clone(), block: f.block.clone(), span: rng(f.span()), inherent: i.trait_.is_none() });
        } }
        let _ = (&self.ty, self.inherent);
    }
}
fn defs(text: &str) -> Option<Vec<Def>> { let ast = syn::parse_file(text).ok()?; let mut d = Defs { v: vec![], ty: String::new(), inherent: true }; d.visit_file(&ast); Some(d.v) }

fn ret_ty(s: &syn::Signature) -> String { match &s.output { syn::ReturnType::Default => "()".into(), syn::ReturnType::Type(_, t) => toks(t) } }
/// what `?` returns early in a function of this type
fn err_ty(s: &syn::Signature) -> String {
    let t = ret_ty(s);
    if t.starts_with("Option<") { return "Option".into() }
    if t.starts_with("io::Result<") || t.starts_with("std::io::Result<") { return "io::Error".into() }
    if let syn::ReturnType::Type(_, t) = &s.output { if let syn::Type::Path(p) = &**t { let l = p.path.segments.last().unwrap(); if l.ident == "Result" { if let syn::PathArguments::AngleBracketed(a) = &l.arguments { if a.args.len() == 2 { return toks(&a.args[1]).replace("std::io::Error", "io::Error") } } } } }
    String::new()
}
fn tails(e: &syn::Expr, out: &mut Vec<R>) {
    out.push(rng(e.span()));
    match e {
        syn::Expr::If(i) => { if let Some((_, e)) = &i.else_branch { tails_b(&i.then_branch, out); tails(e, out) } }
        syn::Expr::Match(m) => for a in &m.arms { tails(&a.body, out) },
        syn::Expr::Block(b) => tails_b(&b.block, out),
        syn::Expr::Paren(p) => tails(&p.expr, out),
        syn::Expr::Return(r) => if let Some(e) = &r.expr { tails(e, out) },
        _ => {}
    }
}
fn tails_b(b: &syn::Block, out: &mut Vec<R>) { if let Some(syn::Stmt::Expr(e, None)) = b.stmts.last() { tails(e, out) } }

struct Site { helper: usize, span: R, tried: Option<R>, stmt: bool, tail: bool, closure: bool, recv: Option<syn::Expr>, args: Vec<syn::Expr> }
struct Calls<'h> { helpers: &'h [Def], cur_ty: String, tails: Vec<R>, out: Vec<Site>, closure: usize, tries: BTreeMap<R, R>, stmts: BTreeSet<R> }
impl<'h> Calls<'h> {
    fn push(&mut self, helper: usize, span: R, recv: Option<syn::Expr>, args: Vec<syn::Expr>) {
        let tried = self.tries.get(&span).copied();
        let w = tried.unwrap_or(span);
        self.out.push(Site { helper, span, tried, stmt: self.stmts.contains(&w), tail: self.tails.contains(&span), closure: self.closure > 0, recv, args });
    }
}
impl<'a, 'h> Visit<'a> for Calls<'h> {
    fn visit_stmt(&mut self, s: &'a syn::Stmt) { if let syn::Stmt::Expr(e, Some(_)) = s { self.stmts.insert(rng(e.span())); } visit::visit_stmt(self, s) }
    fn visit_expr_try(&mut self, i: &'a syn::ExprTry) { self.tries.insert(rng(i.expr.span()), rng(i.span())); visit::visit_expr_try(self, i) }
    fn visit_expr_return(&mut self, i: &'a syn::ExprReturn) { if self.closure == 0 { if let Some(e) = &i.expr { tails(e, &mut self.tails) } } visit::visit_expr_return(self, i) }
    fn visit_expr_closure(&mut self, i: &'a syn::ExprClosure) { self.closure += 1; visit::visit_expr_closure(self, i); self.closure -= 1; }
    fn visit_expr_call(&mut self, i: &'a syn::ExprCall) {
        let f = toks(&i.func);
        let f = f.split("::<").next().unwrap_or("").to_string();
        for (k, h) in self.helpers.iter().enumerate() {
            let hit = if h.ty.is_empty() { f == h.name || f == format!("self::{}", h.name) } else { f == format!("{}::{}", h.ty, h.name) || (f == format!("Self::{}", h.name) && h.ty == self.cur_ty) };
            if hit {
                let mut args: Vec<syn::Expr> = i.args.iter().cloned().collect();
                let recv = if h.sig.receiver().is_some() && !args.is_empty() { Some(args.remove(0)) } else { None };
                if h.sig.receiver().is_some() && !matches!(&recv, Some(syn::Expr::Path(p)) if p.path.is_ident("self")) { continue }
                self.push(k, rng(i.span()), recv, args);
            }
        }
        visit::visit_expr_call(self, i)
    }
    fn visit_expr_method_call(&mut self, i: &'a syn::ExprMethodCall) {
        let m = i.method.to_string();
        let is_self = matches!(&*i.receiver, syn::Expr::Path(p) if p.path.is_ident("self"));
        let c: Vec<usize> = self.helpers.iter().enumerate().filter(|(_, h)| h.name == m && h.sig.receiver().is_some() && (!is_self || h.ty == self.cur_ty)).map(|x| x.0).collect();
        if c.len() == 1 { self.push(c[0], rng(i.span()), Some((*i.receiver).clone()), i.args.iter().cloned().collect()); }
        visit::visit_expr_method_call(self, i)
    }
}
fn place(e: &syn::Expr) -> bool { match e { syn::Expr::Path(p) => p.path.get_ident().is_some(), syn::Expr::Field(f) => place(&f.base), syn::Expr::Paren(p) => place(&p.expr), _ => false } }

fn expand(text: &str, caller: &Def, h: &Def, s: &Site) -> Option<String> {
    if !h.sig.generics.params.iter().all(|p| matches!(p, syn::GenericParam::Lifetime(_))) || h.sig.asyncness.is_some() || h.sig.unsafety.is_some() { return None }
    if toks(&h.sig.inputs).contains("impl") { return None }
    let fl = flow(&h.block);
    if fl.mac { return None }
    if fl.tr && s.closure { return None }
    let (e1, e2) = (err_ty(&h.sig), err_ty(&caller.sig));
    let same_err = !e1.is_empty() && e1 == e2;
    let compat = same_err || (e1 == "io::Error" && (e2 == "EncodingError" || e2 == "DecodingError"));
    let same_ret = ret_ty(&h.sig) == ret_ty(&caller.sig) && (h.ty == caller.ty || !ret_ty(&h.sig).contains("Self"));
    let tail = s.tail && s.tried.is_none() && !s.closure && same_ret;
    if fl.tr && !tail && !(s.tried.is_some() && compat) { return None }
    if s.tried.is_some() && !compat { return None }
    // inside of the body
    let (b0, b1) = rng(h.block.span());
    let mut edits: Vec<(R, String)> = vec![];
    let mut all = vec![]; idents(quote::ToTokens::to_token_stream(&h.block), &mut all);
    let locals = bound(&h.block);
    let mut lets = String::new();
    // the receiver
    if let Some(r) = h.sig.receiver() {
        let recv = s.recv.as_ref()?;
        if !matches!(recv, syn::Expr::Path(p) if p.path.is_ident("self")) {
            if !place(recv) { return None }
            let rt = sl(text, recv).to_string();
            let mut v = vec![]; idents(quote::ToTokens::to_token_stream(recv), &mut v);
            if v.iter().any(|x| locals.contains(&x.0)) { return None }
            for (n, p) in &all { if n == "self" {
                let dot = text[p.1..].trim_start().starts_with('.') && !text[p.1..].trim_start().starts_with("..");
                edits.push((*p, if dot { rt.clone() } else if r.reference.is_none() { rt.clone() } else if r.mutability.is_some() { format!("(&mut {rt})") } else { format!("(&{rt})") }));
            } }
        } else if r.reference.is_none() && r.mutability.is_some() { return None }
    }
    if h.ty != caller.ty && all.iter().any(|x| x.0 == "Self") { for (n, p) in &all { if n == "Self" { edits.push((*p, h.ty.clone())); } } }
    // the parameters
    let params: Vec<&syn::PatType> = h.sig.inputs.iter().filter_map(|a| match a { syn::FnArg::Typed(t) => Some(t), _ => None }).collect();
    if params.len() != s.args.len() { return None }
    let mut names = vec![];
    for (k, (p, a)) in params.iter().zip(&s.args).enumerate() {
        let at = sl(text, a);
        let (name, mutable) = match &*p.pat { syn::Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() => (i.ident.to_string(), i.mutability.is_some()), syn::Pat::Wild(_) => { lets.push_str(&format!("let _ = {at}; ")); continue } _ => return None };
        let plain = matches!(a, syn::Expr::Path(q) if q.path.get_ident().is_some());
        if plain && !mutable && at == name { continue }
        if plain && !mutable && !locals.contains(at) && !locals.contains(&name) && !params.iter().any(|q| toks(&q.pat) == at) {
            for (n, r) in &all { if *n == name { let field = text[..r.0].trim_end().ends_with('.') && !text[..r.0].trim_end().ends_with(".."); if !field { edits.push((*r, at.to_string())); } } }
            continue;
        }
        let t = sl(text, &*p.ty);
        let ann = if t.contains("impl ") || t.split('\'').skip(1).any(|x| !x.starts_with('_') && !x.starts_with("static")) { String::new() } else { format!(": {t}") };
        let later = s.args[k + 1..].iter().any(|x| mentions(x, &name));
        if later { return None }
        lets.push_str(&format!("let {}{name}{ann} = {at}; ", if mutable { "mut " } else { "" }));
        names.push(name);
    }
    edits.sort();
    let mut body = String::new(); let mut at = b0 + 1;
    for (r, t) in &edits { body.push_str(&text[at..r.0]); body.push_str(t); at = r.1; }
    body.push_str(&text[at..b1 - 1]);
    let block = |t: &str| -> Option<(String, syn::Block)> { let t = format!("{{ {t} }}"); syn::parse_str::<syn::Block>(&t).ok().map(|b| (t, b)) };
    let (mut t, mut b) = block(&body)?;
    if flow(&b).ret && !tail {
        // without `return`
        let d = if s.tried.is_some() && same_err && false { body.clone() } else { deret(&t, &b.stmts, 12)? };
        let x = block(&d)?; t = x.0; b = x.1;
        if flow(&b).ret { return None }
    }
    let inner = if s.tried.is_some() { under_try(&t, &b.stmts, same_err)? } else { t[1..t.len() - 1].to_string() };
    let out = format!("{lets}{inner}");
    Some(if s.stmt && (s.tried.is_some() || ret_ty(&h.sig) == "()") { format!("{{ {out} }}") } else { format!("({{ {out} }})") })
}

/// Puts helpers back into their callers; `known(file, path)` tells the functions that have a contract (or are dealt with otherwise).
pub fn inline(files: &mut BTreeMap<String, String>, known: &dyn Fn(&str, &str) -> bool) -> Vec<String> {
    let mut done = vec![];
    let names: Vec<String> = files.keys().cloned().collect();
    for f in &names {
        let Some(orig) = defs(&files[f]) else { continue };
        let mut used: BTreeSet<String> = BTreeSet::new();
        for _ in 0..60 {
            let text = files[f].clone();
            let Some(ds) = defs(&text) else { break };
            let helpers: Vec<Def> = ds.iter().filter(|d| d.inherent && !known(f, &d.path) && !mentions(&d.block, &d.name) && ds.iter().filter(|x| x.path == d.path).count() == 1).cloned().collect();
            if helpers.is_empty() { break }
            let mut change = None;
            'find: for c in ds.iter().filter(|d| known(f, &d.path)) {
                let mut t = vec![]; tails_b(&c.block, &mut t);
                let mut v = Calls { helpers: &helpers, cur_ty: c.ty.clone(), tails: t, out: vec![], closure: 0, tries: BTreeMap::new(), stmts: BTreeSet::new() };
                v.visit_block(&c.block);
                for s in &v.out {
                    let h = &helpers[s.helper];
                    if let Some(x) = expand(&text, c, h, s) { change = Some((s.tried.unwrap_or(s.span), x, h.path.clone(), c.path.clone())); break 'find; }
                }
            }
            let Some((r, x, h, c)) = change else { break };
            let mut n = text.clone(); n.replace_range(r.0..r.1, &x);
            if syn::parse_file(&n).is_err() { break }
            files.insert(f.clone(), n);
            used.insert(h.clone());
            done.push(format!("{f}: {h} put back into {c}"));
        }
        // definitions nobody refers to any more
        loop {
            let text = files[f].clone();
            let Some(ds) = defs(&text) else { break };
            let gone = ds.iter().find(|d| orig.iter().any(|o| o.path == d.path) && (used.contains(&d.path) || (!done.is_empty() && !known(f, &d.path) && d.inherent && d.sig.ident != "main" && used.iter().any(|u| orig.iter().any(|o| &o.path == u && mentions(&o.block, &d.name))))) && {
                files.iter().all(|(g, t)| { let t = if g == f { format!("{}{}", &t[..d.span.0], &t[d.span.1..]) } else { t.clone() }; let mut v = vec![]; if let Ok(ts) = t.parse::<proc_macro2::TokenStream>() { idents(ts, &mut v); } !v.iter().any(|x| x.0 == d.name) })
            });
            let Some(d) = gone else { break };
            let mut n = text.clone(); n.replace_range(d.span.0..d.span.1, "");
            if syn::parse_file(&n).is_err() { break }
            files.insert(f.clone(), n);
        }
    }
    done
}
