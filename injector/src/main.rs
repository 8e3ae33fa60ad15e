//! Mechanical contract injection: copies a source tree and inserts Verus attributes, ghost blocks and
//! ghost items taken from sidecar contract files. Nothing in the executable code is changed except by
//! the rewrites counted in the report (`rewrites`): removal of `#[cfg(test)]`/`#[test]` items, naming of
//! ignored closure parameters, `*assert_eq!(a, b)` -> `*assert!((a) == (b))`, desugaring of `for` loops
//! (only where a contract asks for it), and the textual `rewrite` directives of the contract files.
mod inline;
mod names;
use proc_macro2::Span;
use std::collections::BTreeMap;
use std::path::Path;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

#[derive(Default, Clone)]
struct LoopC { kind: String, desugar: bool, plain: bool, attr: String, start: String, end: String, after: String }
#[derive(Default, Clone)]
struct FnC { attr: String, props: Vec<String>, start: String, loops: BTreeMap<usize, LoopC>, at: Vec<(String, String)>, rewrites: Vec<(String, String)>, splits: Vec<(String, Vec<String>, String)>, lift: Option<String> }
impl FnC {
    fn texts(&mut self) -> Vec<&mut String> {
        let mut all: Vec<&mut String> = vec![&mut self.attr, &mut self.start];
        for l in self.loops.values_mut() { all.extend([&mut l.attr, &mut l.start, &mut l.end, &mut l.after]); }
        for (x, y) in self.at.iter_mut().chain(self.rewrites.iter_mut()) { all.push(x); all.push(y); }
        for x in &mut self.splits { all.push(&mut x.2); }
        all
    }
}
#[derive(Default)]
struct FileC { tail: String, dropped: String, fns: BTreeMap<String, FnC>, types: BTreeMap<String, String>, consts: BTreeMap<String, String>, impls: BTreeMap<String, String>, unverified: BTreeMap<String, String>, rewrites: Vec<(String, String)>, copies: Vec<(String, String, String)>, copyfns: BTreeMap<String, FnC>, copyprops: BTreeMap<String, Vec<String>> }

impl FileC {
    fn getfn(&mut self, n: &str) -> &mut FnC { if n.starts_with("copy:") { self.copyfns.get_mut(n) } else { self.fns.get_mut(n) }.unwrap_or_else(|| panic!("directive outside fn {n}")) }
}
fn parse_contracts(dir: &Path, only: Option<&str>) -> BTreeMap<String, FileC> {
    let mut out: BTreeMap<String, FileC> = BTreeMap::new();
    let mut paths: Vec<_> = std::fs::read_dir(dir).unwrap().map(|e| e.unwrap().path()).filter(|p| p.extension().map_or(false, |e| e == "vc")).collect();
    paths.sort();
    for p in paths {
        let text = std::fs::read_to_string(&p).unwrap();
        let mut file = String::new();
        let mut dst: Option<(u8, String, usize)> = None; // which field collects text
        for line in text.lines() {
            if let Some(d) = line.strip_prefix("//// ") {
                let (cmd, rest) = d.split_once(' ').unwrap_or((d, ""));
                let rest = rest.trim();
                let fc = out.entry(file.clone()).or_default();
                let curfn = match &dst { Some((k, n, _)) if matches!(k, b'f' | b's' | b'l' | b'L' | b'E' | b'A' | b'a' | b'C') => n.clone(), _ => String::new() };
                match cmd {
                    "file" => { file = rest.to_string(); dst = None; }
                    // lemmas and compositions only some properties need
                    "tail" => dst = match rest.strip_prefix("props=") { Some(pr) if only.map_or(false, |o| !pr.split(',').any(|x| x == o)) => Some((b'x', String::new(), 0)), _ => Some((b't', String::new(), 0)) },
                    "type" => { fc.types.insert(rest.into(), String::new()); dst = Some((b'y', rest.into(), 0)); }
                    "impl" => { fc.impls.insert(rest.into(), String::new()); dst = Some((b'i', rest.into(), 0)); }
                    "const" => { fc.consts.insert(rest.into(), String::new()); dst = Some((b'c', rest.into(), 0)); }
                    "unverified" => { let (n, r) = rest.split_once(" -- ").unwrap_or((rest, "")); fc.unverified.insert(n.trim().into(), r.into()); dst = None; }
                    "fn" => {
                        let (n, pr) = rest.split_once(" props=").unwrap_or((rest, ""));
                        let f = FnC { props: pr.split(',').filter(|s| !s.is_empty()).map(|s| s.trim().to_string()).collect(), ..Default::default() };
                        if fc.fns.insert(n.trim().into(), f).is_some() { panic!("duplicate contract for {n}"); }
                        dst = Some((b'f', n.trim().into(), 0));
                    }
                    "start" => dst = Some((b's', curfn, 0)),
                    "loop" | "loopstart" | "loopend" | "afterloop" => {
                        let mut it = rest.split_whitespace();
                        let n: usize = it.next().unwrap().parse().unwrap();
                        let l = fc.getfn(&curfn).loops.entry(n).or_default();
                        if cmd == "loop" {
                            l.kind = it.next().unwrap_or("").into();
                            l.desugar = it.next() == Some("desugar");
                            // the iterated expression is the iterator itself
                            l.plain = it.next() == Some("plain");
                            dst = Some((b'l', curfn, n));
                        } else if cmd == "loopstart" { dst = Some((b'L', curfn, n)); } else if cmd == "loopend" { dst = Some((b'E', curfn, n)); } else { dst = Some((b'A', curfn, n)); }
                    }
                    "at" => {
                        let f = fc.getfn(&curfn);
                        f.at.push((rest.into(), String::new()));
                        let n = f.at.len() - 1;
                        dst = Some((b'a', curfn, n));
                    }
                    // verify the function once per case: `split NAME PROPS => EXPR` (EXPR replaces @CASE@ in the contract)
                    "split" => {
                        let (a, e) = rest.split_once(" => ").unwrap();
                        let (n, pr) = a.trim().split_once(' ').unwrap_or((a.trim(), ""));
                        fc.getfn(&curfn).splits.push((n.into(), pr.split(',').filter(|s| !s.is_empty()).map(|s| s.trim().to_string()).collect(), e.trim().into()));
                    }
                    "rewrite" => {
                        let (a, b) = rest.split_once(" => ").unwrap_or_else(|| panic!("bad rewrite {rest}"));
                        if curfn.is_empty() { fc.rewrites.push((a.trim().into(), b.trim().into())); }
                        else { fc.getfn(&curfn).rewrites.push((a.trim().into(), b.trim().into())); }
                    }
                    // copy the body of a function under another signature (e.g. Drop::drop)
                    "copybody" => {
                        let (a, b) = rest.split_once(" => ").unwrap();
                        let (a, pr) = a.split_once(" props=").unwrap_or((a, ""));
                        fc.copyprops.insert(a.trim().into(), pr.split(',').filter(|s| !s.is_empty()).map(|s| s.trim().to_string()).collect());
                        fc.copies.push((a.trim().into(), b.trim().into(), String::new()));
                        let n = fc.copies.len() - 1;
                        // annotations of the copied body are kept under the name `copy:PATH`
                        let key = format!("copy:{}", a.trim());
                        fc.copyfns.insert(key.clone(), FnC::default());
                        dst = Some((b'C', key, n));
                    }
                    // replace the closure this function passes by `&mut` by another expression; its body is verified by a `copybody` of `PATH::{closure}`
                    "lift" => fc.getfn(&curfn).lift = Some(rest.into()),
                    "note" => {}
                    _ => panic!("unknown directive {d} in {p:?}"),
                }
                continue;
            }
            let fc = out.entry(file.clone()).or_default();
            if let Some((k, n, i)) = &dst {
                let s = match k {
                    b't' => &mut fc.tail,
                    b'x' => &mut fc.dropped,
                    b'y' => fc.types.get_mut(n).unwrap(),
                    b'i' => fc.impls.get_mut(n).unwrap(),
                    b'c' => fc.consts.get_mut(n).unwrap(),
                    b'f' => &mut fc.getfn(n).attr,
                    b's' => &mut fc.getfn(n).start,
                    b'l' => &mut fc.getfn(n).loops.get_mut(i).unwrap().attr,
                    b'E' => &mut fc.getfn(n).loops.get_mut(i).unwrap().end,
                    b'L' => &mut fc.getfn(n).loops.get_mut(i).unwrap().start,
                    b'A' => &mut fc.getfn(n).loops.get_mut(i).unwrap().after,
                    b'a' => &mut fc.getfn(n).at[*i].1,
                    b'C' => &mut fc.copies[*i].2,
                    _ => unreachable!(),
                };
                s.push_str(line); s.push('\n');
            } else if !line.trim().is_empty() && !line.starts_with("//") {
                panic!("stray text in {p:?}: {line}");
            }
        }
    }
    out
}

#[derive(Clone, Debug)]
struct Edit { pos: usize, del: usize, text: String, ord: usize }

/// position of `needle` in `hay`, white space ignored
fn find_ws(hay: &str, needle: &str) -> Option<usize> {
    let n: Vec<char> = needle.chars().filter(|c| !c.is_whitespace()).collect();
    let h: Vec<(usize, char)> = hay.char_indices().filter(|c| !c.1.is_whitespace()).collect();
    (0..h.len().saturating_sub(n.len()) + 1).find(|&i| i + n.len() <= h.len() && (0..n.len()).all(|j| h[i + j].1 == n[j])).map(|i| h[i].0)
}
fn norm(s: &str) -> String {
    // whitespace-insensitive form of a piece of source
    let mut o = String::new();
    for c in s.chars() { if !c.is_whitespace() { o.push(c) } }
    o
}

/// `&ident` sub-patterns of a pattern: (span of the reference pattern, identifier)
fn ref_idents(p: &syn::Pat, out: &mut Vec<((usize, usize), String)>) {
    match p {
        syn::Pat::Reference(r) if r.mutability.is_none() => if let syn::Pat::Ident(i) = &*r.pat { if i.by_ref.is_none() && i.mutability.is_none() { out.push((rng(r.span()), i.ident.to_string())); } },
        syn::Pat::Tuple(t) => for e in &t.elems { ref_idents(e, out) },
        syn::Pat::TupleStruct(t) => for e in &t.elems { ref_idents(e, out) },
        _ => {}
    }
}
fn self_tokens(ts: proc_macro2::TokenStream, out: &mut Vec<(usize, usize)>) {
    for t in ts { match t { proc_macro2::TokenTree::Ident(i) if i == "self" => out.push(rng(i.span())), proc_macro2::TokenTree::Group(g) => self_tokens(g.stream(), out), _ => {} } }
}

/// does the expression contain `return`, `?`, `break` or `continue` (which a closure body would keep to itself)?
fn has_control(e: &syn::Expr) -> bool {
    struct C(bool);
    impl<'a> Visit<'a> for C {
        fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) { self.0 = true }
        fn visit_expr_try(&mut self, _: &'a syn::ExprTry) { self.0 = true }
    }
    let mut c = C(false); c.visit_expr(e); c.0
}

/// names that stand for booleans everywhere in the crate: fields, functions, parameters and locals
#[derive(Default)]
struct Bools { yes: std::collections::BTreeSet<String>, no: std::collections::BTreeSet<String>, fns: std::collections::BTreeSet<String> }
impl<'a> Visit<'a> for Bools {
    fn visit_field(&mut self, f: &'a syn::Field) { if let Some(n) = &f.ident { if norm(&quote::ToTokens::to_token_stream(&f.ty).to_string()) == "bool" { self.yes.insert(n.to_string()); } else { self.no.insert(n.to_string()); } } }
    fn visit_pat_type(&mut self, p: &'a syn::PatType) { if let syn::Pat::Ident(i) = &*p.pat { if norm(&quote::ToTokens::to_token_stream(&p.ty).to_string()) == "bool" { self.yes.insert(i.ident.to_string()); } else { self.no.insert(i.ident.to_string()); } } visit::visit_pat_type(self, p) }
    fn visit_signature(&mut self, s: &'a syn::Signature) { if matches!(&s.output, syn::ReturnType::Type(_, t) if norm(&quote::ToTokens::to_token_stream(t).to_string()) == "bool") { self.fns.insert(s.ident.to_string()); } visit::visit_signature(self, s) }
    fn visit_local(&mut self, l: &'a syn::Local) { if let (syn::Pat::Ident(i), Some(e)) = (&l.pat, &l.init) { if self.is(&e.expr) { self.yes.insert(i.ident.to_string()); } else { self.no.insert(i.ident.to_string()); } } visit::visit_local(self, l) }
}
impl Bools {
    fn name(&self, n: &str) -> bool { self.yes.contains(n) && !self.no.contains(n) }
    fn is(&self, e: &syn::Expr) -> bool {
        match e {
            syn::Expr::Lit(l) => matches!(l.lit, syn::Lit::Bool(_)),
            syn::Expr::Paren(p) => self.is(&p.expr),
            syn::Expr::Unary(u) => match u.op { syn::UnOp::Not(_) | syn::UnOp::Deref(_) => self.is(&u.expr), _ => false },
            syn::Expr::Binary(b) => match b.op { syn::BinOp::Eq(_) | syn::BinOp::Ne(_) | syn::BinOp::Lt(_) | syn::BinOp::Le(_) | syn::BinOp::Gt(_) | syn::BinOp::Ge(_) | syn::BinOp::And(_) | syn::BinOp::Or(_) => true, syn::BinOp::BitAnd(_) | syn::BinOp::BitOr(_) | syn::BinOp::BitXor(_) => self.is(&b.left) || self.is(&b.right), _ => false },
            syn::Expr::Field(f) => matches!(&f.member, syn::Member::Named(n) if self.name(&n.to_string())),
            syn::Expr::Path(p) => p.path.get_ident().map_or(false, |i| self.name(&i.to_string())),
            syn::Expr::MethodCall(m) => { let n = m.method.to_string(); self.fns.contains(&n) || matches!(n.as_str(), "is_some" | "is_none" | "is_ok" | "is_err" | "is_empty" | "contains" | "contains_key" | "starts_with" | "ends_with") }
            syn::Expr::Call(c) => matches!(&*c.func, syn::Expr::Path(p) if self.fns.contains(&p.path.segments.last().unwrap().ident.to_string())),
            syn::Expr::Macro(m) => m.mac.path.is_ident("matches"),
            _ => false,
        }
    }
}
struct FnInfo { path: String, sig_start: usize, span: (usize, usize), body: (usize, usize), loops: Vec<LoopInfo>, stmts: Vec<(usize, usize)> }
struct LoopInfo { kind: &'static str, span: (usize, usize), pat: (usize, usize), expr: (usize, usize), body: (usize, usize), label_start: usize }

struct V<'a> {
    src: &'a str,
    impl_stack: Vec<String>,
    fns: Vec<FnInfo>,
    types: Vec<(String, usize)>,
    vis: Vec<(String, (usize, usize))>,
    consts: Vec<(String, usize)>,
    impls: Vec<(String, usize)>,
    removed: Vec<(usize, usize)>,
    closure_pats: Vec<(usize, usize)>,
    macros: Vec<(String, (usize, usize), String)>,
    refpats: Vec<((usize, usize), String, usize)>,
    bytestrs: Vec<((usize, usize), Vec<u8>)>,
    mutself: Vec<((usize, usize), Vec<(usize, usize)>)>,
    exprs: Vec<(&'static str, Vec<(usize, usize, String)>)>,
    cur: Option<usize>,
    closures: Vec<Clo>,
    bools: &'a Bools,
    plainconsts: Vec<(String, usize)>,
}
/// a closure passed as `&mut |p| BODY`
struct Clo { outer: String, span: (usize, usize), param: (usize, usize), forwards: Option<(usize, usize)> }
fn rng(s: Span) -> (usize, usize) { let r = s.byte_range(); (r.start, r.end) }
/// where a visibility is written (empty range before `next` if it is inherited)
fn vis_rng(v: &syn::Visibility, next: Span) -> (usize, usize) { match v { syn::Visibility::Inherited => { let n = rng(next).0; (n, n) } v => rng(v.span()) } }
fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| { let s = norm(&quote::ToTokens::to_token_stream(a).to_string()); s.contains("#[test]") || s.contains("#[cfg(test)]") })
}
fn cfg_off(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| norm(&quote::ToTokens::to_token_stream(a).to_string()) == "#[cfg(not(feature=\"raii_no_panic\"))]")
}
fn tyname(t: &syn::Type) -> String { let s = norm(&quote::ToTokens::to_token_stream(t).to_string()); match s.find('<') { Some(i) => s[..i].to_string(), None => s } }
impl<'a> V<'a> {
    fn add_fn(&mut self, name: String, attrs: &[syn::Attribute], whole: Span, body: &syn::Block) {
        let (s, e) = rng(whole);
        let after_attrs = attrs.iter().filter(|a| matches!(a.style, syn::AttrStyle::Outer)).map(|a| rng(a.span()).1).max().unwrap_or(s);
        let _ = after_attrs;
        let path = match self.impl_stack.last() { Some(p) => format!("{p}::{name}"), None => name };
        let b = rng(body.span());
        self.fns.push(FnInfo { path, sig_start: s, span: (s, e), body: b, loops: vec![], stmts: vec![] });
        let idx = self.fns.len() - 1;
        let prev = self.cur.replace(idx);
        visit::visit_block(self, body);
        self.cur = prev;
    }
    fn push_loop(&mut self, l: LoopInfo) { if let Some(i) = self.cur { self.fns[i].loops.push(l) } }
}
impl<'ast, 'a> Visit<'ast> for V<'a> {
    fn visit_item_fn(&mut self, i: &'ast syn::ItemFn) {
        if is_test(&i.attrs) { self.removed.push(rng(i.span())); return; }
        self.add_fn(i.sig.ident.to_string(), &i.attrs, i.span(), &i.block);
    }
    fn visit_item_mod(&mut self, i: &'ast syn::ItemMod) {
        if is_test(&i.attrs) { self.removed.push(rng(i.span())); return; }
        visit::visit_item_mod(self, i);
    }
    fn visit_item_impl(&mut self, i: &'ast syn::ItemImpl) {
        if is_test(&i.attrs) { self.removed.push(rng(i.span())); return; }
        let ty = tyname(&i.self_ty);
        let n = match &i.trait_ { Some((_, p, _)) => format!("<{} as {}>", ty, norm(&quote::ToTokens::to_token_stream(p).to_string())), None => ty };
        self.impls.push((n.clone(), rng(i.span()).0));
        self.impl_stack.push(n);
        for it in &i.items {
            if let syn::ImplItem::Fn(f) = it {
                if cfg_off(&f.attrs) { continue; }
                self.add_fn(f.sig.ident.to_string(), &f.attrs, f.span(), &f.block);
                if let Some(r) = f.sig.receiver() { if let (Some(m), None) = (&r.mutability, &r.reference) {
                    let mut t = vec![]; self_tokens(quote::ToTokens::to_token_stream(&f.block), &mut t);
                    self.mutself.push(((rng(m.span()).0, rng(f.block.span()).0), t));
                } }
            }
            if let syn::ImplItem::Const(c) = it { self.consts.push((format!("{}::{}", self.impl_stack.last().unwrap(), c.ident), rng(c.span()).0)); }
        }
        self.impl_stack.pop();
    }
    fn visit_item_struct(&mut self, i: &'ast syn::ItemStruct) {
        let n = i.ident.to_string();
        self.types.push((n.clone(), rng(i.span()).0));
        self.vis.push((n.clone(), vis_rng(&i.vis, i.struct_token.span())));
        for f in &i.fields { self.vis.push((n.clone(), vis_rng(&f.vis, f.ident.as_ref().map_or(f.ty.span(), |x| x.span())))); }
    }
    fn visit_item_enum(&mut self, i: &'ast syn::ItemEnum) {
        self.types.push((i.ident.to_string(), rng(i.span()).0));
        self.vis.push((i.ident.to_string(), vis_rng(&i.vis, i.enum_token.span())));
    }
    fn visit_item_trait(&mut self, i: &'ast syn::ItemTrait) {
        self.types.push((i.ident.to_string(), rng(i.span()).0));
        self.impl_stack.push(i.ident.to_string());
        for it in &i.items {
            if let syn::TraitItem::Fn(f) = it {
                let path = format!("{}::{}", i.ident, f.sig.ident);
                let (s, e) = rng(f.span());
                self.fns.push(FnInfo { path, sig_start: s, span: (s, e), body: (e, e), loops: vec![], stmts: vec![] });
            }
        }
        self.impl_stack.pop();
    }
    fn visit_item_const(&mut self, i: &'ast syn::ItemConst) { if matches!(norm(&quote::ToTokens::to_token_stream(&i.ty).to_string()).as_str(), "u8" | "u16" | "u32" | "u64" | "usize" | "i32" | "bool") { self.plainconsts.push((i.ident.to_string(), rng(i.span()).0)); } self.consts.push((i.ident.to_string(), rng(i.span()).0)); }
    fn visit_expr_lit(&mut self, i: &'ast syn::ExprLit) {
        if let syn::Lit::ByteStr(b) = &i.lit { self.bytestrs.push((rng(b.span()), b.value())); }
    }
    fn visit_stmt(&mut self, s: &'ast syn::Stmt) { if let Some(i) = self.cur { self.fns[i].stmts.push(rng(s.span())); } visit::visit_stmt(self, s) }
    fn visit_local(&mut self, i: &'ast syn::Local) {
        let mut v = vec![]; ref_idents(&i.pat, &mut v);
        if i.init.as_ref().map_or(false, |x| x.diverge.is_none()) { for (r, n) in v { self.refpats.push((r, n, rng(i.span()).1)); } }
        visit::visit_local(self, i);
    }
    fn visit_expr_if(&mut self, i: &'ast syn::ExprIf) {
        if let syn::Expr::Let(l) = &*i.cond { let mut v = vec![]; ref_idents(&l.pat, &mut v); for (r, n) in v { self.refpats.push((r, n, rng(i.then_branch.span()).0 + 1)); } }
        visit::visit_expr_if(self, i);
    }
    fn visit_expr_while(&mut self, i: &'ast syn::ExprWhile) {
        self.push_loop(LoopInfo { kind: "while", span: rng(i.span()), pat: (0, 0), expr: rng(i.cond.span()), body: rng(i.body.span()), label_start: rng(i.span()).0 });
        visit::visit_expr_while(self, i);
    }
    fn visit_expr_loop(&mut self, i: &'ast syn::ExprLoop) {
        self.push_loop(LoopInfo { kind: "loop", span: rng(i.span()), pat: (0, 0), expr: (0, 0), body: rng(i.body.span()), label_start: rng(i.span()).0 });
        visit::visit_expr_loop(self, i);
    }
    fn visit_expr_for_loop(&mut self, i: &'ast syn::ExprForLoop) {
        self.push_loop(LoopInfo { kind: "for", span: rng(i.span()), pat: rng(i.pat.span()), expr: rng(i.expr.span()), body: rng(i.body.span()), label_start: rng(i.span()).0 });
        visit::visit_expr_for_loop(self, i);
    }
    fn visit_expr_method_call(&mut self, i: &'ast syn::ExprMethodCall) {
        let m = i.method.to_string();
        let x = rng(i.receiver.span()); let w = rng(i.span());
        let a: Vec<&syn::Expr> = i.args.iter().collect();
        // closure arguments of Option/Result combinators: same evaluation, written as a match
        let clo = |e: &syn::Expr| -> Option<(Option<(usize, usize)>, (usize, usize))> {
            let syn::Expr::Closure(c) = e else { return None };
            if c.inputs.len() > 1 || has_control(&c.body) { return None }
            Some((c.inputs.first().map(|p| rng(p.span())), rng(c.body.span())))
        };
        let simple = |e: &syn::Expr| matches!(e, syn::Expr::Lit(_) | syn::Expr::Path(_));
        let e: Option<(&'static str, Vec<(usize, usize, String)>)> = match (m.as_str(), a.len()) {
            ("map_or", 2) if simple(a[0]) => { let d = rng(a[0].span()); clo(a[1]).and_then(|(p, b)| p.map(|p| ("Option::map_or written as match", vec![(x.0, 0, "(match ".into()), (x.1, d.0 - x.1, " { None => ".into()), (d.1, p.0 - d.1, ", Some(".into()), (p.1, b.0 - p.1, ") => ".into()), (b.1, w.1 - b.1, " })".into())]))) }
            ("and_then", 1) => clo(a[0]).and_then(|(p, b)| p.map(|p| ("Option::and_then written as match", vec![(x.0, 0, "(match ".into()), (x.1, p.0 - x.1, " { None => None, Some(".into()), (p.1, b.0 - p.1, ") => ".into()), (b.1, w.1 - b.1, " })".into())]))),
            ("is_some_and", 1) => clo(a[0]).and_then(|(p, b)| p.map(|p| ("Option::is_some_and written as match", vec![(x.0, 0, "(match ".into()), (x.1, p.0 - x.1, " { None => false, Some(".into()), (p.1, b.0 - p.1, ") => ".into()), (b.1, w.1 - b.1, " })".into())]))),
            ("is_none_or", 1) => clo(a[0]).and_then(|(p, b)| p.map(|p| ("Option::is_none_or written as match", vec![(x.0, 0, "(match ".into()), (x.1, p.0 - x.1, " { None => true, Some(".into()), (p.1, b.0 - p.1, ") => ".into()), (b.1, w.1 - b.1, " })".into())]))),
            ("filter", 1) if !matches!(&*i.receiver, syn::Expr::MethodCall(r) if r.method.to_string().contains("iter") || matches!(r.method.to_string().as_str(), "chunks" | "chunks_exact" | "bytes" | "map" | "enumerate" | "zip" | "copied" | "cloned" | "rev" | "skip" | "take")) => clo(a[0]).and_then(|(p, b)| p.map(|p| ("Option::filter written as match", vec![(x.0, 0, "(match ".into()), (x.1, p.0 - x.1, " { None => None, Some(__v) => { let __keep = { let ".into()), (p.1, b.0 - p.1, " = &__v; ".into()), (b.1, w.1 - b.1, " }; if __keep { Some(__v) } else { None } } })".into())]))),
            ("unwrap_or_else", 1) => clo(a[0]).and_then(|(p, b)| if p.is_some() { None } else { Some(("Option::unwrap_or_else written as match", vec![(x.0, 0, "(match ".into()), (x.1, b.0 - x.1, " { Some(__v) => __v, None => ".into()), (b.1, w.1 - b.1, " })".into())])) }),
            ("ok_or_else", 1) => clo(a[0]).and_then(|(p, b)| if p.is_some() { None } else { Some(("Option::ok_or_else written as match", vec![(x.0, 0, "(match ".into()), (x.1, b.0 - x.1, " { Some(__v) => Ok(__v), None => Err(".into()), (b.1, w.1 - b.1, ") })".into())])) }),
            ("map_err", 1) => clo(a[0]).and_then(|(p, b)| p.map(|p| ("Result::map_err written as match", vec![(x.0, 0, "(match ".into()), (x.1, p.0 - x.1, " { Ok(__v) => Ok(__v), Err(".into()), (p.1, b.0 - p.1, ") => Err(".into()), (b.1, w.1 - b.1, ") })".into())]))),
            ("expect", 1) if matches!(&*i.receiver, syn::Expr::MethodCall(r) if r.method == "try_reserve" || r.method == "try_reserve_exact") => Some(("try_reserve().expect() through a trusted wrapper", vec![(x.0, 0, "crate::vspec::reserved_or_abort(".into()), (x.1, w.1 - x.1, ")".into())])),
            _ => None,
        };
        if let Some(e) = e { self.exprs.push(e); }
        if matches!(m.as_str(), "extend_from_slice" | "try_reserve" | "try_reserve_exact" | "capacity") {
            let r = rng(i.method.span());
            self.exprs.push(("Vec::{extend_from_slice, try_reserve, try_reserve_exact, capacity} through a trait with capacity specifications", vec![(r.0, r.1 - r.0, format!("vx_{m}"))]));
        }
        visit::visit_expr_method_call(self, i);
    }
    fn visit_expr_field(&mut self, i: &'ast syn::ExprField) {
        // `E.into_vec(V).encode_all(D).consumed_out`: the result type of `encode_all` cannot be named outside weezl
        if let (syn::Member::Named(n), syn::Expr::MethodCall(enc)) = (&i.member, &*i.base) { if n == "consumed_out" && enc.method == "encode_all" && enc.args.len() == 1 {
            if let syn::Expr::MethodCall(iv) = &*enc.receiver { if iv.method == "into_vec" && iv.args.len() == 1 {
                let (e, v, d, w) = (rng(iv.receiver.span()), rng(iv.args[0].span()), rng(enc.args[0].span()), rng(i.span()));
                self.exprs.push(("weezl into_vec().encode_all().consumed_out through a trusted wrapper", vec![(e.0, 0, "crate::vspec::weezl_encode_all(&mut ".into()), (e.1, v.0 - e.1, ", ".into()), (v.1, d.0 - v.1, ", ".into()), (d.1, w.1 - d.1, ")".into())]));
            } }
        } }
        visit::visit_expr_field(self, i);
    }
    fn visit_expr_match(&mut self, i: &'ast syn::ExprMatch) {
        for a in &i.arms {
            if let (syn::Pat::Lit(l), None) = (&a.pat, &a.guard) { if let syn::Lit::ByteStr(_) = &l.lit {
                let r = rng(a.pat.span());
                self.exprs.push(("byte string pattern written as guard", vec![(r.0, 0, "__bs if crate::vspec::slice_eq(__bs, ".into()), (r.1, 0, ")".into())]));
            } }
        }
        visit::visit_expr_match(self, i);
    }
    fn visit_expr_binary(&mut self, i: &'ast syn::ExprBinary) {
        let bs = |e: &syn::Expr| matches!(e, syn::Expr::Lit(l) if matches!(l.lit, syn::Lit::ByteStr(_)));
        let some = |e: &syn::Expr| matches!(e, syn::Expr::Call(c) if norm(&quote::ToTokens::to_token_stream(&c.func).to_string()) == "Some");
        let (l, r) = (rng(i.left.span()), rng(i.right.span()));
        if matches!(i.op, syn::BinOp::Eq(_)) && (bs(&i.left) || bs(&i.right)) {
            self.exprs.push(("comparison with a byte string through slice_eq", vec![(l.0, 0, "crate::vspec::slice_eq(".into()), (l.1, r.0 - l.1, ", ".into()), (r.1, 0, ")".into())]));
        }
        if matches!(i.op, syn::BinOp::Lt(_)) && some(&i.right) {
            self.exprs.push(("`a < Some(b)` through opt_lt", vec![(l.0, 0, "crate::vspec::opt_lt(".into()), (l.1, r.0 - l.1, ", ".into()), (r.1, 0, ")".into())]));
        }
        // operators on booleans that Verus has only for integers: both sides are still evaluated, in order
        if self.bools.is(&i.left) || self.bools.is(&i.right) {
            let w = rng(i.span());
            let form = match i.op { syn::BinOp::BitOr(_) => Some(("||", false)), syn::BinOp::BitAnd(_) => Some(("&&", false)), syn::BinOp::BitXor(_) => Some(("!=", false)), syn::BinOp::BitOrAssign(_) => Some(("||", true)), syn::BinOp::BitAndAssign(_) => Some(("&&", true)), syn::BinOp::BitXorAssign(_) => Some(("!=", true)), _ => None };
            if let Some((op, assign)) = form {
                let lt = &self.src[l.0..l.1];
                self.exprs.push(("`|`, `&`, `^` of booleans", if assign { vec![(w.0, l.1 - w.0, "{ let __r = ".into()), (l.1, r.0 - l.1, String::new()), (r.1, 0, format!("; {lt} = {lt} {op} __r; }}"))] }
                    else { vec![(w.0, 0, "({ let __l = ".into()), (l.1, r.0 - l.1, "; let __r = ".into()), (r.1, 0, format!("; __l {op} __r }})"))] }));
            }
        }
        visit::visit_expr_binary(self, i);
    }
    fn visit_expr_call(&mut self, i: &'ast syn::ExprCall) {
        let f = norm(&quote::ToTokens::to_token_stream(&i.func).to_string());
        if (f == "io::Error::new" || f == "std::io::Error::new") && i.args.len() == 2 && matches!(&i.args[1], syn::Expr::Lit(_) | syn::Expr::Path(_)) {
            let (fr, k, w) = (rng(i.func.span()), rng(i.args[0].span()), rng(i.span()));
            self.exprs.push(("io::Error::new(kind, message) through a trusted wrapper without the message", vec![(fr.0, fr.1 - fr.0, "crate::vspec::io_error_new".into()), (k.1, w.1 - 1 - k.1, String::new())]));
        }
        if f == "u16::from_le_bytes" && i.args.len() == 1 {
            let (fr, w) = (rng(i.func.span()), rng(i.span()));
            let slice = match &i.args[0] {
                syn::Expr::MethodCall(u) if u.method == "unwrap" => match &*u.receiver { syn::Expr::MethodCall(t) if t.method == "try_into" => Some(rng(t.receiver.span())), _ => None },
                _ => None,
            };
            self.exprs.push(match slice {
                Some(x) => ("u16::from_le_bytes(x.try_into().unwrap()) through le_u16_from", vec![(fr.0, fr.1 - fr.0, "crate::vspec::le_u16_from".into()), (x.0, 0, "&".into()), (x.1, w.1 - 1 - x.1, String::new())]),
                None => ("u16::from_le_bytes through le_u16_of", vec![(fr.0, fr.1 - fr.0, "crate::vspec::le_u16_of".into())]),
            });
        }
        visit::visit_expr_call(self, i);
    }
    fn visit_expr_reference(&mut self, i: &'ast syn::ExprReference) {
        if let (true, syn::Expr::Closure(c), Some(cur)) = (i.mutability.is_some(), &*i.expr, self.cur) {
            if let (1, Some(syn::Pat::Ident(p))) = (c.inputs.len(), c.inputs.first()) {
                let inner = match &*c.body { syn::Expr::Block(b) => match &b.block.stmts[..] { [syn::Stmt::Expr(e, None)] => e, _ => &*c.body }, e => e };
                let forwards = match inner { syn::Expr::MethodCall(m) if m.method == "decode_next_bytes" && m.args.len() == 1 && matches!(&m.args[0], syn::Expr::Path(a) if a.path.is_ident(&p.ident)) => Some(rng(m.receiver.span())), _ => None };
                let outer = self.fns[cur].path.clone();
                self.closures.push(Clo { outer: outer.clone(), span: rng(c.span()), param: rng(p.span()), forwards });
                if let syn::Expr::Block(b) = &*c.body {
                    let body = rng(b.span());
                    self.fns.push(FnInfo { path: format!("{outer}::{{closure}}"), sig_start: body.0, span: body, body, loops: vec![], stmts: vec![] });
                    let idx = self.fns.len() - 1;
                    self.cur = Some(idx);
                    visit::visit_expr_closure(self, c);
                    self.cur = Some(cur);
                    return;
                }
            }
        }
        visit::visit_expr_reference(self, i);
    }
    fn visit_expr_closure(&mut self, i: &'ast syn::ExprClosure) {
        for (k, p) in i.inputs.iter().enumerate() {
            if let syn::Pat::Wild(w) = p { self.closure_pats.push(rng(w.span())); continue }
            let (pat, whole) = match p { syn::Pat::Type(t) => (&*t.pat, rng(t.pat.span())), p => (p, rng(p.span())) };
            let mut refs = vec![]; ref_idents(pat, &mut refs);
            let b = rng(i.body.span());
            match pat {
                syn::Pat::Reference(r) if refs.len() == 1 => { let n = &refs[0].1; let _ = r;
                    self.exprs.push(("closure parameter `&x` replaced by dereference", vec![(whole.0, whole.1 - whole.0, format!("__c{k}")), (b.0, 0, format!("{{ let {n} = *__c{k}; ")), (b.1, 0, " }".into())])); }
                syn::Pat::Tuple(_) if refs.is_empty() => {
                    let t = self.src[whole.0..whole.1].to_string();
                    self.exprs.push(("closure parameter pattern bound in the body", vec![(whole.0, whole.1 - whole.0, format!("__c{k}")), (b.0, 0, format!("{{ let {t} = __c{k}; ")), (b.1, 0, " }".into())])); }
                _ => {}
            }
        }
        visit::visit_expr_closure(self, i);
    }
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        let name = m.path.segments.last().unwrap().ident.to_string();
        let full = rng(m.span());
        let toks = m.tokens.clone();
        let mut it = toks.into_iter();
        let (mut a, mut b): (Option<(usize, usize)>, Option<(usize, usize)>) = (None, None);
        let mut n = 0;
        let mut first: Option<usize> = None; let mut last = 0;
        let mut fin = |first: &mut Option<usize>, last: usize, n: usize| { if let Some(f) = first.take() { if n == 0 { a = Some((f, last)) } else if n == 1 { b = Some((f, last)) } } };
        while let Some(t) = it.next() {
            if let proc_macro2::TokenTree::Punct(p) = &t { if p.as_char() == ',' { fin(&mut first, last, n); n += 1; continue; } }
            let r = rng(t.span()); if first.is_none() { first = Some(r.0) } last = r.1;
        }
        fin(&mut first, last, n);
        if matches!(name.as_str(), "debug_assert_eq" | "assert_eq") {
            if let (Some(a), Some(b)) = (a, b) {
                self.macros.push((name, full, format!("({}) == ({})", &self.src[a.0..a.1], &self.src[b.0..b.1])));
            }
        } else if matches!(name.as_str(), "assert" | "debug_assert") && n >= 1 {
            if let Some(a) = a { self.macros.push((name, full, self.src[a.0..a.1].to_string())); }
        }
    }
}

fn line_of(s: &str, pos: usize) -> usize { s[..pos].matches('\n').count() + 1 }

fn ins(edits: &mut Vec<Edit>, pos: usize, del: usize, text: String) { let ord = edits.len() + 1; edits.push(Edit { pos, del, text, ord }); }
/// `text[a..b]` with the edits that fall into it applied
fn applied(text: &str, a: usize, b: usize, edits: &[Edit]) -> String {
    let mut l: Vec<&Edit> = edits.iter().filter(|e| a <= e.pos && e.pos + e.del <= b).collect();
    l.sort_by_key(|e| (e.pos, e.del > 0, e.ord));
    let (mut at, mut o) = (a, String::new());
    for e in l { o.push_str(&text[at..e.pos]); o.push_str(&e.text); at = e.pos + e.del; }
    o.push_str(&text[at..b]);
    o
}
/// loop contracts, ghost blocks and rewrites of one function
/// the unlabelled `continue`s of a loop
struct Continues(Vec<(usize, usize)>);
impl<'a> Visit<'a> for Continues {
    fn visit_expr_continue(&mut self, i: &'a syn::ExprContinue) { if i.label.is_none() { self.0.push(rng(i.span())) } }
    fn visit_expr_while(&mut self, _: &'a syn::ExprWhile) {}
    fn visit_expr_loop(&mut self, _: &'a syn::ExprLoop) {}
    fn visit_expr_for_loop(&mut self, _: &'a syn::ExprForLoop) {}
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
    fn visit_item(&mut self, _: &'a syn::Item) {}
}
fn annotate(f: &str, text: &str, info: &FnInfo, c: &FnC, degraded: bool, edits: &mut Vec<Edit>, rewrites: &mut BTreeMap<String, usize>, loop_mismatch: &mut Vec<String>, lost: &mut Vec<String>) {
    let has_body = info.body.0 < info.body.1;
            let kinds: Vec<&str> = info.loops.iter().map(|l| l.kind).collect();
            let want: Vec<String> = c.loops.values().map(|l| l.kind.clone()).collect();
            if degraded {
            } else if has_body && kinds.iter().map(|s| s.to_string()).collect::<Vec<_>>() != want {
                loop_mismatch.push(format!("{f}: {}: loops {kinds:?}, contract {want:?}", info.path));
            } else {
                for (i, l) in info.loops.iter().enumerate() {
                    let lc = &c.loops[&i];
                    if !lc.end.trim().is_empty() {
                        ins(edits, l.body.1 - 1, 0, format!("\n{}", lc.end));
                        // the end of an iteration is also where it is left early
                        let mut k = Continues(vec![]);
                        if let Ok(b) = syn::parse_str::<syn::Block>(&text[l.body.0..l.body.1]) { k.visit_block(&b); }
                        for r in k.0 { ins(edits, l.body.0 + r.0, 0, format!("{{ {}\n", lc.end)); ins(edits, l.body.0 + r.1, 0, " }".into()); }
                    }
                    if lc.desugar && l.kind == "for" {
                        *rewrites.entry("`for` loop desugared to `loop` over Iterator::next".into()).or_default() += 1;
                        let mut it = format!("__it{i}");
                        let etext = norm(&text[l.expr.0..l.expr.1]);
                        let by_ref = etext.strip_suffix(".by_ref()").filter(|p| p.chars().all(|c| c.is_alphanumeric() || c == '_'));
                        if let Some(p) = by_ref {
                            // `for x in it.by_ref()` only calls `it.next()`
                            it = p.to_string();
                            ins(edits, l.span.0, l.expr.0 - l.span.0, "{ let _ = (".into());
                            ins(edits, l.expr.0, l.expr.1 - l.expr.0, String::new());
                        } else {
                            ins(edits, l.span.0, l.expr.0 - l.span.0, format!("{{ let mut {it} = {}(", if lc.plain { "" } else { "::core::iter::IntoIterator::into_iter" }));
                        }
                        let pat = &text[l.pat.0..l.pat.1];
                        let (pat, post) = match pat.strip_prefix('&') { Some(p) if p.chars().all(|c| c.is_alphanumeric() || c == '_') => (p.to_string(), format!(" let {p} = *{p};")), _ => (pat.to_string(), String::new()) };
                        ins(edits, l.expr.1, 0, format!(");\n{}\nloop {{ let {pat} = match {it}.next() {{ Some(__x) => __x, None => {{ break; }} }};{post}\n{}", lc.attr, lc.start));
                        ins(edits, l.body.1, 0, format!(" }} }}\n{}", lc.after));
                    } else {
                        if l.kind == "for" { if let Some(p) = text[l.pat.0..l.pat.1].strip_prefix('&').filter(|p| p.chars().all(|c| c.is_alphanumeric() || c == '_')) {
                            ins(edits, l.pat.0, l.pat.1 - l.pat.0, p.to_string()); ins(edits, l.body.0 + 1, 0, format!(" let {p} = *{p}; "));
                            *rewrites.entry("`&x` pattern replaced by dereference".into()).or_default() += 1;
                        } }
                        if !lc.attr.trim().is_empty() { ins(edits, l.label_start, 0, format!("\n{}", lc.attr)); }
                        if !lc.after.trim().is_empty() { ins(edits, l.span.1, 0, format!("\n{}", lc.after)); }
                        if !lc.start.trim().is_empty() { ins(edits, l.body.0 + 1, 0, format!("\n{}", lc.start)); }
                    }
                }
            }
            let fntext = &text[info.span.0..info.span.1];
            for (needle, t) in c.at.iter().filter(|_| !degraded) {
                // before (`at`) or behind (`after`) the innermost statement in which one of the texts begins
                let (after, alts) = match needle.strip_prefix("after:") { Some(n) => (true, n), None => (false, needle.as_str()) };
                match alts.split(" || ").find_map(|n| find_ws(&text[info.body.0..info.body.1], n)) {
                    Some(o) => {
                        let p = info.body.0 + o;
                        let s = info.stmts.iter().filter(|s| s.0 <= p && p < s.1).max_by_key(|s| s.0);
                        let p = match s { Some(s) => if after { s.1 } else { s.0 }, None => p };
                        ins(edits, p, 0, format!("{}{}\n", if after { "\n" } else { "" }, t.trim_end()))
                    }
                    None => lost.push(format!("{f}: {}: at `{needle}`", info.path)),
                }
            }
            for (a, b) in &c.rewrites {
                let mut n = 0; let mut o = 0;
                if let Some(id) = a.strip_prefix("ident:") {
                    // every use of a variable
                    let w = |c: Option<char>| c.map_or(false, |c| c.is_alphanumeric() || c == '_');
                    while let Some(i) = fntext[o..].find(id) {
                        let p = o + i; o = p + id.len();
                        let before = fntext[..p].chars().next_back();
                        if !w(before) && before != Some('.') && !w(fntext[o..].chars().next()) { ins(edits, info.span.0 + p, id.len(), b.clone()); n += 1; }
                    }
                }
                while let Some(i) = fntext[o..].find(a.as_str()) { ins(edits, info.span.0 + o + i, a.len(), b.clone()); o += i + a.len(); n += 1; }
                if n == 0 { if !degraded { lost.push(format!("{f}: {}: rewrite `{a}`", info.path)); } } else { *rewrites.entry(format!("{f}: {}: `{a}` => `{b}`", info.path)).or_default() += n; }
            }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let (src, contracts, out, report) = (Path::new(&args[1]), Path::new(&args[2]), Path::new(&args[3]), &args[4]);
    let canary = args.iter().skip(5).any(|a| a == "--canary");
    let degrade: std::collections::BTreeSet<String> = args.iter().skip(5).filter_map(|a| a.strip_prefix("--degrade=")).flat_map(|a| a.split(';')).map(String::from).collect();
    // functions a property does not depend on keep their contract but are not verified in this run
    let only: Option<String> = args.iter().skip(5).find_map(|a| a.strip_prefix("--only=")).map(String::from);
    let tagged = |t: &str, p: &str| t.split("/*").skip(1).any(|x| x.split("*/").next().map_or(false, |x| x.split(',').any(|y| y == p)));
    let wants = |c: &FnC| -> bool { match &only { None => true, Some(p) => c.props.contains(p) || c.splits.iter().any(|s| s.1.contains(p)) || (c.splits.is_empty() && (tagged(&c.attr, p) || c.loops.values().any(|l| tagged(&l.attr, p)))) } };
    let mut cs = parse_contracts(contracts, only.as_deref());
    let mut files = vec![];
    fn walk(d: &Path, base: &Path, v: &mut Vec<String>) {
        for e in std::fs::read_dir(d).unwrap() { let p = e.unwrap().path(); if p.is_dir() { walk(&p, base, v) } else if p.extension().map_or(false, |e| e == "rs") { v.push(p.strip_prefix(base).unwrap().to_str().unwrap().into()) } }
    }
    walk(src, src, &mut files);
    files.sort();
    let mut rep_fns = vec![]; let mut missing = vec![]; let mut unknown = vec![]; let mut unverified = vec![]; let mut lost = vec![];
    let mut rewrites: BTreeMap<String, usize> = BTreeMap::new();
    let mut loop_mismatch = vec![];
    let mut texts: BTreeMap<String, String> = files.iter().map(|f| (f.clone(), std::fs::read_to_string(src.join(f)).unwrap())).collect();
    let mut inlined = vec![];
    if !args.iter().any(|a| a == "--no-inline") {
        let known = |f: &str, p: &str| cs.get(f).map_or(true, |c| c.fns.contains_key(p) || c.unverified.contains_key(p) || c.copies.iter().any(|x| x.0 == p));
        inlined = inline::inline(&mut texts, &known);
        for i in &inlined { *rewrites.entry(format!("helper without a contract put back into its caller: {i}")).or_default() += 1; }
    }
    let recorded = names::read(&contracts.join("names.txt"));
    let mut bound = vec![];
    let mut bools = Bools::default();
    for t in texts.values() { if let Ok(a) = syn::parse_file(t) { bools.visit_file(&a); } }
    for f in &files {
        let mut text = texts[f].clone();
        let mut fc = cs.remove(f).unwrap_or_default();
        for (a, b) in &fc.rewrites {
            let c = text.matches(a.as_str()).count();
            if c == 0 { lost.push(format!("{f}: rewrite `{a}`")); } else { text = text.replace(a.as_str(), b); *rewrites.entry(format!("{f}: `{a}` => `{b}`")).or_default() += c; }
        }
        let ast = match syn::parse_file(&text) { Ok(a) => a, Err(e) => { eprintln!("parse error in {f}: {e}"); std::process::exit(3) } };
        let mut v = V { src: &text, impl_stack: vec![], fns: vec![], types: vec![], vis: vec![], consts: vec![], impls: vec![], removed: vec![], closure_pats: vec![], macros: vec![], refpats: vec![], bytestrs: vec![], mutself: vec![], exprs: vec![], cur: None, closures: vec![], bools: &bools, plainconsts: vec![] };
        v.visit_file(&ast);
        for i in &v.fns {
            let (Some(c), Some(new)) = (fc.fns.get_mut(&i.path), names::of(&text[i.span.0..i.span.1])) else { continue };
            bound.push(format!("{f}|{}|{}", i.path, new.join(" ")));
            let Some(old) = recorded.get(&(f.clone(), i.path.clone())) else { continue };
            let mut all = c.texts();
            // the closure of this function that is verified as a method
            let clo = format!("copy:{}::{{closure}}", i.path);
            if let Some(c) = fc.copyfns.get_mut(&clo) { all.extend(c.texts()); }
            let mut map = names::renamed(old, &new);
            if map.iter().any(|m| all.iter().any(|t| names::mentions(t, &m.1))) { continue }
            map.retain(|m| all.iter().any(|t| names::mentions(t, &m.0)));
            if map.is_empty() { continue }
            for t in all { names::apply(t, &map); }
            *rewrites.entry(format!("{f}: contract of {} follows the names {}", i.path, map.iter().map(|m| format!("{} -> {}", m.0, m.1)).collect::<Vec<_>>().join(", "))).or_default() += 1;
        }
        let mut edits: Vec<Edit> = vec![];
        for r in &v.removed { ins(&mut edits, r.0, r.1 - r.0, String::new()); *rewrites.entry("test items dropped".into()).or_default() += 1; }
        for r in &v.closure_pats { ins(&mut edits, r.0, 1, "_e".into()); *rewrites.entry("closure parameter `_` named".into()).or_default() += 1; }
        for (r, b) in &v.bytestrs { let l: Vec<String> = b.iter().map(|x| format!("{x}u8")).collect(); ins(&mut edits, r.0, r.1 - r.0, format!("&[{}]", l.join(", "))); *rewrites.entry("byte string literal written as array".into()).or_default() += 1; }
        for (r, n, p) in &v.refpats { ins(&mut edits, r.0, r.1 - r.0, n.clone()); ins(&mut edits, *p, 0, format!(" let {n} = *{n}; ")); *rewrites.entry("`&x` pattern replaced by dereference".into()).or_default() += 1; }
        for ((m, b), toks) in &v.mutself {
            ins(&mut edits, *m, 3, String::new()); ins(&mut edits, *b + 1, 0, " let mut __self = self; ".into());
            for t in toks { ins(&mut edits, t.0, 4, "__self".into()); }
            *rewrites.entry("`mut self` rebound to a local".into()).or_default() += 1;
        }
        for (n, r, t) in &v.macros { ins(&mut edits, r.0, r.1 - r.0, if n.starts_with("debug") { format!("{}!({})", n.trim_end_matches("_eq"), t) } else { format!("crate::vspec::vx_must({t})") }); *rewrites.entry(if n.starts_with("debug") { "debug_assert message dropped / debug_assert_eq! => debug_assert!(a == b)" } else { "assert!/assert_eq! passed to vx_must (panics unless the condition holds), message dropped" }.into()).or_default() += 1; }
        for (n, es) in &v.exprs { for (p, d, t) in es { ins(&mut edits, *p, *d, t.clone()); } *rewrites.entry((*n).into()).or_default() += 1; }
        for c in &v.closures {
            if let Some(r) = c.forwards { ins(&mut edits, c.span.0, c.span.1 - c.span.0, text[r.0..r.1].to_string()); *rewrites.entry("closure `|p| E.decode_next_bytes(p)` passed as its receiver `E`".into()).or_default() += 1; }
            else if let Some(l) = fc.fns.get(&c.outer).and_then(|x| x.lift.clone()) { ins(&mut edits, c.span.0, c.span.1 - c.span.0, l.clone()); *rewrites.entry(format!("{f}: closure in {} passed as `{l}`; its body verified as a method", c.outer)).or_default() += 1; }
            else { ins(&mut edits, c.param.1, 0, ": &mut OutputBuffer<'_>".into()); }
        }
        for (n, a) in &fc.types { match v.types.iter().find(|t| &t.0 == n) { Some(t) => ins(&mut edits, t.1, 0, if a.replace("/*pub*/", "").trim().is_empty() { "#[verus_verify] ".into() } else { format!("{} ", a.trim_end()) }), None => missing.push(format!("{f}: type {n}")) } }
        for (n, r) in &v.vis { if fc.types.get(n).map_or(false, |a| a.contains("/*pub*/")) { ins(&mut edits, r.0, r.1 - r.0, "pub ".into()); *rewrites.entry("visibility of types and fields widened to `pub`".into()).or_default() += 1; } }
        for (n, a) in &fc.impls { match v.impls.iter().find(|t| &t.0 == n) { Some(t) => ins(&mut edits, t.1, 0, if a.trim().is_empty() { "#[verus_verify] ".into() } else { format!("{} ", a.trim_end()) }), None => missing.push(format!("{f}: impl {n}")) } }
        for (n, a) in &fc.consts { match v.consts.iter().find(|t| &t.0 == n) { Some(t) => ins(&mut edits, t.1, 0, if a.trim().is_empty() { "#[verus_verify] ".into() } else { format!("{} ", a.trim_end()) }), None => missing.push(format!("{f}: const {n}")) } }
        for (n, pos) in &v.plainconsts { if !fc.consts.contains_key(n) { ins(&mut edits, *pos, 0, "#[verus_verify] ".into()); } }
        for (n, pos) in &v.impls {
            let pre = format!("{n}::");
            if !fc.impls.contains_key(n) && fc.fns.keys().any(|k| k.starts_with(&pre)) && v.fns.iter().any(|i| i.span.0 >= *pos && fc.fns.contains_key(&i.path) && i.path.starts_with(&pre)) { ins(&mut edits, *pos, 0, "#[verus_verify] ".into()); }
        }
        let mut marks = vec![]; let mut splits: Vec<(String, usize, usize, Vec<(String, Vec<String>, String)>)> = vec![];
        let mut extra = String::new();
        let mut copied: Vec<(String, usize)> = vec![];
        let mut found = std::collections::BTreeSet::new();
        for (from, newsig, attr) in &fc.copies {
            match v.fns.iter().find(|i| &i.path == from) {
                Some(i) => { *rewrites.entry(format!("{f}: body of {from} verified as `{newsig}`")).or_default() += 1; copied.push((from.clone(), line_of(&text, i.span.0))); found.insert(from.clone()); extra.push_str("//@copy\n"); let off = degrade.contains(from) || only.as_ref().map_or(false, |p| !fc.copyprops.get(from).map_or(false, |v| v.contains(p)) && !tagged(attr, p));
                    let attr = if !off { attr.clone() } else if attr.contains("#[verus_spec") { attr.replacen("#[verus_spec", "#[verus_verify(external_body)] #[verus_spec", 1) } else { attr.replace("@BODY@", "#[verus_verify(external_body)] @BODY@") };
                    let mut local: Vec<Edit> = edits.iter().filter(|e| i.body.0 < e.pos && e.pos < i.body.1).cloned().collect();
                    let c = &fc.copyfns[&format!("copy:{from}")];
                    annotate(f, &text, i, c, off, &mut local, &mut rewrites, &mut loop_mismatch, &mut lost);
                    if !c.start.trim().is_empty() && !off { ins(&mut local, i.body.0 + 1, 0, format!("\n{}", c.start)); }
                    let pn = v.closures.iter().find(|c| i.body.0 >= c.span.0 && i.body.1 <= c.span.1).map_or("_p", |c| &text[c.param.0..c.param.1]);
                    extra.push_str(&attr.replace("@BODY@", &format!("{newsig} {}", if off { "{ ::core::unimplemented!() }".into() } else { applied(&text, i.body.0, i.body.1, &local) })).replace("@P@", pn)); }
                None => missing.push(format!("{f}: fn {from} (copy)")),
            }
        }
        for info in &v.fns {
            let Some(c) = fc.fns.get(&info.path) else {
                if let Some(r) = fc.unverified.get(&info.path) { unverified.push(serde_json::json!({"file": f, "fn": info.path, "reason": r})); found.insert(info.path.clone()); }
                else if fc.copies.iter().any(|c| c.0 == info.path) || info.path.ends_with("{closure}") {}
                else { unknown.push(format!("{f}: {}", info.path)); }
                let ip = info.path.rsplit_once("::").map_or("", |x| x.0);
                let in_annotated = fc.impls.contains_key(ip) || fc.fns.keys().any(|k| k.starts_with(&format!("{ip}::")) && v.fns.iter().any(|i| &i.path == k));
                if !info.path.ends_with("{closure}") && !ip.is_empty() && in_annotated && info.body.0 < info.body.1 { ins(&mut edits, info.sig_start, 0, "#[verus_verify(external)]\n".into()); }
                continue;
            };
            found.insert(info.path.clone());
            let mut attr = if c.attr.trim().is_empty() { "#[verus_verify]\n".to_string() } else { c.attr.clone() };
            let degraded = degrade.contains(&info.path) || !wants(c) && info.body.0 < info.body.1;
            if degraded { attr = attr.lines().filter(|l| !l.contains("@COPY@")).map(|l| format!("{}\n", l.replace("@CASE@", "true"))).collect(); }
            if degraded { attr = if c.attr.trim().is_empty() { "#[verus_verify(external_body)]\n".into() } else { format!("#[verus_verify(external_body)]\n{attr}") }; }
            ins(&mut edits, info.sig_start, 0, attr.trim_end().to_string() + "\n");
            let has_body = info.body.0 < info.body.1;
            if !c.start.trim().is_empty() && has_body && !degraded { ins(&mut edits, info.body.0 + 1, 0, format!("\n{}", c.start)); }
            if canary && has_body && !attr.contains("external_body") { ins(&mut edits, info.body.0 + 1, 0, "\nproof!{ assert(false); }\n".into()); }
            annotate(f, &text, info, c, degraded, &mut edits, &mut rewrites, &mut loop_mismatch, &mut lost);
            // a body that is not verified in this run is not looked at either
            if degraded && has_body && !text[info.span.0..info.body.0].contains("-> impl") { ins(&mut edits, info.body.0, info.body.1 - info.body.0, "{ ::core::unimplemented!() }".into()); }
            marks.push((info.path.clone(), info.sig_start, info.span.1, c.props.clone(), has_body, attr.contains("external_body") || !c.splits.is_empty()));
            if !c.splits.is_empty() && !degraded { splits.push((info.path.clone(), info.sig_start, info.span.1, c.splits.clone())); }
        }
        for n in fc.fns.keys().chain(fc.unverified.keys()) { if !found.contains(n) { missing.push(format!("{f}: fn {n}")); } }
        // apply
        edits.sort_by_key(|e| (e.pos, e.del > 0, e.ord));
        let mut outt = String::new(); let mut map: Vec<(usize, usize)> = vec![]; // (src pos, out pos)
        let mut at = 0;
        for e in &edits {
            if e.pos < at { if e.del == 0 && e.text.is_empty() { continue; } continue; }
            map.push((at, outt.len()));
            outt.push_str(&text[at..e.pos]);
            map.push((e.pos, outt.len()));
            outt.push_str(&e.text);
            at = e.pos + e.del;
        }
        map.push((at, outt.len()));
        outt.push_str(&text[at..]);
        let tr = |p: usize| -> usize { let m = map.iter().filter(|m| m.0 <= p).next_back().unwrap_or(&(0, 0)); m.1 + (p - m.0) };
        let trs = |p: usize| -> usize { let m = map.iter().filter(|m| m.0 < p || p == 0).next_back().unwrap_or(&(0, 0)); m.1 + (p - m.0) };
        let mut pos: Vec<(String, usize, usize, Vec<String>, bool, bool, usize)> = marks.iter().map(|(path, s, e, props, has_body, ext)| (path.clone(), trs(*s).min(outt.len()), tr(*e).min(outt.len()), props.clone(), *has_body, *ext, line_of(&text, *s))).collect();
        for (path, s, e, cases) in &splits {
            let i = pos.iter().position(|p| &p.0 == path && p.6 == line_of(&text, *s)).unwrap();
            let _ = e;
            let (a, b) = (pos[i].1, pos[i].2);
            let whole = outt[a..b].to_string();
            // clauses marked @COPY@ are proved but not given to callers
            let base: String = whole.lines().filter(|l| !l.contains("@COPY@")).map(|l| format!("{l}\n")).collect();
            let whole = whole.replace("@COPY@", "");
            let name = path.rsplit("::").next().unwrap();
            *rewrites.entry(format!("{f}: {path} verified case by case as {} copies of its body", cases.len())).or_default() += 1;
            let mut newt = format!("#[verus_verify(external_body)]\n{}", base.replace("@CASE@", "true").replace("\nproof!{ assert(false); }\n", "\n"));
            let mut added = vec![];
            for (n, pr, ex) in cases {
                let key = format!("{path} [{n}]");
                let deg = degrade.contains(&key) || only.as_ref().map_or(false, |p| !pr.contains(p));
                newt.push_str("\n#[allow(dead_code)]\n");
                let st = a + newt.len();
                if deg { newt.push_str("#[verus_verify(external_body)]\n"); }
                newt.push_str(&whole.replace("@CASE@", ex).replacen(&format!("fn {name}("), &format!("fn {name}__{n}("), 1));
                added.push((key, st, a + newt.len(), pr.clone(), true, deg, pos[i].6));
            }
            {
                // the cases are exhaustive
                let info = v.fns.iter().find(|i| &i.path == path && i.sig_start == *s).unwrap();
                let sig = fc.fns[path].rewrites.iter().fold(text[info.span.0..info.body.0].to_string(), |t, (a, b)| t.replace(a.as_str(), b)).replacen(&format!("fn {name}("), &format!("fn {name}__cases("), 1);
                newt.push_str("\n#[allow(dead_code)]\n");
                let st = a + newt.len();
                let key = format!("{path} [cases]");
                let deg = degrade.contains(&key);
                if deg { newt.push_str("#[verus_verify(external_body)]\n"); }
                newt.push_str(&format!("#[verus_spec(_r => requires {} ensures false)]\n{sig} {{ proof!{{ assert(false); }} vstd::pervasive::unreached() }}\n", cases.iter().map(|c| format!("!({})", c.2)).collect::<Vec<_>>().join(", ")));
                let mut pr: Vec<String> = cases.iter().flat_map(|c| c.1.clone()).collect(); pr.sort(); pr.dedup();
                added.push((key, st, a + newt.len(), pr, true, deg, pos[i].6));
            }
            newt.push('\n');
            let d = newt.len() - (b - a);
            outt.replace_range(a..b, &newt);
            for p in pos.iter_mut() { if p.1 >= b { p.1 += d; } if p.2 > b || (p.2 == b && p.1 != a) { p.2 += d; } }
            pos.extend(added);
        }
        for (path, s, e, props, has_body, ext, sl) in &pos {
            rep_fns.push(serde_json::json!({"file": f, "fn": path, "props": props, "body": has_body, "external_body": ext,
                "lines": [line_of(&outt, *s), line_of(&outt, *e)], "src_line": sl}));
        }
        if f == "lib.rs" {
            outt = outt.replace("#![forbid(unsafe_code)]", "#![allow(unused_imports, dead_code, unused_variables)]\n#![feature(proc_macro_hygiene, const_destruct, allocator_api)]");
            outt.push_str("\npub mod vspec;\n");
        }
        outt.push_str("\n#[allow(unused_imports)] use vstd::prelude::*;\n#[allow(unused_imports)] use crate::vspec::VecX as _;\n");
        let mut ci = 0;
        for part in extra.split("//@copy\n").skip(1) {
            let a = line_of(&outt, outt.len()); outt.push_str(part);
            rep_fns.push(serde_json::json!({"file": f, "fn": copied[ci].0, "props": fc.copyprops.get(&copied[ci].0).cloned().unwrap_or_default(), "body": true, "external_body": part.contains("#[verus_verify(external_body)]"), "lines": [a, line_of(&outt, outt.len())], "src_line": copied[ci].1}));
            ci += 1;
        }
        outt.push_str(&fc.tail);
        let p = out.join(f);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, outt).unwrap();
    }
    if args.iter().any(|a| a == "--write-names") { bound.sort(); bound.dedup(); std::fs::write(contracts.join("names.txt"), bound.join("\n") + "\n").unwrap(); }
    for (k, _) in cs { if !k.is_empty() { missing.push(format!("file {k}")); } }
    let rep = serde_json::json!({"fns": rep_fns, "missing": missing, "unknown_fns": unknown, "unverified": unverified, "lost": lost, "loop_mismatch": loop_mismatch, "inlined": inlined, "rewrites": rewrites});
    std::fs::write(report, serde_json::to_string_pretty(&rep).unwrap()).unwrap();
}
