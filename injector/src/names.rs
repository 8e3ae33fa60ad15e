//! Names bound in a function, and contracts carried over to new names.
//! A contract names parameters and locals of the function it annotates. `contracts/names.txt` records, for every
//! function, the names bound in it when the contract was written. Where the source binds other names at the same
//! places, the contract text follows: a parameter keeps its position, and what is said of a local is checked anyway.
use std::collections::BTreeMap;
use syn::visit::{self, Visit};

struct Names(Vec<String>);
impl<'a> Visit<'a> for Names {
    fn visit_pat_ident(&mut self, i: &'a syn::PatIdent) {
        let n = i.ident.to_string();
        if !n.starts_with(|c: char| c.is_uppercase()) && !self.0.contains(&n) { self.0.push(n) }
        visit::visit_pat_ident(self, i)
    }
}
pub fn of(fn_text: &str) -> Option<Vec<String>> {
    let mut n = Names(vec![]);
    n.visit_impl_item_fn(&syn::parse_str::<syn::ImplItemFn>(fn_text).ok()?);
    Some(n.0)
}
pub fn read(p: &std::path::Path) -> BTreeMap<(String, String), Vec<String>> {
    std::fs::read_to_string(p).unwrap_or_default().lines().filter_map(|l| { let mut x = l.split('|'); Some(((x.next()?.into(), x.next()?.into()), x.next()?.split_whitespace().map(String::from).collect())) }).collect()
}
/// The names that changed, in order, if the two lists have as many new names as lost ones.
pub fn renamed(old: &[String], new: &[String]) -> Vec<(String, String)> {
    let a: Vec<&String> = old.iter().filter(|n| !new.contains(n)).collect();
    let b: Vec<&String> = new.iter().filter(|n| !old.contains(n)).collect();
    if a.len() != b.len() { return vec![] }
    a.into_iter().cloned().zip(b.into_iter().cloned()).collect()
}
fn ident(c: char) -> bool { c.is_alphanumeric() || c == '_' }
pub fn mentions(t: &str, name: &str) -> bool { t.split(|c| !ident(c)).any(|w| w == name) }
/// Replaces the identifiers that are not fields (`x.f`, `f: v`), paths or calls.
pub fn apply(t: &mut String, map: &[(String, String)]) {
    let s: Vec<char> = t.chars().collect();
    let (mut out, mut i) = (String::new(), 0);
    while i < s.len() {
        if !ident(s[i]) { out.push(s[i]); i += 1; continue }
        let a = i;
        while i < s.len() && ident(s[i]) { i += 1 }
        let w: String = s[a..i].iter().collect();
        let field = a > 0 && s[a - 1] == '.' && !(a > 1 && s[a - 2] == '.');
        let path = a > 1 && s[a - 1] == ':' && s[a - 2] == ':' || i < s.len() && (s[i] == '(' || s[i] == '!' && s.get(i + 1) != Some(&'=') || s[i] == ':' && (s.get(i + 1) == Some(&':') || matches!(s[..a].iter().rev().find(|c| !c.is_whitespace()), Some('{' | ','))));
        match map.iter().find(|m| m.0 == w) { Some(m) if !field && !path => out.push_str(&m.1), _ => out.push_str(&w) }
    }
    *t = out;
}
