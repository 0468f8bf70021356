//! Private fields that have got another name are given the name the contracts know.
use crate::model::{type_name, Krate};
use proc_macro2::{Group, TokenStream, TokenTree};
use quote::quote;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::visit_mut::{self, VisitMut};
use syn::*;

fn names(f: &Fields) -> Vec<String> {
    f.iter().enumerate().map(|(i, x)| x.ident.as_ref().map_or(i.to_string(), |n| n.to_string())).collect()
}
fn member(n: &str) -> Member {
    match n.parse::<u32>() {
        Ok(i) => Member::Unnamed(Index { index: i, span: proc_macro2::Span::call_site() }),
        Err(_) => Member::Named(Ident::new(n, proc_macro2::Span::call_site())),
    }
}
fn text(m: &Member) -> String {
    match m {
        Member::Named(i) => i.to_string(),
        Member::Unnamed(i) => i.index.to_string(),
    }
}

struct Ren<'a> {
    ty: &'a str,
    map: &'a BTreeMap<String, String>,
    /// new names that no other struct has
    unique: &'a BTreeSet<String>,
    here: bool,
    params: HashMap<String, bool>,
}
impl<'a> Ren<'a> {
    fn is_ty(&self, p: &Path) -> bool {
        let last = p.segments.last().unwrap().ident.to_string();
        last == self.ty || (last == "Self" && self.here)
    }
    fn toks(&self, t: TokenStream) -> TokenStream {
        let v: Vec<TokenTree> = t.into_iter().collect();
        let mut out: Vec<TokenTree> = vec![];
        for (i, x) in v.iter().enumerate() {
            out.push(match x {
                TokenTree::Group(g) => {
                    let mut n = Group::new(g.delimiter(), self.toks(g.stream()));
                    n.set_span(g.span());
                    TokenTree::Group(n)
                }
                TokenTree::Ident(id) if self.map.contains_key(&id.to_string()) && i > 0 && matches!(&v[i - 1], TokenTree::Punct(p) if p.as_char() == '.') && !matches!(v.get(i + 1), Some(TokenTree::Group(g)) if g.delimiter() == proc_macro2::Delimiter::Parenthesis) => {
                    let own = i > 1 && matches!(&v[i - 2], TokenTree::Ident(s) if s == "self") && self.here;
                    if own || self.unique.contains(&id.to_string()) {
                        let m = member(&self.map[&id.to_string()]);
                        let ts: Vec<TokenTree> = quote!(#m).into_iter().collect();
                        ts[0].clone()
                    } else {
                        x.clone()
                    }
                }
                _ => x.clone(),
            });
        }
        out.into_iter().collect()
    }
}
impl<'a> VisitMut for Ren<'a> {
    fn visit_item_impl_mut(&mut self, i: &mut ItemImpl) {
        let keep = self.here;
        self.here = type_name(&i.self_ty) == self.ty;
        visit_mut::visit_item_impl_mut(self, i);
        self.here = keep;
    }
    fn visit_signature_mut(&mut self, s: &mut Signature) {
        self.params.clear();
        for a in &s.inputs {
            if let FnArg::Typed(t) = a {
                if let Pat::Ident(i) = &*t.pat {
                    let mut ty = &*t.ty;
                    while let Type::Reference(r) = ty {
                        ty = &r.elem;
                    }
                    let n = type_name(ty);
                    self.params.insert(i.ident.to_string(), n == self.ty || (n == "Self" && self.here));
                }
            }
        }
        visit_mut::visit_signature_mut(self, s);
    }
    fn visit_expr_field_mut(&mut self, f: &mut ExprField) {
        visit_mut::visit_expr_field_mut(self, f);
        if let Some(old) = self.map.get(&text(&f.member)) {
            let base = match &*f.base {
                Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
                _ => None,
            };
            let own = match base.as_deref() {
                Some("self") => self.here,
                Some(b) => self.params.get(b).copied().unwrap_or(false),
                None => false,
            };
            if own || self.unique.contains(&text(&f.member)) {
                f.member = member(old);
            }
        }
    }
    fn visit_expr_struct_mut(&mut self, s: &mut ExprStruct) {
        visit_mut::visit_expr_struct_mut(self, s);
        if self.is_ty(&s.path) {
            for f in s.fields.iter_mut() {
                if let Some(old) = self.map.get(&text(&f.member)) {
                    f.member = member(old);
                    f.colon_token = Some(Default::default());
                }
            }
        }
    }
    fn visit_pat_struct_mut(&mut self, s: &mut PatStruct) {
        visit_mut::visit_pat_struct_mut(self, s);
        if self.is_ty(&s.path) {
            for f in s.fields.iter_mut() {
                if let Some(old) = self.map.get(&text(&f.member)) {
                    f.member = member(old);
                    f.colon_token = Some(Default::default());
                }
            }
        }
    }
    fn visit_expr_call_mut(&mut self, c: &mut ExprCall) {
        visit_mut::visit_expr_call_mut(self, c);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        m.tokens = self.toks(m.tokens.clone());
    }
}

/// `expected`: the fields of each struct, in order.
pub fn rename(k: &mut Krate, expected: &BTreeMap<String, Vec<String>>) -> Vec<String> {
    let mut notes = vec![];
    for (ty, want) in expected {
        let mut found = vec![];
        let mut count: BTreeMap<String, usize> = BTreeMap::new();
        for m in &k.modules {
            for it in &m.items {
                if let Item::Struct(s) = it {
                    for n in names(&s.fields) {
                        *count.entry(n).or_default() += 1;
                    }
                    if s.ident == ty.as_str() {
                        found.push(s.fields.clone());
                    }
                }
                if let Item::Enum(e) = it {
                    for v in &e.variants {
                        for n in names(&v.fields) {
                            *count.entry(n).or_default() += 1;
                        }
                    }
                }
            }
        }
        let [fields] = found.as_slice() else { continue };
        let have = names(fields);
        if have.len() != want.len() || have == *want {
            continue;
        }
        let new: Vec<&String> = have.iter().filter(|n| !want.contains(n)).collect();
        let old: Vec<&String> = want.iter().filter(|n| !have.contains(n)).collect();
        if new.is_empty() {
            continue;
        }
        if fields.iter().any(|f| matches!(f.vis, Visibility::Public(_))) {
            continue;
        }
        let map: BTreeMap<String, String> = new.iter().zip(old.iter()).map(|(a, b)| (a.to_string(), b.to_string())).collect();
        // a tuple struct whose fields are to have names is left alone
        if matches!(fields, Fields::Unnamed(_)) {
            continue;
        }
        let unique: BTreeSet<String> = map.keys().filter(|n| count.get(*n) == Some(&1) && n.as_str() != "input" && n.as_str() != "code").cloned().collect();
        notes.push(format!("fields of {ty}: {map:?}"));
        let tuple = want.iter().all(|n| n.parse::<u32>().is_ok());
        let mut r = Ren { ty, map: &map, unique: &unique, here: false, params: HashMap::new() };
        for m in &mut k.modules {
            for it in &mut m.items {
                if let Item::Struct(s) = it {
                    if s.ident == ty.as_str() {
                        if tuple {
                            let t: Vec<(&Visibility, &Type)> = fields.iter().map(|f| (&f.vis, &f.ty)).collect();
                            let (v, t): (Vec<_>, Vec<_>) = t.into_iter().unzip();
                            s.fields = Fields::Unnamed(parse_quote!((#(#v #t),*)));
                            s.semi_token = Some(Default::default());
                        } else {
                            for f in s.fields.iter_mut() {
                                if let Some(o) = f.ident.as_ref().and_then(|n| map.get(&n.to_string())) {
                                    f.ident = Some(Ident::new(o, proc_macro2::Span::call_site()));
                                }
                            }
                        }
                        continue;
                    }
                }
                r.visit_item_mut(it);
            }
        }
    }
    notes
}
