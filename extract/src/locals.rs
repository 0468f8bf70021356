//! Local closures that are only called are put at their calls; locals named as a specification
//! function are renamed.
use proc_macro2::{Group, Ident, TokenStream, TokenTree};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

/// how often each name is bound; which names are read, and which are called
#[derive(Default)]
struct Names {
    bound: BTreeMap<String, usize>,
    used: BTreeMap<String, usize>,
    called: BTreeMap<String, usize>,
    toks: BTreeSet<String>,
}
pub fn idents(t: TokenStream, out: &mut BTreeSet<String>) {
    for t in t {
        match t {
            TokenTree::Ident(i) => {
                out.insert(i.to_string());
            }
            TokenTree::Group(g) => idents(g.stream(), out),
            TokenTree::Literal(l) => {
                // `{name}` in a format string
                let s = l.to_string();
                let mut rest = s.as_str();
                while let Some(k) = rest.find('{') {
                    rest = &rest[k + 1..];
                    let n: String = rest.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                    if !n.is_empty() {
                        out.insert(n);
                    }
                }
            }
            _ => {}
        }
    }
}
impl<'ast> Visit<'ast> for Names {
    fn visit_pat_ident(&mut self, p: &'ast PatIdent) {
        *self.bound.entry(p.ident.to_string()).or_default() += 1;
        visit::visit_pat_ident(self, p);
    }
    fn visit_expr_path(&mut self, p: &'ast ExprPath) {
        if let Some(i) = p.path.get_ident() {
            *self.used.entry(i.to_string()).or_default() += 1;
        }
    }
    fn visit_expr_call(&mut self, c: &'ast ExprCall) {
        if let Expr::Path(p) = &*c.func {
            if let Some(i) = p.path.get_ident() {
                *self.called.entry(i.to_string()).or_default() += 1;
            }
        }
        visit::visit_expr_call(self, c);
    }
    fn visit_expr_method_call(&mut self, c: &'ast ExprMethodCall) {
        for a in &c.args {
            if let Some(i) = value(a) {
                *self.called.entry(i.to_string()).or_default() += 1;
            }
        }
        visit::visit_expr_method_call(self, c);
    }
    fn visit_macro(&mut self, m: &'ast Macro) {
        idents(m.tokens.clone(), &mut self.toks);
    }
}

/// A name given as an argument, possibly by reference.
fn value(a: &Expr) -> Option<&Ident> {
    match a {
        Expr::Path(p) => p.path.get_ident(),
        Expr::Reference(r) if r.mutability.is_none() => value(&r.expr),
        _ => None,
    }
}

struct Plain(bool);
impl<'ast> Visit<'ast> for Plain {
    fn visit_expr_await(&mut self, _: &'ast ExprAwait) {
        self.0 = false;
    }
    fn visit_expr_async(&mut self, _: &'ast ExprAsync) {
        self.0 = false;
    }
}

struct Beta<'a> {
    name: &'a str,
    c: &'a ExprClosure,
}
impl<'a> VisitMut for Beta<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::MethodCall(m) = e {
            for a in m.args.iter_mut() {
                if value(a).map_or(false, |i| i == self.name) {
                    *a = Expr::Closure(self.c.clone());
                }
            }
        }
        if let Expr::Call(c) = e {
            let hit = matches!(&*c.func, Expr::Path(p) if p.path.is_ident(self.name));
            if hit && c.args.len() == self.c.inputs.len() {
                let mut stmts: Vec<Stmt> = vec![];
                // every argument before the first parameter is bound
                let (one, many) = (c.args.len() == 1, c.args.len() > 1);
                if one {
                    let (p, a) = (&self.c.inputs[0], &c.args[0]);
                    if !matches!(p, Pat::Wild(_)) {
                        stmts.push(parse_quote!(let #p = #a;));
                    }
                } else if many {
                    let ids: Vec<Ident> = (0..c.args.len()).map(|k| quote::format_ident!("__b{k}_{}", self.name)).collect();
                    for (i, a) in ids.iter().zip(&c.args) {
                        stmts.push(parse_quote!(let #i = #a;));
                    }
                    for (p, i) in self.c.inputs.iter().zip(&ids) {
                        stmts.push(parse_quote!(let #p = #i;));
                    }
                }
                let body = &self.c.body;
                *e = match &self.c.output {
                    ReturnType::Type(_, t) => parse_quote!({ #(#stmts)* let __b: #t = #body; __b }),
                    ReturnType::Default if stmts.is_empty() && matches!(**body, Expr::Block(_)) => (**body).clone(),
                    ReturnType::Default => parse_quote!({ #(#stmts)* #body }),
                };
            }
        }
    }
}

fn find(b: &Block, n: &Names, params: &[String]) -> Option<(usize, String, ExprClosure)> {
    for (i, s) in b.stmts.iter().enumerate() {
        let Stmt::Local(l) = s else { continue };
        let (Pat::Ident(p), Some(init)) = (&l.pat, &l.init) else { continue };
        let Expr::Closure(c) = &*init.expr else { continue };
        let name = p.ident.to_string();
        if p.by_ref.is_some() || c.asyncness.is_some() || c.capture.is_some() || super::cps::leaves_expr(&c.body) {
            continue;
        }
        if n.bound.get(&name) != Some(&1) || params.contains(&name) || n.toks.contains(&name) || n.called.get(&name).is_none() || n.called.get(&name) != n.used.get(&name) {
            continue;
        }
        let mut pl = Plain(true);
        pl.visit_expr(&c.body);
        let mut inner = Names::default();
        inner.visit_expr_closure(c);
        // what the body reads from outside must mean the same at the calls
        let free_ok = inner.used.keys().chain(inner.toks.iter()).all(|u| {
            inner.bound.contains_key(u) || n.bound.get(u).copied().unwrap_or(0) + params.contains(u) as usize <= 1
        });
        // and a name the closure binds must not be one it reads from outside
        let inner_ok = inner.bound.keys().all(|u| inner.bound[u] == n.bound.get(u).copied().unwrap_or(0) && !params.contains(u) || c.inputs.iter().any(|p| binds(p, u)));
        if pl.0 && free_ok && inner_ok {
            return Some((i, name, c.clone()));
        }
    }
    None
}
fn binds(p: &Pat, u: &str) -> bool {
    let mut n = Names::default();
    n.visit_pat(p);
    n.bound.contains_key(u)
}

/// `let f = |x| e; .. f(a) ..` is `.. { let x = a; e } ..`
pub fn beta(b: &mut Block, params: &[String]) -> Vec<String> {
    struct V<'a> {
        params: &'a [String],
        hit: Option<String>,
        n: Names,
    }
    impl<'a> VisitMut for V<'a> {
        fn visit_block_mut(&mut self, b: &mut Block) {
            if self.hit.is_some() {
                return;
            }
            if let Some((i, name, c)) = find(b, &self.n, self.params) {
                b.stmts.remove(i);
                for s in b.stmts[i..].iter_mut() {
                    Beta { name: &name, c: &c }.visit_stmt_mut(s);
                }
                self.hit = Some(name);
                return;
            }
            visit_mut::visit_block_mut(self, b);
        }
    }
    let mut done = vec![];
    loop {
        let mut n = Names::default();
        n.visit_block(b);
        let mut v = V { params, hit: None, n };
        v.visit_block_mut(b);
        match v.hit {
            Some(h) => done.push(h),
            None => return done,
        }
    }
}

/// Locals that have the name of a specification function get a new one.
pub fn rename(b: &mut Block, specs: &BTreeSet<String>) {
    let mut n = Names::default();
    n.visit_block(b);
    let hits: BTreeSet<String> = n.bound.keys().filter(|k| specs.contains(*k)).cloned().collect();
    if hits.is_empty() {
        return;
    }
    struct R(BTreeSet<String>);
    impl R {
        fn new(&self, i: &Ident) -> Ident {
            quote::format_ident!("{}_v", i)
        }
        fn toks(&self, t: TokenStream) -> TokenStream {
            t.into_iter()
                .map(|t| match t {
                    TokenTree::Ident(i) if self.0.contains(&i.to_string()) => TokenTree::Ident(self.new(&i)),
                    TokenTree::Group(g) => TokenTree::Group(Group::new(g.delimiter(), self.toks(g.stream()))),
                    TokenTree::Literal(l) => {
                        let mut s = l.to_string();
                        if s.contains('{') {
                            for n in &self.0 {
                                for e in ["}", ":"] {
                                    s = s.replace(&format!("{{{n}{e}"), &format!("{{{n}_v{e}"));
                                }
                            }
                        }
                        s.parse::<proc_macro2::Literal>().map(TokenTree::Literal).unwrap_or(TokenTree::Literal(l))
                    }
                    t => t,
                })
                .collect()
        }
    }
    impl VisitMut for R {
        fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
            if self.0.contains(&p.ident.to_string()) {
                p.ident = self.new(&p.ident);
            }
            visit_mut::visit_pat_ident_mut(self, p);
        }
        fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
            // `S { name }` names the field and the local
            if f.colon_token.is_none() {
                f.colon_token = Some(Default::default());
            }
            visit_mut::visit_field_pat_mut(self, f);
        }
        fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
            if f.colon_token.is_none() {
                f.colon_token = Some(Default::default());
            }
            visit_mut::visit_field_value_mut(self, f);
        }
        fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
            if let Some(i) = p.path.get_ident() {
                if self.0.contains(&i.to_string()) {
                    let n = self.new(i);
                    p.path = n.into();
                }
            }
        }
        fn visit_macro_mut(&mut self, m: &mut Macro) {
            m.tokens = self.toks(m.tokens.clone());
        }
    }
    R(hits).visit_block_mut(b);
}

/// the names of the specification functions of a file
pub fn spec_names(text: &str, out: &mut BTreeSet<String>) {
    for l in text.lines() {
        for k in ["spec fn ", "proof fn "] {
            if let Some(p) = l.find(k) {
                let n: String = l[p + k.len()..].chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                // methods are called with a receiver
                if l.starts_with("pub ") {
                    out.insert(n);
                }
            }
        }
    }
}

/// Functions and constants inside a function stand beside it.
pub fn hoist(items: &mut Vec<Item>) {
    let mut names: BTreeMap<String, usize> = BTreeMap::new();
    struct Count<'a>(&'a mut BTreeMap<String, usize>);
    impl<'ast, 'a> Visit<'ast> for Count<'a> {
        fn visit_item_fn(&mut self, f: &'ast ItemFn) {
            *self.0.entry(f.sig.ident.to_string()).or_default() += 1;
            visit::visit_item_fn(self, f);
        }
        fn visit_item_const(&mut self, f: &'ast ItemConst) {
            *self.0.entry(f.ident.to_string()).or_default() += 1;
        }
        fn visit_item_use(&mut self, u: &'ast ItemUse) {
            let mut t = BTreeSet::new();
            idents(quote::ToTokens::to_token_stream(u), &mut t);
            for n in t {
                *self.0.entry(n).or_default() += 1;
            }
        }
    }
    for i in items.iter() {
        Count(&mut names).visit_item(i);
    }
    struct V<'a>(&'a BTreeMap<String, usize>, Vec<Item>);
    impl<'a> VisitMut for V<'a> {
        fn visit_block_mut(&mut self, b: &mut Block) {
            visit_mut::visit_block_mut(self, b);
            let mut keep = vec![];
            for s in std::mem::take(&mut b.stmts) {
                match s {
                    Stmt::Item(Item::Fn(f)) if self.0.get(&f.sig.ident.to_string()) == Some(&1) => self.1.push(Item::Fn(f)),
                    Stmt::Item(Item::Const(c)) if self.0.get(&c.ident.to_string()) == Some(&1) => self.1.push(Item::Const(c)),
                    s => keep.push(s),
                }
            }
            b.stmts = keep;
        }
    }
    let mut v = V(&names, vec![]);
    for i in items.iter_mut() {
        v.visit_item_mut(i);
    }
    items.extend(v.1);
}

/// the ghost variables a contract declares
pub fn ghost_names(text: &str, out: &mut BTreeSet<String>) {
    for l in text.lines() {
        if let Some(r) = l.trim_start().strip_prefix("let ghost ") {
            let r = r.strip_prefix("mut ").unwrap_or(r);
            let n: String = r.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
            out.insert(n);
        }
    }
}
