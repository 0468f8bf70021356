//! Normalisation before everything else: local aliases of places, and calls of helper functions that
//! have no contract (their body stands where the call was).
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeSet, HashMap};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Helper {
    pub id: String,
    pub module: String,
    pub ty: String, // "" for a free function
    pub sig: Signature,
    pub body: Block,
    pub private: bool,
}
pub struct Helpers {
    /// constants whose value is written where they are used: (module, type) to name to value
    pub consts: HashMap<(String, String), HashMap<String, Expr>>,
    pub all: Vec<Helper>,
    /// how many functions of the crate have the name
    pub names: HashMap<String, usize>,
    /// the items of each module
    pub items: HashMap<String, BTreeSet<String>>,
}

/// Names of another module, written in full.
struct Full<'a> {
    module: &'a str,
    ty: &'a str,
    uses: &'a HashMap<String, HashMap<String, String>>,
    items: &'a HashMap<String, BTreeSet<String>>,
    own: BTreeSet<String>,
    ok: bool,
}
impl<'a> Full<'a> {
    fn of(&self, s: &str) -> Option<String> {
        let here = |m: &str, s: &str| if m.is_empty() { format!("crate::{s}") } else { format!("crate::{m}::{s}") };
        if s == "Self" {
            return Some(here(self.module, self.ty));
        }
        if let Some(p) = self.uses.get(self.module).and_then(|u| u.get(s)) {
            return Some(p.clone());
        }
        if self.items.get(self.module).map_or(false, |i| i.contains(s)) {
            return Some(here(self.module, s));
        }
        for g in self.uses.get(self.module).into_iter().flat_map(|u| u.keys()) {
            if let Some(m) = g.strip_prefix("*crate::").or(g.strip_prefix("*super::")) {
                if self.items.get(m).map_or(false, |i| i.contains(s)) {
                    return Some(here(m, s));
                }
            }
        }
        None
    }
}
impl<'a> VisitMut for Full<'a> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        let first = p.segments[0].ident.to_string();
        if p.leading_colon.is_some() || first == "crate" || first == "self" && p.segments.len() == 1 {
            return;
        }
        if first == "self" || first == "super" {
            self.ok = false;
            return;
        }
        if p.segments.len() == 1 && self.own.contains(&first) {
            return;
        }
        if let Some(full) = self.of(&first) {
            if full.starts_with("self::") || full.starts_with("super::") {
                self.ok = false;
                return;
            }
            if let Ok(mut q) = parse_str::<Path>(&full) {
                let args = p.segments[0].arguments.clone();
                q.segments.last_mut().unwrap().arguments = args;
                for s in p.segments.iter().skip(1) {
                    q.segments.push(s.clone());
                }
                *p = q;
            }
        }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        // the names in a macro stay as they are
        let mut ids = Idents(HashMap::new(), BTreeSet::new());
        ids.visit_macro(m);
        if ids.1.iter().any(|i| !self.own.contains(i) && self.of(i).is_some()) {
            self.ok = false;
        }
    }
}

pub fn place(e: &Expr) -> bool {
    match e {
        Expr::Path(p) => p.path.get_ident().is_some(),
        Expr::Field(f) => place(&f.base),
        _ => false,
    }
}

struct Idents(HashMap<String, usize>, BTreeSet<String>);
impl<'ast> Visit<'ast> for Idents {
    fn visit_pat_ident(&mut self, i: &'ast PatIdent) {
        *self.0.entry(i.ident.to_string()).or_insert(0) += 1;
        visit::visit_pat_ident(self, i);
    }
    fn visit_macro(&mut self, m: &'ast Macro) {
        fn go(ts: proc_macro2::TokenStream, out: &mut BTreeSet<String>) {
            for t in ts {
                match t {
                    proc_macro2::TokenTree::Ident(i) => {
                        out.insert(i.to_string());
                    }
                    proc_macro2::TokenTree::Group(g) => go(g.stream(), out),
                    _ => {}
                }
            }
        }
        go(m.tokens.clone(), &mut self.1);
    }
}

struct Subst<'a> {
    name: &'a str,
    place: &'a Expr,
    mutable: bool,
}
impl<'a> VisitMut for Subst<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::MethodCall(m) if is(&m.receiver, self.name) => {
                *m.receiver = self.place.clone();
                for a in m.args.iter_mut() {
                    self.visit_expr_mut(a);
                }
                return;
            }
            Expr::Field(f) if is(&f.base, self.name) => {
                *f.base = self.place.clone();
                return;
            }
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) && is(&u.expr, self.name) => {
                *e = self.place.clone();
                return;
            }
            _ => {}
        }
        if is(e, self.name) {
            let p = self.place;
            *e = if self.mutable { parse_quote!(&mut #p) } else { parse_quote!(&#p) };
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
fn is(e: &Expr, n: &str) -> bool {
    matches!(e, Expr::Path(p) if p.path.is_ident(n))
}

/// `let x = &mut a.b;` : x is replaced by the place it names.
pub fn aliases(b: &mut Block, params: &[String]) -> Vec<String> {
    let mut done = vec![];
    let mut ids = Idents(HashMap::new(), BTreeSet::new());
    ids.visit_block(b);
    struct Find<'a> {
        ids: &'a Idents,
        params: &'a [String],
        done: &'a mut Vec<String>,
    }
    impl<'a> VisitMut for Find<'a> {
        fn visit_block_mut(&mut self, b: &mut Block) {
            let mut i = 0;
            while i < b.stmts.len() {
                let mut hit = None;
                if let Stmt::Local(l) = &b.stmts[i] {
                    let pat = match &l.pat {
                        Pat::Type(t) => &*t.pat,
                        p => p,
                    };
                    if let (Pat::Ident(p), Some(init)) = (pat, &l.init) {
                        let n = p.ident.to_string();
                        if p.mutability.is_none() && p.by_ref.is_none() && init.diverge.is_none() && self.ids.0.get(&n) == Some(&1) && !self.ids.1.contains(&n) && !self.params.contains(&n) {
                            if let Expr::Reference(r) = &*init.expr {
                                // a field of something that is not bound here
                                if r.mutability.is_some() && matches!(&*r.expr, Expr::Field(_)) && place(&r.expr) {
                                    hit = Some((n, (*r.expr).clone()));
                                }
                            }
                        }
                    }
                }
                if let Some((n, pl)) = hit {
                    b.stmts.remove(i);
                    for s in b.stmts[i..].iter_mut() {
                        Subst { name: &n, place: &pl, mutable: true }.visit_stmt_mut(s);
                    }
                    self.done.push(n);
                } else {
                    i += 1;
                }
            }
            visit_mut::visit_block_mut(self, b);
        }
    }
    Find { ids: &ids, params, done: &mut done }.visit_block_mut(b);
    done
}

fn generic_type(t: &Type, gens: &BTreeSet<String>) -> bool {
    struct V<'a>(bool, &'a BTreeSet<String>);
    impl<'ast, 'a> Visit<'ast> for V<'a> {
        fn visit_type_impl_trait(&mut self, _: &'ast TypeImplTrait) {
            self.0 = true;
        }
        fn visit_lifetime(&mut self, l: &'ast Lifetime) {
            if l.ident != "static" {
                self.0 = true;
            }
        }
        fn visit_path(&mut self, p: &'ast Path) {
            if let Some(s) = p.segments.first() {
                let s = s.ident.to_string();
                if s == "Self" || self.1.contains(&s) {
                    self.0 = true;
                }
            }
            visit::visit_path(self, p);
        }
    }
    let mut v = V(false, gens);
    v.visit_type(t);
    v.0
}

/// The error type of `Result<_, E>`.
pub fn error_type(o: &ReturnType) -> Option<String> {
    let ReturnType::Type(_, t) = o else { return None };
    let Type::Path(p) = &**t else { return None };
    let s = p.path.segments.last()?;
    if s.ident == "SmtpResult" {
        return Some("Error".into());
    }
    if s.ident != "Result" {
        return None;
    }
    let PathArguments::AngleBracketed(a) = &s.arguments else { return None };
    match a.args.iter().nth(1)? {
        GenericArgument::Type(Type::Path(p)) => Some(p.path.segments.last()?.ident.to_string()),
        _ => None,
    }
}
/// whether every `return` is `return Err(..)`
struct OnlyErr(bool);
impl<'ast> Visit<'ast> for OnlyErr {
    fn visit_expr_return(&mut self, r: &'ast ExprReturn) {
        match r.expr.as_deref() {
            Some(Expr::Call(c)) if is(&c.func, "Err") => {}
            _ => self.0 = false,
        }
        visit::visit_expr_return(self, r);
    }
    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
    fn visit_expr_async(&mut self, _: &'ast ExprAsync) {}
}

pub struct Inline<'h> {
    pub h: &'h Helpers,
    pub module: String,
    pub self_ty: String,
    pub depth: usize,
    pub n: usize,
    /// the error type of the function whose `?` leaves here
    pub err: Option<String>,
    pub used: BTreeSet<String>,
    pub structs: &'h HashMap<String, std::collections::BTreeMap<String, Type>>,
    pub uses: &'h HashMap<String, HashMap<String, String>>,
}
impl<'h> Inline<'h> {
    /// The method of the crate, if no other function has its name.
    fn only(&self, name: &str) -> Option<&'h Helper> {
        if self.h.names.get(name) != Some(&1) || super::transform::RENAMED.contains(&name) || ["new", "push", "insert", "next", "map", "clone", "into"].contains(&name) {
            return None;
        }
        self.h.all.iter().find(|h| h.sig.ident == name && !h.ty.is_empty() && matches!(h.sig.inputs.first(), Some(FnArg::Receiver(_))))
    }
    /// The free function or associated function that a path names.
    fn by_path(&self, segs: &[String]) -> Option<&'h Helper> {
        let full = match self.uses.get(&self.module).and_then(|u| u.get(&segs[0])) {
            Some(p) => std::iter::once(p.clone()).chain(segs[1..].iter().cloned()).collect::<Vec<_>>().join("::"),
            None => segs.join("::"),
        };
        let id = full.strip_prefix("crate::")?;
        self.h.all.iter().find(|h| h.id == id && !matches!(h.sig.inputs.first(), Some(FnArg::Receiver(_))))
    }
    fn find(&self, ty: Option<&str>, name: &str, method: bool) -> Option<&'h Helper> {
        let mut c: Vec<&Helper> = self
            .h
            .all
            .iter()
            .filter(|h| h.sig.ident == name && h.module == self.module && (method == matches!(h.sig.inputs.first(), Some(FnArg::Receiver(_)))))
            .collect();
        if let Some(t) = ty {
            c.retain(|h| h.ty == t);
}
        if c.len() == 1 {
            Some(c[0])
        } else {
            None
        }
    }
    fn target(&self, e: &Expr) -> Option<(&'h Helper, Option<Expr>, Vec<Expr>)> {
        match e {
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let field = matches!(&*m.receiver, Expr::Field(f) if is(&f.base, "self") || is(&f.base, "__self"));
                if !is(&m.receiver, "self") && !is(&m.receiver, "__self") && !field {
                    let h = self.only(&name)?;
                    return Some((h, Some((*m.receiver).clone()), m.args.iter().cloned().collect()));
                }
                if !place(&m.receiver) {
                    return None;
                }
                let on_self = is(&m.receiver, "self") || is(&m.receiver, "__self");
                let ty = if on_self {
                    self.self_ty.clone()
                } else {
                    // only a field of self, whose type is known
                    let Expr::Field(f) = &*m.receiver else { return None };
                    if !is(&f.base, "self") && !is(&f.base, "__self") {
                        return None;
                    }
                    let n = f.member.to_token_stream().to_string();
                    super::model::type_name(self.structs.get(&self.self_ty)?.get(&n)?)
                };
                let h = self.find(Some(&ty), &name, true).or_else(|| self.only(&name))?;
                Some((h, Some((*m.receiver).clone()), m.args.iter().cloned().collect()))
            }
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return None };
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let args: Vec<Expr> = c.args.iter().cloned().collect();
                if segs.len() > 2 || self.uses.get(&self.module).map_or(false, |u| u.contains_key(&segs[0])) {
                    if let Some(h) = self.by_path(&segs) {
                        return Some((h, None, args));
                    }
                }
                match segs.as_slice() {
                    [n] => Some((self.find(Some(""), n, false)?, None, args)),
                    [t, n] => {
                        let t = if t == "Self" { &self.self_ty } else { t };
                        if let Some(h) = self.find(Some(t), n, false) {
                            return Some((h, None, args));
                        }
                        let h = self.find(Some(t), n, true)?;
                        let r = args.first()?;
                        let r = match r {
                            Expr::Reference(r) => (*r.expr).clone(),
                            e => e.clone(),
                        };
                        if !place(&r) {
                            return None;
                        }
                        Some((h, Some(r), args[1..].to_vec()))
                    }
                    _ => None,
                }
            }
            _ => None,
        }
    }
    /// The path of a helper as a value: the closure that does what it does.
    fn eta(&mut self, a: &Expr) -> Option<Expr> {
        let Expr::Path(p) = a else { return None };
        let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
        let h = match segs.as_slice() {
            [n] => self.find(Some(""), n, false)?,
            [t, n] => self.find(Some(if t == "Self" { &self.self_ty } else { t }), n, false)?,
            _ => return None,
        };
        if h.sig.asyncness.is_some() || h.sig.generics.params.iter().any(|g| !matches!(g, GenericParam::Lifetime(_))) {
            return None;
        }
        struct NoLife;
        impl VisitMut for NoLife {
            fn visit_type_reference_mut(&mut self, r: &mut TypeReference) {
                r.lifetime = None;
                visit_mut::visit_type_reference_mut(self, r);
            }
        }
        let ins: Vec<PatType> = h
            .sig
            .inputs
            .iter()
            .filter_map(|a| match a {
                FnArg::Typed(t) => {
                    let mut t = t.clone();
                    NoLife.visit_pat_type_mut(&mut t);
                    Some(t)
                }
                _ => None,
            })
            .collect();
        let mut out = h.sig.output.clone();
        NoLife.visit_return_type_mut(&mut out);
        let body = &h.body;
        self.used.insert(h.id.clone());
        Some(parse_quote!(|#(#ins),*| #out #body))
    }
    fn expand(&mut self, h: &'h Helper, recv: Option<Expr>, args: Vec<Expr>, tried: bool) -> Option<Expr> {
        let gens: BTreeSet<String> = h.sig.generics.params.iter().filter_map(|g| if let GenericParam::Type(t) = g { Some(t.ident.to_string()) } else { None }).collect();
        let mut body = h.body.clone();
        let mut sig = h.sig.clone();
        if h.module != self.module || !h.ty.is_empty() && h.ty != self.self_ty {
            let mut ids = Idents(HashMap::new(), BTreeSet::new());
            ids.visit_block(&body);
            ids.visit_signature(&sig);
            let mut own: BTreeSet<String> = ids.0.into_keys().collect();
            own.extend(gens.iter().cloned());
            let mut f = Full { module: &h.module, ty: &h.ty, uses: self.uses, items: &self.h.items, own, ok: true };
            f.visit_block_mut(&mut body);
            f.visit_signature_mut(&mut sig);
            if !f.ok {
                return None;
            }
        }
        let mut lets: Vec<Stmt> = vec![];
        let mut recv = recv;
        if let (Some(r), Some(FnArg::Receiver(s))) = (&recv, h.sig.inputs.first()) {
            let own_place = is(r, "self") || is(r, "__self") || matches!(r, Expr::Field(f) if is(&f.base, "self") || is(&f.base, "__self"));
            if !own_place {
                let id = format_ident!("__s{}", self.n + 1);
                let by_mut = s.reference.is_some() && s.mutability.is_some();
                if by_mut {
                    // the place itself, if no local of the helper hides it
                    let mut ids = Idents(HashMap::new(), BTreeSet::new());
                    ids.visit_block(&body);
                    let mut root = r;
                    while let Expr::Field(f) = root {
                        root = &f.base;
                    }
                    if !place(r) || ids.0.keys().any(|k| is(root, k)) {
                        return None;
                    }
                } else {
                    let m = if s.reference.is_none() { &s.mutability } else { &None };
                    if s.reference.is_some() {
                        lets.push(parse_quote!(let #id = &#r;));
                    } else {
                        lets.push(parse_quote!(let #m #id = #r;));
                    }
                    recv = Some(parse_quote!(#id));
                }
            }
        }
        if let Some(r) = &recv {
            if !is(r, "self") {
                // the receiver takes the place of self
                struct S<'a>(&'a Expr);
                impl<'a> VisitMut for S<'a> {
                    fn visit_expr_mut(&mut self, e: &mut Expr) {
                        if is(e, "self") {
                            *e = self.0.clone();
                            return;
                        }
                        visit_mut::visit_expr_mut(self, e);
                    }
                }
                let mut ids = Idents(HashMap::new(), BTreeSet::new());
                ids.visit_block(&body);
                if ids.1.contains("self") {
                    return None;
                }
                S(r).visit_block_mut(&mut body);
            }
        }
        let params: Vec<&PatType> = sig.inputs.iter().filter_map(|a| if let FnArg::Typed(t) = a { Some(t) } else { None }).collect();
        if params.len() != args.len() {
            return None;
        }
        self.n += 1;
        let tmp: Vec<Ident> = (0..args.len()).map(|i| format_ident!("__p{}_{}", self.n, i)).collect();
        // a reference to a place is passed on as the place
        let mut places: Vec<(String, Expr, bool)> = vec![];
        let mut second: Vec<Stmt> = vec![];
        for (i, p) in params.iter().enumerate() {
            let a = &args[i];
            if let (Expr::Reference(r), Pat::Ident(pi)) = (a, &*p.pat) {
                if r.mutability.is_some() && place(&r.expr) && pi.mutability.is_none() {
                    places.push((pi.ident.to_string(), (*r.expr).clone(), true));
                    continue;
                }
            }
            let (t, pat, ty) = (&tmp[i], &p.pat, &p.ty);
            lets.push(parse_quote!(let #t = #a;));
            if generic_type(ty, &gens) {
                second.push(parse_quote!(let #pat = #t;));
            } else {
                second.push(parse_quote!(let #pat: #ty = #t;));
            }
        }
        for (n, pl, m) in &places {
            let mut ids = Idents(HashMap::new(), BTreeSet::new());
            ids.visit_block(&body);
            if ids.0.contains_key(n) || ids.1.contains(n) {
                return None;
            }
            Subst { name: n, place: pl, mutable: *m }.visit_block_mut(&mut body);
        }
        let stmts = &body.stmts;
        let ret = match &sig.output {
            ReturnType::Default => None,
            ReturnType::Type(_, t) => Some((**t).clone()),
        };
        let leaves = super::cps::leaves_block(&body);
        if leaves && (tried || super::cps::block(&body.stmts, &|e| Ok(e)).is_err()) {
            // `helper(..)?` where the helper leaves with errors only: its `?` are those of the caller
            if !tried || self.err.is_none() || error_type(&h.sig.output) != self.err {
                return None;
            }
            let mut only = OnlyErr(true);
            only.visit_block(&body);
            if !only.0 {
                return None;
            }
            let mut stmts = body.stmts.clone();
            let tail = match stmts.pop() {
                Some(Stmt::Expr(e, None)) => e,
                _ => return None,
            };
            let tail: Expr = match &tail {
                Expr::Call(c) if is(&c.func, "Ok") && c.args.len() == 1 => c.args[0].clone(),
                t => parse_quote!((#t)?),
            };
            self.used.insert(h.id.clone());
            return Some(parse_quote!({ #(#lets)* #(#second)* #(#stmts)* #tail }));
        }
        let inner: Expr = if leaves { parse_quote!(async { #(#second)* #(#stmts)* }.await) } else { parse_quote!({ #(#second)* #(#stmts)* }) };
        self.used.insert(h.id.clone());
        let res = format_ident!("__h{}", self.n);
        let e: Expr = match ret {
            Some(t) if !generic_type(&t, &gens) => parse_quote!({ #(#lets)* let #res: #t = #inner; #res }),
            _ => parse_quote!({ #(#lets)* #inner }),
        };
        Some(e)
    }
}
impl<'h> VisitMut for Inline<'h> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Async(_) | Expr::Closure(_) = e {
            let keep = self.err.take();
            visit_mut::visit_expr_mut(self, e);
            self.err = keep;
            return;
        }
        if self.depth < 6 {
            if let Expr::Try(t) = &*e {
                let (call, awaited) = match &*t.expr {
                    Expr::Await(a) => ((*a.base).clone(), true),
                    x => (x.clone(), false),
                };
                if let Some((h, r, a)) = self.target(&call) {
                    if h.sig.asyncness.is_some() == awaited && super::cps::leaves_block(&h.body) && super::cps::block(&h.body.stmts, &|e| Ok(e)).is_err() {
                        if let Some(x) = self.expand(h, r, a, true) {
                            *e = x;
                            self.depth += 1;
                            self.visit_expr_mut(e);
                            self.depth -= 1;
                            return;
                        }
                    }
                }
            }
            let (call, awaited) = match &*e {
                Expr::Await(a) => ((*a.base).clone(), true),
                x => (x.clone(), false),
            };
            if let Some((h, r, a)) = self.target(&call) {
                if h.sig.asyncness.is_some() == awaited {
                    if let Some(x) = self.expand(h, r, a, false) {
                        *e = x;
                        self.depth += 1;
                        self.visit_expr_mut(e);
                        self.depth -= 1;
                        return;
                    }
                }
            }
        }
        let args = match e {
            Expr::Call(c) => Some(&mut c.args),
            Expr::MethodCall(m) => Some(&mut m.args),
            _ => None,
        };
        for a in args.into_iter().flatten() {
            if let Some(x) = self.eta(a) {
                *a = x;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// A closure that leaves early is one expression.
pub fn closures(b: &mut Block) {
    struct V;
    impl VisitMut for V {
        fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
            visit_mut::visit_expr_closure_mut(self, c);
            if c.asyncness.is_none() && super::cps::leaves_expr(&c.body) {
                let b = &c.body;
                let blk: Block = match &**b {
                    Expr::Block(x) if x.label.is_none() => x.block.clone(),
                    x => parse_quote!({ #x }),
                };
                if super::cps::block(&blk.stmts, &|e| Ok(e)).is_ok() {
                    *c.body = match &c.output {
                        ReturnType::Type(_, t) => parse_quote!({ let __c: #t = async #blk.await; __c }),
                        ReturnType::Default => parse_quote!({ async #blk.await }),
                    };
                }
            }
        }
    }
    V.visit_block_mut(b);
}

/// The functions that may be inlined: no contract, not of a trait, no nom parser.
pub fn helpers(k: &super::model::Krate, has_contract: &dyn Fn(&str) -> bool) -> Helpers {
    let mut all = vec![];
    let mut names: HashMap<String, usize> = HashMap::new();
    fn private(v: &Visibility) -> bool {
        !matches!(v, Visibility::Public(_))
    }
    let mut items: HashMap<String, BTreeSet<String>> = HashMap::new();
    let mut consts: HashMap<(String, String), HashMap<String, Expr>> = HashMap::new();
    for m in &k.modules {
        for it in &m.items {
            match it {
                Item::Const(c) if matches!((&*c.ty, &*c.expr), (Type::Array(_), Expr::Array(_))) && super::pure_const(&c.expr) => {
                    consts.entry((m.path.clone(), String::new())).or_default().insert(c.ident.to_string(), (*c.expr).clone());
                }
                Item::Impl(i) if i.trait_.is_none() => {
                    for x in &i.items {
                        if let ImplItem::Const(c) = x {
                            if super::pure_const(&c.expr) {
                                let (t, e) = (&c.ty, &c.expr);
                                let e: Expr = match e {
                                    Expr::Lit(ExprLit { lit: Lit::Int(_), .. }) => parse_quote!((#e as #t)),
                                    e => e.clone(),
                                };
                                consts.entry((m.path.clone(), super::model::type_name(&i.self_ty))).or_default().insert(c.ident.to_string(), e);
                            }
                        }
                    }
                }
                _ => {}
            }
        }
    }
    for m in &k.modules {
        let e = items.entry(m.path.clone()).or_default();
        for it in &m.items {
            match it {
                Item::Fn(x) => e.insert(x.sig.ident.to_string()),
                Item::Struct(x) => e.insert(x.ident.to_string()),
                Item::Enum(x) => e.insert(x.ident.to_string()),
                Item::Type(x) => e.insert(x.ident.to_string()),
                Item::Const(x) => e.insert(x.ident.to_string()),
                Item::Static(x) => e.insert(x.ident.to_string()),
                Item::Trait(x) => e.insert(x.ident.to_string()),
                _ => false,
            };
        }
    }
    let ok = |s: &Signature| {
        let out = s.output.to_token_stream().to_string();
        !out.contains("impl ") && s.unsafety.is_none() && s.constness.is_none()
    };
    for m in &k.modules {
        let in_mod = |n: &str| if m.path.is_empty() { n.to_string() } else { format!("{}::{n}", m.path) };
        for it in &m.items {
            match it {
                Item::Fn(f) => {
                    *names.entry(f.sig.ident.to_string()).or_insert(0) += 1;
                    let id = in_mod(&f.sig.ident.to_string());
                    if !has_contract(&id) && ok(&f.sig) {
                        all.push(Helper { id, module: m.path.clone(), ty: String::new(), sig: f.sig.clone(), body: (*f.block).clone(), private: private(&f.vis) });
                    }
                }
                Item::Impl(i) => {
                    for x in &i.items {
                        if let ImplItem::Fn(f) = x {
                            *names.entry(f.sig.ident.to_string()).or_insert(0) += 1;
                            if i.trait_.is_some() {
                                continue;
                            }
                            let t = super::model::type_name(&i.self_ty);
                            let id = in_mod(&format!("{t}::{}", f.sig.ident));
                            if !has_contract(&id) && ok(&f.sig) {
                                all.push(Helper { id, module: m.path.clone(), ty: t, sig: f.sig.clone(), body: f.block.clone(), private: private(&f.vis) });
                            }
                        }
                    }
                }
                _ => {}
            }
        }
    }
    let _ = quote!();
    Helpers { consts, all, names, items }
}

// ------------------------------------------------------------------ exits

/// The proof text at every exit of the function: `?`, return and the normal end.
pub struct Exits<'t> {
    pub text: &'t str,
    pub n: usize,
    pub unit: bool,
}
impl<'t> Exits<'t> {
    pub fn leave(&mut self, v: Expr, ret: bool) -> Expr {
        let x = format_ident!("__x{}", self.n);
        self.n += 1;
        let t = self.text.replace("$r", &x.to_string());
        if ret {
            parse_quote!({ let #x = #v; __raw!(#t); return #x })
        } else {
            parse_quote!({ let #x = #v; __raw!(#t); #x })
        }
    }
}
impl<'t> VisitMut for Exits<'t> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Try(t) => {
                let x = (*t.expr).clone();
                let l = self.leave(parse_quote!(Err(crate::shim::q_from(__e))), true);
                *e = parse_quote!(match #x { Ok(__v) => __v, Err(__e) => #l });
            }
            Expr::Return(r) => {
                let v: Expr = r.expr.as_ref().map(|x| (**x).clone()).unwrap_or(parse_quote!(()));
                *e = self.leave(v, true);
            }
            _ => {}
        }
    }
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
    fn visit_expr_async_mut(&mut self, _: &mut ExprAsync) {}
    fn visit_macro_mut(&mut self, _: &mut Macro) {}
}
pub fn exits(b: &mut Block, text: &str, unit: bool) {
    let mut x = Exits { text, n: 0, unit };
    x.visit_block_mut(b);
    if let Some(Stmt::Expr(_, None)) = b.stmts.last() {
        if let Some(Stmt::Expr(e, None)) = b.stmts.pop() {
            let l = x.leave(e, false);
            b.stmts.push(Stmt::Expr(l, None));
        }
    } else if unit {
        let t = text.replace("$r", "()");
        b.stmts.push(parse_quote!(__raw!(#t);));
    }
}

/// Array constants and constants of a type are written out where they are used.
pub fn write_consts(h: &Helpers, module: &str, self_ty: &str, b: &mut Block) {
    struct V<'a>(&'a Helpers, &'a str, &'a str);
    impl<'a> VisitMut for V<'a> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            visit_mut::visit_expr_mut(self, e);
            let Expr::Path(p) = &*e else { return };
            let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            let (t, n) = match segs.as_slice() {
                [n] => (String::new(), n),
                [t, n] => (if t == "Self" { self.2.to_string() } else { t.clone() }, n),
                _ => return,
            };
            if let Some(x) = self.0.consts.get(&(self.1.to_string(), t)).and_then(|m| m.get(n)) {
                *e = x.clone();
            }
        }
    }
    V(h, module, self_ty).visit_block_mut(b);
}
