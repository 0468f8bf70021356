//! Loops that only look or only collect are written with the iterator methods that mean the same;
//! match arms with alternatives and a guard are written out.
use std::collections::BTreeSet;
use quote::ToTokens;
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

/// Names a pattern binds.
fn bound(p: &Pat) -> BTreeSet<String> {
    struct V(BTreeSet<String>);
    impl<'ast> Visit<'ast> for V {
        fn visit_pat_ident(&mut self, i: &'ast PatIdent) {
            self.0.insert(i.ident.to_string());
        }
    }
    let mut v = V(BTreeSet::new());
    v.visit_pat(p);
    v.0
}
struct Uses<'a>(&'a BTreeSet<String>, bool);
impl<'a, 'ast> Visit<'ast> for Uses<'a> {
    fn visit_expr_path(&mut self, p: &'ast ExprPath) {
        if let Some(i) = p.path.get_ident() {
            self.1 |= self.0.contains(&i.to_string());
        }
    }
    fn visit_macro(&mut self, m: &'ast Macro) {
        let mut s = BTreeSet::new();
        super::locals::idents(m.tokens.clone(), &mut s);
        self.1 |= s.iter().any(|n| self.0.contains(n));
    }
}
fn mentions(e: &Expr, names: &BTreeSet<String>) -> bool {
    let mut u = Uses(names, false);
    u.visit_expr(e);
    u.1
}
fn mentions_block(b: &Block, names: &BTreeSet<String>) -> bool {
    let mut u = Uses(names, false);
    u.visit_block(b);
    u.1
}
/// An expression that may stand in a closure: it does not leave, wait or change anything.
struct Plain(bool);
impl<'ast> Visit<'ast> for Plain {
    fn visit_expr(&mut self, e: &'ast Expr) {
        match e {
            Expr::Try(_) | Expr::Return(_) | Expr::Break(_) | Expr::Continue(_) | Expr::Await(_) | Expr::Assign(_) | Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) | Expr::Async(_) | Expr::Unsafe(_) => self.0 = false,
            Expr::Reference(r) if r.mutability.is_some() => self.0 = false,
            Expr::Binary(b) if matches!(b.op, BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_) | BinOp::DivAssign(_) | BinOp::RemAssign(_) | BinOp::BitAndAssign(_) | BinOp::BitOrAssign(_) | BinOp::BitXorAssign(_) | BinOp::ShlAssign(_) | BinOp::ShrAssign(_)) => self.0 = false,
            Expr::Macro(m) if !m.mac.path.is_ident("matches") && !m.mac.path.is_ident("format") => self.0 = false,
            Expr::MethodCall(m) if ["next", "next_back", "push", "push_str", "pop", "insert", "remove", "clear", "take", "drain", "extend"].contains(&m.method.to_string().as_str()) => self.0 = false,
            _ => visit::visit_expr(self, e),
        }
    }
    fn visit_macro(&mut self, m: &'ast Macro) {
        let s = m.tokens.to_string();
        if s.contains('?') || s.contains("await") {
            self.0 = false;
        }
    }
}
fn plain(e: &Expr) -> bool {
    let mut p = Plain(true);
    p.visit_expr(e);
    p.0
}
fn plain_let(s: &Stmt) -> bool {
    match s {
        Stmt::Local(l) => match &l.init {
            Some(i) => i.diverge.is_none() && plain(&i.expr),
            None => false,
        },
        _ => false,
    }
}
fn only(b: &Block) -> Option<&Expr> {
    match b.stmts.as_slice() {
        [Stmt::Expr(e, _)] => Some(e),
        _ => None,
    }
}
/// `V.push(E)`, possibly under conditions and after plain lets: the place, and the body as an Option
fn push_of(b: &Block) -> Option<(Expr, Block, bool)> {
    let (last, lets) = b.stmts.split_last()?;
    if !lets.iter().all(plain_let) {
        return None;
    }
    let Stmt::Expr(e, _) = last else { return None };
    match e {
        Expr::MethodCall(m) if m.method == "push" && m.args.len() == 1 && super::inline::place(&m.receiver) && plain(&m.args[0]) => {
            let a = &m.args[0];
            Some(((*m.receiver).clone(), parse_quote!({ #(#lets)* #a }), false))
        }
        Expr::If(i) if i.else_branch.is_none() && cond(&i.cond) => {
            let (v, x, opt) = push_of(&i.then_branch)?;
            let c = &i.cond;
            let x: Expr = if opt { parse_quote!(#x) } else { parse_quote!(Some(#x)) };
            Some((v, parse_quote!({ #(#lets)* if #c { #x } else { None } }), true))
        }
        _ => None,
    }
}
fn cond(c: &Expr) -> bool {
    match c {
        Expr::Let(l) => plain(&l.expr),
        Expr::Binary(b) if matches!(b.op, BinOp::And(_)) => cond(&b.left) && cond(&b.right),
        c => plain(c),
    }
}
/// a block that always leaves the loop; with the statements that do it
fn leaves(b: &Block) -> Option<Block> {
    let (last, init) = b.stmts.split_last()?;
    struct Has(bool);
    impl<'ast> Visit<'ast> for Has {
        fn visit_expr_break(&mut self, _: &'ast ExprBreak) {
            self.0 = true;
        }
        fn visit_expr_continue(&mut self, _: &'ast ExprContinue) {
            self.0 = true;
        }
    }
    let mut h = Has(false);
    for s in init {
        h.visit_stmt(s);
    }
    if h.0 {
        return None;
    }
    match last {
        Stmt::Expr(Expr::Return(_), _) => Some(b.clone()),
        Stmt::Expr(Expr::Break(k), _) if k.label.is_none() && k.expr.is_none() => {
            let init = init.to_vec();
            Some(parse_quote!({ #(#init)* }))
        }
        _ => None,
    }
}
fn raise(f: &ExprForLoop) -> Option<Expr> {
    if f.label.is_some() || !plain(&f.expr) {
        return None;
    }
    let names = bound(&f.pat);
    let pat = &f.pat;
    let it: Expr = match &*f.expr {
        Expr::Reference(r) if r.mutability.is_none() => {
            let x = &r.expr;
            parse_quote!(#x.iter())
        }
        Expr::Reference(_) => return None,
        x @ (Expr::MethodCall(_) | Expr::Path(_) | Expr::Call(_)) => parse_quote!(#x.into_iter()),
        x => parse_quote!((#x).into_iter()),
    };
    let it = &it;
    // found or not
    if let Some(Expr::If(i)) = only(&f.body) {
        if i.else_branch.is_none() && !matches!(*i.cond, Expr::Let(_)) && plain(&i.cond) {
            if let Some(out) = leaves(&i.then_branch) {
                if !mentions_block(&out, &names) {
                    let c = &i.cond;
                    return Some(parse_quote!(if #it.any(|#pat| #c) #out));
                }
            }
        }
    }
    // collected
    if let Some((v, b, opt)) = push_of(&f.body) {
        let mut root = BTreeSet::new();
        super::locals::idents(v.to_token_stream(), &mut root);
        let body: Expr = match b.stmts.as_slice() {
            [Stmt::Expr(e, None)] => e.clone(),
            _ => parse_quote!(#b),
        };
        if !mentions(&body, &root) && !mentions(it, &root) && root.is_disjoint(&names) {
            return Some(if opt {
                parse_quote!(#v.extend(#it.filter_map(|#pat| #body)))
            } else {
                parse_quote!(#v.extend(#it.map(|#pat| #body)))
            });
        }
    }
    None
}

pub fn loops(b: &mut Block) {
    struct V;
    impl VisitMut for V {
        fn visit_block_mut(&mut self, b: &mut Block) {
            visit_mut::visit_block_mut(self, b);
            for s in &mut b.stmts {
                if let Stmt::Expr(Expr::ForLoop(f), _) = s {
                    if let Some(e) = raise(f) {
                        *s = Stmt::Expr(e, Some(Default::default()));
                    }
                }
            }
        }
    }
    V.visit_block_mut(b);
}

pub fn arms(b: &mut Block) {
    struct V;
    impl VisitMut for V {
        fn visit_expr_match_mut(&mut self, m: &mut ExprMatch) {
            visit_mut::visit_expr_match_mut(self, m);
            let mut out = vec![];
            for a in std::mem::take(&mut m.arms) {
                match &a.pat {
                    Pat::Or(o) if a.guard.is_some() => {
                        for c in &o.cases {
                            let mut x = a.clone();
                            x.pat = c.clone();
                            x.comma = Some(Default::default());
                            out.push(x);
                        }
                    }
                    _ => out.push(a),
                }
            }
            m.arms = out;
        }
    }
    V.visit_block_mut(b);
}

/// Arguments that are turned into iterators by the callee are turned into iterators here.
pub fn iterables(b: &mut Block) {
    struct V;
    impl VisitMut for V {
        fn visit_expr_method_call_mut(&mut self, m: &mut ExprMethodCall) {
            visit_mut::visit_expr_method_call_mut(self, m);
            let n = m.method.to_string();
            if m.args.len() == 1 && ["zip", "chain", "extend"].contains(&n.as_str()) {
                let a = m.args[0].clone();
                m.args[0] = match a {
                    Expr::MethodCall(_) | Expr::Path(_) | Expr::Call(_) => parse_quote!(#a.into_iter()),
                    a => parse_quote!((#a).into_iter()),
                };
                if n == "extend" {
                    m.method = Ident::new("v_extend", m.method.span());
                }
            }
        }
    }
    V.visit_block_mut(b);
}

/// `let S { a, mut b, .. } = self;`: the names are written as the fields they stand for.
pub fn unpack(sig: &mut Signature, b: &mut Block) {
    let Some(FnArg::Receiver(r)) = sig.inputs.first_mut() else { return };
    let by_ref = r.reference.is_some();
    let by_mut = r.mutability.is_some();
    let Some(k) = b.stmts.iter().position(|s| match s {
        Stmt::Local(l) => matches!(&l.pat, Pat::Struct(_)) && l.init.as_ref().map_or(false, |i| i.diverge.is_none() && matches!(&*i.expr, Expr::Path(p) if p.path.is_ident("self"))),
        _ => false,
    }) else { return };
    let Stmt::Local(l) = &b.stmts[k] else { return };
    let Pat::Struct(ps) = &l.pat else { return };
    let mut map: Vec<(String, Ident)> = vec![];
    let mut any_mut = false;
    for f in &ps.fields {
        let Member::Named(n) = &f.member else { return };
        match &*f.pat {
            Pat::Wild(_) => {}
            Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() => {
                any_mut |= i.mutability.is_some();
                map.push((i.ident.to_string(), n.clone()));
            }
            _ => return,
        }
    }
    if by_ref && any_mut {
        return;
    }
    let names: BTreeSet<String> = map.iter().map(|m| m.0.clone()).collect();
    // not bound again, and not inside the text of a macro
    struct Safe<'a>(&'a BTreeSet<String>, bool);
    impl<'a, 'ast> Visit<'ast> for Safe<'a> {
        fn visit_pat_ident(&mut self, i: &'ast PatIdent) {
            self.1 &= !self.0.contains(&i.ident.to_string());
        }
        fn visit_macro(&mut self, m: &'ast Macro) {
            let mut s = BTreeSet::new();
            super::locals::idents(m.tokens.clone(), &mut s);
            self.1 &= !s.iter().any(|n| self.0.contains(n)) && !self.0.iter().any(|n| m.tokens.to_string().contains(&format!("{{{n}")));
        }
        fn visit_item(&mut self, _: &'ast Item) {
            self.1 = false;
        }
    }
    let mut s = Safe(&names, true);
    for x in b.stmts.iter().skip(k + 1) {
        s.visit_stmt(x);
    }
    if !s.1 {
        return;
    }
    struct Put<'a>(&'a [(String, Ident)], bool, bool);
    impl<'a> Put<'a> {
        fn of(&self, e: &Expr) -> Option<Ident> {
            match e {
                Expr::Path(p) => {
                    let i = p.path.get_ident()?.to_string();
                    self.0.iter().find(|m| m.0 == i).map(|m| m.1.clone())
                }
                _ => None,
            }
        }
    }
    impl<'a> VisitMut for Put<'a> {
        fn visit_expr_struct_mut(&mut self, s: &mut ExprStruct) {
            for f in &mut s.fields {
                f.colon_token = Some(Default::default());
            }
            visit_mut::visit_expr_struct_mut(self, s);
        }
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            match e {
                Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) && self.1 => {
                    if let Some(n) = self.of(&u.expr) {
                        *e = parse_quote!(self.#n);
                        return;
                    }
                }
                Expr::MethodCall(m) => {
                    if let Some(n) = self.of(&m.receiver) {
                        *m.receiver = parse_quote!(self.#n);
                    }
                }
                Expr::Field(f) => {
                    if let Some(n) = self.of(&f.base) {
                        *f.base = parse_quote!(self.#n);
                    }
                }
                Expr::Path(_) => {
                    if let Some(n) = self.of(e) {
                        *e = match (self.1, self.2) {
                            (true, true) => parse_quote!((&mut self.#n)),
                            (true, false) => parse_quote!((&self.#n)),
                            _ => parse_quote!(self.#n),
                        };
                    }
                    return;
                }
                _ => {}
            }
            visit_mut::visit_expr_mut(self, e);
        }
    }
    let mut p = Put(&map, by_ref, by_mut);
    for x in b.stmts.iter_mut().skip(k + 1) {
        p.visit_stmt_mut(x);
    }
    if any_mut {
        r.mutability = Some(Default::default());
    }
    b.stmts.remove(k);
}

/// `I.try_for_each(|p| E)?` and `I.for_each(|p| E)` as loops
pub fn each(b: &mut Block) {
    fn go(e: &Expr) -> Option<(Expr, bool)> {
        let (m, q) = match e {
            Expr::Try(t) => match &*t.expr {
                Expr::MethodCall(m) if m.method == "try_for_each" => (m, true),
                _ => return None,
            },
            Expr::MethodCall(m) if m.method == "for_each" => (m, false),
            _ => return None,
        };
        let [Expr::Closure(c)] = m.args.iter().collect::<Vec<_>>()[..] else { return None };
        if c.inputs.len() != 1 || c.asyncness.is_some() || super::cps::leaves_expr(&c.body) {
            return None;
        }
        let p = match &c.inputs[0] {
            Pat::Type(t) => &*t.pat,
            p => p,
        };
        let (x, body) = (&m.receiver, &c.body);
        Some((if q { parse_quote!(for #p in #x { #body?; }) } else { parse_quote!(for #p in #x { #body; }) }, q))
    }
    struct V;
    impl VisitMut for V {
        fn visit_block_mut(&mut self, b: &mut Block) {
            visit_mut::visit_block_mut(self, b);
            let n = b.stmts.len();
            for (k, s) in b.stmts.iter_mut().enumerate() {
                if let Stmt::Expr(e, semi) = s {
                    if semi.is_some() || k + 1 == n {
                        if let Some((l, q)) = go(e) {
                            if !q || semi.is_some() {
                                *s = Stmt::Expr(l, None);
                            }
                        }
                    }
                }
            }
        }
    }
    V.visit_block_mut(b);
    // what the function answers with
    if let Some(Stmt::Expr(e, None)) = b.stmts.last() {
        if matches!(e, Expr::MethodCall(m) if m.method == "try_for_each") {
            let q: Expr = parse_quote!(#e?);
            if let Some((l, _)) = go(&q) {
                b.stmts.pop();
                b.stmts.push(Stmt::Expr(l, None));
                b.stmts.push(Stmt::Expr(parse_quote!(Ok(())), None));
            }
        }
    }
}
