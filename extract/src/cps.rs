//! Statement sequences with `?` and `return` rewritten into nested matches, so that a block can
//! stand for an `async {..}.await` or for the body of a helper function.
use quote::quote;
use syn::visit::Visit;
use syn::*;

/// Does the expression contain `?` or `return` that leaves it (closures and async blocks hide them)?
pub struct Leaves {
    pub found: bool,
    pub ret_only: bool,
}
impl<'ast> Visit<'ast> for Leaves {
    fn visit_expr_try(&mut self, i: &'ast ExprTry) {
        if !self.ret_only {
            self.found = true;
        }
        visit::visit_expr_try(self, i);
    }
    fn visit_expr_return(&mut self, _: &'ast ExprReturn) {
        self.found = true;
    }
    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
    fn visit_expr_async(&mut self, _: &'ast ExprAsync) {}
    fn visit_item(&mut self, _: &'ast Item) {}
}
pub fn leaves_expr(e: &Expr) -> bool {
    let mut l = Leaves { found: false, ret_only: false };
    l.visit_expr(e);
    l.found
}
pub fn leaves_block(b: &Block) -> bool {
    let mut l = Leaves { found: false, ret_only: false };
    l.visit_block(b);
    l.found
}
pub fn returns_block(b: &Block) -> bool {
    let mut l = Leaves { found: false, ret_only: true };
    l.visit_block(b);
    l.found
}

fn unit() -> Expr {
    parse_quote!(())
}

/// The statements, then `rest` (built at every normal end).
pub fn block(stmts: &[Stmt], k: &dyn Fn(Expr) -> Result<Expr>) -> Result<Expr> {
    if stmts.is_empty() {
        return k(unit());
    }
    let (s, rest) = (&stmts[0], &stmts[1..]);
    match s {
        Stmt::Local(l) => {
            let Some(init) = &l.init else {
                let e = block(rest, k)?;
                return Ok(parse_quote!({ #s #e }));
            };
            if init.diverge.is_some() {
                if let Some((_, d)) = &init.diverge {
                    if leaves_expr(d) || leaves_expr(&init.expr) {
                        let pat = &l.pat;
                        let r = block(rest, k)?;
                        let d2 = expr(d, &|e| Ok(e))?;
                        return expr(&init.expr, &|v| Ok(parse_quote!(match #v { #pat => #r, _ => #d2 })));
                    }
                }
                let e = block(rest, k)?;
                return Ok(parse_quote!({ #s #e }));
            }
            if !leaves_expr(&init.expr) {
                let e = block(rest, k)?;
                return Ok(parse_quote!({ #s #e }));
            }
            let pat = l.pat.clone();
            expr(&init.expr, &|v| {
                let e = block(rest, k)?;
                Ok(parse_quote!({ let #pat = #v; #e }))
            })
        }
        Stmt::Expr(e, semi) => {
            if rest.is_empty() && semi.is_none() {
                return expr(e, k);
            }
            if !leaves_expr(e) {
                let r = block(rest, k)?;
                if semi.is_some() {
                    return Ok(parse_quote!({ #e; #r }));
                }
                return Ok(parse_quote!({ #e #r }));
            }
            expr(e, &|v| {
                let r = block(rest, k)?;
                if matches!(&v, Expr::Tuple(t) if t.elems.is_empty()) {
                    return Ok(r);
                }
                Ok(parse_quote!({ let _ = #v; #r }))
            })
        }
        Stmt::Item(_) | Stmt::Macro(_) => {
            let e = block(rest, k)?;
            Ok(parse_quote!({ #s #e }))
        }
    }
}

fn unsupported(e: &Expr) -> Error {
    Error::new(proc_macro2::Span::call_site(), format!("`?` or return inside {}", quote!(#e).to_string().chars().take(60).collect::<String>()))
}

/// Evaluate `e`, then continue with its value.
pub fn expr(e: &Expr, k: &dyn Fn(Expr) -> Result<Expr>) -> Result<Expr> {
    if !leaves_expr(e) {
        return k(e.clone());
    }
    match e {
        Expr::Try(t) => expr(&t.expr, &|v| {
            let ok = k(parse_quote!(__v))?;
            Ok(parse_quote!(match #v { Ok(__v) => #ok, Err(__e) => Err(crate::shim::q_from(__e)) }))
        }),
        Expr::Return(r) => match &r.expr {
            Some(x) => expr(x, &|v| Ok(v)),
            None => Ok(unit()),
        },
        Expr::Paren(p) => expr(&p.expr, k),
        Expr::Block(b) if b.label.is_none() => block(&b.block.stmts, k),
        Expr::Await(a) => {
            let kk = |v: Expr| k(parse_quote!(#v.await));
            expr(&a.base, &kk)
        }
        Expr::Reference(r) => {
            let m = r.mutability;
            expr(&r.expr, &|v| k(parse_quote!(&#m #v)))
        }
        Expr::Field(f) => {
            let m = &f.member;
            expr(&f.base, &|v| k(parse_quote!(#v.#m)))
        }
        Expr::If(i) => {
            if let Expr::Let(l) = &*i.cond {
                let pat = &l.pat;
                let a = block(&i.then_branch.stmts, k)?;
                let b = match &i.else_branch {
                    Some((_, b)) => expr(b, k)?,
                    None => k(unit())?,
                };
                return expr(&l.expr, &|v| Ok(parse_quote!(match #v { #pat => #a, _ => #b })));
            }
            let a = block(&i.then_branch.stmts, k)?;
            let b = match &i.else_branch {
                Some((_, b)) => expr(b, k)?,
                None => k(unit())?,
            };
            expr(&i.cond, &|c| Ok(parse_quote!(if #c { #a } else { #b })))
        }
        Expr::Match(m) => {
            let mut arms: Vec<Arm> = vec![];
            for a in &m.arms {
                if a.guard.as_ref().map_or(false, |g| leaves_expr(&g.1)) {
                    return Err(unsupported(e));
                }
                let mut a2 = a.clone();
                let body = expr(&a.body, k)?;
                a2.body = parse_quote!({ #body });
                a2.comma = Some(Default::default());
                arms.push(a2);
            }
            expr(&m.expr, &|v| Ok(parse_quote!(match #v { #(#arms)* })))
        }
        Expr::MethodCall(c) => {
            // receiver first, then the arguments in order; only the first leaving operand may be
            // evaluated before the others, so everything left of it must be free of effects
            if leaves_expr(&c.receiver) {
                if c.args.iter().any(leaves_expr) {
                    return Err(unsupported(e));
                }
                let c2 = c.clone();
                return expr(&c.receiver, &|v| {
                    let mut x = c2.clone();
                    x.receiver = Box::new(v);
                    k(Expr::MethodCall(x))
                });
            }
            args(&c.args.iter().cloned().collect::<Vec<_>>(), &|v| {
                let mut x = c.clone();
                x.args = v.into_iter().collect();
                k(Expr::MethodCall(x))
            }, e)
        }
        Expr::Call(c) => args(&c.args.iter().cloned().collect::<Vec<_>>(), &|v| {
            let mut x = c.clone();
            x.args = v.into_iter().collect();
            k(Expr::Call(x))
        }, e),
        Expr::Unary(u) => {
            let op = u.op;
            expr(&u.expr, &|v| k(parse_quote!(#op #v)))
        }
        Expr::Assign(a) if !leaves_expr(&a.left) => {
            let l = &a.left;
            expr(&a.right, &|v| {
                let r = k(unit())?;
                Ok(parse_quote!({ #l = #v; #r }))
            })
        }
        _ => Err(unsupported(e)),
    }
}

fn args(a: &[Expr], k: &dyn Fn(Vec<Expr>) -> Result<Expr>, whole: &Expr) -> Result<Expr> {
    let n = a.iter().filter(|x| leaves_expr(x)).count();
    if n != 1 {
        return Err(unsupported(whole));
    }
    let i = a.iter().position(leaves_expr).unwrap();
    if a[..i].iter().any(|x| !pure(x)) {
        return Err(unsupported(whole));
    }
    expr(&a[i], &|v| {
        let mut b = a.to_vec();
        b[i] = v;
        k(b)
    })
}

pub fn pure(e: &Expr) -> bool {
    match e {
        Expr::Path(_) | Expr::Lit(_) => true,
        Expr::Field(f) => pure(&f.base),
        Expr::Reference(r) => pure(&r.expr),
        Expr::Paren(p) => pure(&p.expr),
        Expr::Unary(u) => pure(&u.expr),
        Expr::MethodCall(c) => pure(&c.receiver) && c.args.iter().all(pure) && matches!(c.method.to_string().as_str(), "clone" | "len" | "is_empty" | "as_bytes" | "as_str" | "as_ref"),
        _ => false,
    }
}
