//! Expansion of nom 7 parser expressions into matches, following the definitions of the combinators.
use crate::model::Tables;
use quote::{format_ident, quote};
use std::cell::Cell;
use syn::*;

pub struct Nom<'a> {
    pub tb: &'a Tables,
    pub module: &'a str,
    pub n: Cell<usize>,
    pub problems: std::cell::RefCell<Vec<String>>,
}

impl<'a> Nom<'a> {
    /// Full path of a name imported from nom (None if it is not from nom).
    fn nom_path(&self, e: &Expr) -> Option<String> {
        if let Expr::Path(p) = e {
            let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            if segs[0] == "nom" {
                return Some(segs.join("::"));
            }
            let uses = self.tb.uses.get(self.module)?;
            let full = uses.get(&segs[0])?;
            let mut full = full.clone();
            for s in &segs[1..] {
                full = format!("{full}::{s}");
            }
            if full.starts_with("nom::") {
                return Some(full);
            }
        }
        None
    }
    pub fn is_parser(&self, e: &Expr) -> bool {
        match e {
            Expr::Call(c) => self.nom_path(&c.func).map_or(false, |p| p != "nom::Err" && !p.starts_with("nom::Err::") && !p.starts_with("nom::error") && !p.starts_with("nom::Needed")),
            Expr::Paren(p) => self.is_parser(&p.expr),
            _ => false,
        }
    }
    fn fresh(&self, s: &str) -> Ident {
        let n = self.n.get();
        self.n.set(n + 1);
        format_ident!("__n{}{}", s, n)
    }
    fn problem(&self, s: String) -> Expr {
        self.problems.borrow_mut().push(s);
        parse_quote!(crate::shim::v_unsupported())
    }
    fn tuple_args(&self, e: &Expr) -> Vec<Expr> {
        match e {
            Expr::Tuple(t) => t.elems.iter().cloned().collect(),
            Expr::Paren(p) => vec![(*p.expr).clone()],
            other => vec![other.clone()],
        }
    }
    /// Sequence of parsers; `sel` builds the output from the result names.
    fn seq(&self, ps: &[Expr], input: &Expr, sel: impl Fn(&[Ident]) -> Expr) -> Expr {
        let outs: Vec<Ident> = ps.iter().map(|_| self.fresh("o")).collect();
        let rests: Vec<Ident> = ps.iter().map(|_| self.fresh("r")).collect();
        let last = rests.last().unwrap().clone();
        let out = sel(&outs);
        let mut e: Expr = parse_quote!(Ok((#last, #out)));
        for i in (0..ps.len()).rev() {
            let inp: Expr = if i == 0 {
                input.clone()
            } else {
                let r = &rests[i - 1];
                parse_quote!(#r)
            };
            let p = self.expand(&ps[i], &inp);
            let (r, o) = (&rests[i], &outs[i]);
            e = parse_quote!(match #p { Ok((#r, #o)) => #e, Err(__e) => Err(__e) });
        }
        e
    }
    pub fn expand(&self, p: &Expr, input: &Expr) -> Expr {
        if let Expr::Paren(x) = p {
            return self.expand(&x.expr, input);
        }
        if let Expr::Closure(c) = p {
            let pat = &c.inputs[0];
            let pat = if let Pat::Type(t) = pat { (*t.pat).clone() } else { pat.clone() };
            let mut body = (*c.body).clone();
            visit_mut::VisitMut::visit_expr_mut(&mut Again(self), &mut body);
            return parse_quote!({ let #pat = #input; #body });
        }
        if let Expr::Path(pp) = p {
            // a parser function: of the crate, or of nom without arguments
            if let Some(full) = self.nom_path(p) {
                let path: Path = parse_str(&format!("crate::shim::{full}")).unwrap();
                return parse_quote!(#path(#input));
            }
            return parse_quote!(#pp(#input));
        }
        if let Expr::Call(c) = p {
            if let Some(full) = self.nom_path(&c.func) {
                let name = full.rsplit("::").next().unwrap().to_string();
                let a: Vec<Expr> = c.args.iter().cloned().collect();
                match name.as_str() {
                    "tuple" => {
                        let ps = self.tuple_args(&a[0]);
                        return self.seq(&ps, input, |o| parse_quote!((#(#o),*)));
                    }
                    "pair" => return self.seq(&a, input, |o| parse_quote!((#(#o),*))),
                    "preceded" => return self.seq(&a, input, |o| { let x = &o[1]; parse_quote!(#x) }),
                    "terminated" => return self.seq(&a, input, |o| { let x = &o[0]; parse_quote!(#x) }),
                    "delimited" => return self.seq(&a, input, |o| { let x = &o[1]; parse_quote!(#x) }),
                    "separated_pair" => {
                        return self.seq(&a, input, |o| {
                            let (x, y) = (&o[0], &o[2]);
                            parse_quote!((#x, #y))
                        })
                    }
                    "alt" => {
                        let ps = self.tuple_args(&a[0]);
                        let mut it = ps.iter().rev();
                        let mut e = self.expand(it.next().unwrap(), input);
                        for p in it {
                            let x = self.expand(p, input);
                            e = parse_quote!(match #x {
                                Err(crate::shim::nom::Err::Error(_)) => #e,
                                __res => __res
                            });
                        }
                        return e;
                    }
                    "map" | "value" => {
                        let (parser, f) = if name == "map" { (&a[0], Some(&a[1])) } else { (&a[1], None) };
                        let x = self.expand(parser, input);
                        let r = self.fresh("r");
                        let body: Expr = match f {
                            None => {
                                let v = &a[0];
                                return parse_quote!(match #x { Ok((#r, _)) => Ok((#r, #v)), Err(__e) => Err(__e) });
                            }
                            Some(Expr::Closure(c)) => {
                                let pat = &c.inputs[0];
                                let pat = if let Pat::Type(t) = pat { (*t.pat).clone() } else { pat.clone() };
                                let b = &c.body;
                                return parse_quote!(match #x { Ok((#r, #pat)) => Ok((#r, #b)), Err(__e) => Err(__e) });
                            }
                            Some(f) => parse_quote!((#f)(__o)),
                        };
                        return parse_quote!(match #x { Ok((#r, __o)) => Ok((#r, #body)), Err(__e) => Err(__e) });
                    }
                    "complete" => {
                        let x = self.expand(&a[0], input);
                        return parse_quote!(match #x {
                            Err(crate::shim::nom::Err::Incomplete(_)) =>
                                Err(crate::shim::nom::Err::Error(crate::shim::nom::error::Error {
                                    input: #input, code: crate::shim::nom::error::ErrorKind::Complete })),
                            __res => __res
                        });
                    }
                    "cut" => {
                        let x = self.expand(&a[0], input);
                        return parse_quote!(match #x {
                            Err(crate::shim::nom::Err::Error(__e)) => Err(crate::shim::nom::Err::Failure(__e)),
                            __res => __res
                        });
                    }
                    "peek" => {
                        let x = self.expand(&a[0], input);
                        return parse_quote!(match #x { Ok((_, __o)) => Ok((#input, __o)), Err(__e) => Err(__e) });
                    }
                    "opt" => {
                        let x = self.expand(&a[0], input);
                        return parse_quote!(match #x {
                            Ok((__r, __o)) => Ok((__r, Some(__o))),
                            Err(crate::shim::nom::Err::Error(_)) => Ok((#input, None)),
                            Err(__e) => Err(__e)
                        });
                    }
                    "many0" => {
                        // nom 7: repeat until Error; Incomplete and Failure propagate; a parser
                        // that consumes nothing is an Error.
                        let cur: Expr = parse_quote!(__many_i);
                        let x = self.expand(&a[0], &cur);
                        return parse_quote!({
                            let mut __many_i = #input;
                            let mut __many_acc = Vec::new();
                            let mut __many_end: Option<crate::shim::nom::Err<crate::shim::nom::error::Error<&str>>> = None;
                            let mut __many_go: bool = true;
                            while __many_go {
                                match #x {
                                    Err(crate::shim::nom::Err::Error(_)) => { __many_go = false; }
                                    Err(__e) => { __many_end = Some(__e); __many_go = false; }
                                    Ok((__many_r, __many_o)) => {
                                        if crate::shim::nom::same_len(__many_r, __many_i) {
                                            __many_end = Some(crate::shim::nom::Err::Error(crate::shim::nom::error::Error {
                                                input: __many_r, code: crate::shim::nom::error::ErrorKind::Many0 }));
                                            __many_go = false;
                                        } else {
                                            __many_i = __many_r;
                                            __many_acc.push(__many_o);
                                        }
                                    }
                                }
                            }
                            match __many_end { None => Ok((__many_i, __many_acc)), Some(__e) => Err(__e) }
                        });
                    }
                    _ => {
                        // a leaf: its arguments followed by the input
                        let path: Path = parse_str(&format!("crate::shim::{full}")).unwrap();
                        return parse_quote!(#path(#(#a,)* #input));
                    }
                }
            }
            // call of a crate function returning a parser
            return self.problem(format!("parser-valued call {}", quote!(#p)));
        }
        self.problem(format!("parser expression {}", quote!(#p)))
    }
}

struct Again<'n, 'a>(&'n Nom<'a>);

impl<'n, 'a> visit_mut::VisitMut for Again<'n, 'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Call(c) = e {
            if self.0.is_parser(&c.func) && c.args.len() == 1 {
                let x = self.0.expand(&c.func, &c.args[0]);
                *e = x;
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

impl<'a> visit_mut::VisitMut for Nom<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        Again(self).visit_expr_mut(e)
    }
}
