//! Pinned receivers: `Pin<&mut T>` is `&mut T`, a projection is a match on the value itself.
use quote::ToTokens;
use std::collections::HashMap;
use syn::visit_mut::{self, VisitMut};
use syn::*;

fn pinned(t: &Type) -> Option<Type> {
    if let Type::Path(p) = t {
        let s = p.path.segments.last()?;
        if s.ident == "Pin" {
            if let PathArguments::AngleBracketed(a) = &s.arguments {
                if let Some(GenericArgument::Type(t @ Type::Reference(_))) = a.args.first() {
                    return Some(t.clone());
                }
            }
        }
    }
    None
}

struct Unpin<'a>(&'a HashMap<String, Ident>);
impl<'a> VisitMut for Unpin<'a> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        while let Some(x) = pinned(t) {
            *t = x;
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        // the fields of a projection are references
        struct NoMut;
        impl VisitMut for NoMut {
            fn visit_pat_ident_mut(&mut self, i: &mut PatIdent) {
                i.mutability = None;
            }
        }
        let path = match p {
            Pat::TupleStruct(x) => Some(&mut x.path),
            Pat::Struct(x) => Some(&mut x.path),
            Pat::Path(x) => Some(&mut x.path),
            _ => None,
        };
        if let Some(path) = path {
            if let Some(to) = self.0.get(&path.segments[0].ident.to_string()) {
                path.segments[0].ident = to.clone();
                NoMut.visit_pat_mut(p);
            }
        }
        visit_mut::visit_pat_mut(self, p);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let new = match e {
            Expr::MethodCall(m) if m.args.is_empty() => match m.method.to_string().as_str() {
                "project" | "get_mut" => Some((*m.receiver).clone()),
                "get_unchecked_mut" => Some((*m.receiver).clone()),
                "as_mut" => {
                    let r = &m.receiver;
                    Some(if r.to_token_stream().to_string() == "self" { parse_quote!(self) } else { parse_quote!((&mut *#r)) })
                }
                _ => None,
            },
            Expr::Call(c) if c.args.len() == 1 => match c.func.to_token_stream().to_string().replace(' ', "").as_str() {
                "Pin::new" | "Pin::new_unchecked" | "std::pin::Pin::new" | "std::pin::Pin::new_unchecked" => Some(c.args[0].clone()),
                _ => None,
            },
            Expr::Unsafe(u) if u.block.stmts.len() == 1 => match &u.block.stmts[0] {
                Stmt::Expr(x @ (Expr::Reference(_) | Expr::Path(_)), None) => Some(x.clone()),
                _ => None,
            },
            _ => None,
        };
        if let Some(n) = new {
            *e = n;
        }
    }
}

pub fn unpin(items: &mut [Item]) {
    let mut proj = HashMap::new();
    for i in items.iter() {
        if let Item::Enum(e) = i {
            for a in e.attrs.iter().filter(|a| a.path().is_ident("pin_project")) {
                let t = a.to_token_stream().to_string().replace(' ', "");
                for w in t.split(&['(', ')', ','][..]) {
                    if let Some(n) = w.strip_prefix("project=") {
                        proj.insert(n.to_string(), e.ident.clone());
                    }
                }
            }
        }
    }
    for i in items.iter_mut() {
        if let Item::Impl(i) = i {
            for f in i.items.iter_mut() {
                if let ImplItem::Fn(f) = f {
                    let pin = match f.sig.inputs.first() {
                        Some(FnArg::Receiver(r)) if r.colon_token.is_some() => pinned(&r.ty),
                        _ => None,
                    };
                    if let Some(Type::Reference(r)) = pin {
                        f.sig.inputs[0] = if r.mutability.is_some() { parse_quote!(&mut self) } else { parse_quote!(&self) };
                        let mut u = Unpin(&proj);
                        for a in f.sig.inputs.iter_mut().skip(1) {
                            u.visit_fn_arg_mut(a);
                        }
                        u.visit_return_type_mut(&mut f.sig.output);
                        u.visit_block_mut(&mut f.block);
                    }
                }
            }
        }
    }
}
