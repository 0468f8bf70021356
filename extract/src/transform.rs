//! Rewriting of one function body into the form Verus accepts.
use crate::contracts::Contracts;
use crate::cps;
use crate::model::*;
use proc_macro2::TokenStream;
use quote::{format_ident, quote};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

/// Methods of std types that go to the shim traits (prefix `v_`).
pub const RENAMED: &[&str] = &[
    "iter", "into_iter", "chars", "char_indices", "bytes", "split_whitespace", "split_ascii_whitespace",
    "lines", "split", "splitn", "find", "rfind", "split_at", "split_once", "strip_prefix", "strip_suffix",
    "trim", "trim_start", "trim_end", "trim_matches", "trim_start_matches", "trim_end_matches", "rsplit_once", "to_ascii_uppercase", "to_ascii_lowercase", "to_uppercase",
    "to_lowercase", "eq_ignore_ascii_case", "starts_with", "ends_with", "contains", "replace", "as_ref",
    "as_deref", "to_string", "to_owned", "is_ascii", "is_ascii_control", "is_ascii_whitespace",
    "is_ascii_graphic", "is_ascii_digit", "is_ascii_alphanumeric", "is_ascii_alphabetic", "is_ascii_uppercase",
    "is_ascii_lowercase", "is_ascii_punctuation", "is_ascii_hexdigit", "is_control", "is_whitespace", "len_utf8", "to_vec", "concat", "join",
    "as_bytes", "first", "last", "get", "is_empty", "len", "unwrap_or_default", "into_bytes",
    "is_some_and", "is_none_or", "map_or", "map_or_else", "unwrap_or_else", "split_first", "split_last", "into_string",
    "is_alphanumeric", "is_numeric", "parse", "is_char_boundary", "into_boxed_slice", "windows", "chunks",
    "saturating_sub", "any", "all", "position", "get_mut", "iter_mut", "last_mut", "first_mut",
];

/// Associated functions of std types that go to shim functions.
const ASSOC: &[(&str, &str)] = &[
    ("String::from_utf8", "string_from_utf8"),
    ("String::from_utf8_lossy", "string_from_utf8_lossy"),
    ("String::from", "string_from"),
    ("String::with_capacity", "string_with_capacity"),
    ("str::from_utf8", "str_from_utf8"),
    ("Vec::from", "vec_from"),
    ("cmp::min", "cmp_min"),
    ("u8::from", "u8_from"),
    ("u16::from", "u16_from"),
    ("u32::from", "u32_from"),
    ("u64::from", "u64_from"),
    ("usize::from", "usize_from"),
    ("char::from", "char_from"),
    ("cmp::max", "cmp_max"),
];

#[derive(Default)]
pub struct FnReport {
    pub problems: Vec<String>,
    pub loops: Vec<String>,
    pub calls: BTreeSet<String>,
    pub muts: Vec<String>,
    pub names: BTreeSet<String>,
    pub dropped: Vec<String>,
    pub lits: Vec<String>,
}

pub struct Tx<'a> {
    pub tb: &'a Tables,
    pub con: &'a Contracts,
    pub module: String,
    pub self_ty: String,
    pub env: HashMap<String, Kind>,
    pub rep: FnReport,
    pub n: usize,
    pub bytes: &'a mut Vec<Vec<u8>>,
    pub loop_text: BTreeMap<usize, String>,
}

fn method_ident(i: &Ident, args: &syn::punctuated::Punctuated<Expr, Token![,]>, tb: &Tables) -> Option<Ident> {
    let n = i.to_string();
    let closure = match args.first() {
        Some(Expr::Closure(_)) => true,
        Some(Expr::Macro(m)) => m.mac.path.is_ident("__tok"),
        _ => false,
    };
    if n == "find" && args.len() == 1 && !closure {
        // A text is searched for what is no predicate.
        Some(format_ident!("v_find_p"))
    } else if matches!(n.as_str(), "contains" | "starts_with" | "ends_with" | "strip_prefix" | "strip_suffix") && closure {
        Some(format_ident!("v_{}_by", n))
    } else if RENAMED.contains(&n.as_str()) && !tb.rets.contains_key(&n) {
        Some(format_ident!("v_{}", n))
    } else {
        None
    }
}

pub fn block_of(e: Expr) -> Block {
    match e {
        Expr::Block(b) if b.label.is_none() => b.block,
        other => parse_quote!({ #other }),
    }
}

/// Pass 1: logging, write!/format!, vec!, matches!, bail!, ...; async blocks; numbering of loops.
impl<'a> Tx<'a> {
    fn fresh(&mut self, s: &str) -> Ident {
        self.n += 1;
        format_ident!("__{}{}", s, self.n)
    }
    pub fn problem(&mut self, s: impl Into<String>) {
        let s = s.into();
        if !self.rep.problems.contains(&s) {
            self.rep.problems.push(s);
        }
    }

    fn fmt_pieces(&mut self, lit: &LitStr, args: &[Expr], named: &HashMap<String, Expr>) -> Vec<(String, Option<(Expr, String)>)> {
        // list of (literal text, then an argument with its format spec)
        let s: Vec<char> = lit.value().chars().collect();
        let mut out = vec![];
        let mut cur = String::new();
        let mut i = 0;
        let mut next = 0;
        while i < s.len() {
            if s[i] == '{' && i + 1 < s.len() && s[i + 1] == '{' {
                cur.push('{');
                i += 2;
            } else if s[i] == '}' && i + 1 < s.len() && s[i + 1] == '}' {
                cur.push('}');
                i += 2;
            } else if s[i] == '{' {
                let mut j = i + 1;
                while j < s.len() && s[j] != '}' {
                    j += 1;
                }
                let inner: String = s[i + 1..j].iter().collect();
                let (name, spec) = match inner.split_once(':') {
                    Some((a, b)) => (a.trim().to_string(), b.trim().to_string()),
                    None => (inner.trim().to_string(), String::new()),
                };
                let arg: Expr = if name.is_empty() {
                    next += 1;
                    args.get(next - 1).cloned().unwrap_or(parse_quote!(()))
                } else if let Ok(k) = name.parse::<usize>() {
                    args.get(k).cloned().unwrap_or(parse_quote!(()))
                } else if let Some(e) = named.get(&name) {
                    e.clone()
                } else {
                    let id = format_ident!("{}", name);
                    parse_quote!(#id)
                };
                out.push((std::mem::take(&mut cur), Some((arg, spec))));
                i = j + 1;
            } else {
                cur.push(s[i]);
                i += 1;
            }
        }
        if !cur.is_empty() {
            out.push((cur, None));
        }
        // arguments that are string literals are text
        let mut merged: Vec<(String, Option<(Expr, String)>)> = vec![];
        let mut carry = String::new();
        for (text, arg) in out {
            carry.push_str(&text);
            match arg {
                Some((Expr::Lit(ExprLit { lit: Lit::Str(s), .. }), spec)) if spec.is_empty() => carry.push_str(&s.value()),
                Some((Expr::Lit(ExprLit { lit: Lit::Char(c), .. }), spec)) if spec.is_empty() => carry.push(c.value()),
                Some(a) => merged.push((std::mem::take(&mut carry), Some(a))),
                None => {}
            }
        }
        if !carry.is_empty() {
            merged.push((carry, None));
        }
        merged
    }

    fn parse_fmt(&mut self, ts: TokenStream) -> Option<(Vec<Expr>, LitStr, Vec<Expr>, HashMap<String, Expr>)> {
        let list = syn::parse::Parser::parse2(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated, ts).ok()?;
        let mut pre = vec![];
        let mut lit = None;
        let mut args = vec![];
        let mut named = HashMap::new();
        for e in list {
            if lit.is_none() {
                if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &e {
                    lit = Some(s.clone());
                } else {
                    pre.push(e);
                }
            } else if let Expr::Assign(a) = &e {
                named.insert(quote!(#a).to_string().split('=').next().unwrap().trim().to_string(), (*a.right).clone());
            } else {
                args.push(e);
            }
        }
        Some((pre, lit?, args, named))
    }

    fn fmt_call(&mut self, spec: &str, var: &Ident, f: &Expr) -> Expr {
        match spec {
            "" => parse_quote!(crate::shim::std::fmt::Display::fmt(#var, #f)),
            "?" | "#?" => parse_quote!(crate::shim::fmt_debug(#var, #f)),
            "02X" => parse_quote!(crate::shim::fmt_hex2_upper(#var, #f)),
            "02x" => parse_quote!(crate::shim::fmt_hex2_lower(#var, #f)),
            "X" => parse_quote!(crate::shim::fmt_hex_upper(#var, #f)),
            "x" => parse_quote!(crate::shim::fmt_hex_lower(#var, #f)),
            other => {
                self.problem(format!("format specification {{:{other}}}"));
                parse_quote!(crate::shim::fmt_debug(#var, #f))
            }
        }
    }

    fn write_macro(&mut self, ts: TokenStream, newline: bool) -> Option<Expr> {
        let (pre, lit, args, named) = self.parse_fmt(ts)?;
        if pre.len() != 1 {
            return None;
        }
        let f = pre[0].clone();
        let lit = if newline { LitStr::new(&(lit.value() + "\n"), lit.span()) } else { lit };
        let pieces = self.fmt_pieces(&lit, &args, &named);
        let mut lets: Vec<Stmt> = vec![];
        let mut calls: Vec<Expr> = vec![];
        for (text, arg) in pieces {
            if !text.is_empty() {
                calls.push(parse_quote!(#f.write_str(#text)));
            }
            if let Some((a, spec)) = arg {
                let v = self.fresh("w");
                lets.push(parse_quote!(let #v = &(#a);));
                calls.push(self.fmt_call(&spec, &v, &f));
            }
        }
        if calls.is_empty() {
            calls.push(parse_quote!(#f.write_str("")));
        }
        let mut e: Expr = calls.pop().unwrap();
        while let Some(c) = calls.pop() {
            e = parse_quote!(match #c { Ok(_) => #e, Err(__we) => Err(__we) });
        }
        Some(parse_quote!({ #(#lets)* #e }))
    }

    fn format_macro(&mut self, ts: TokenStream) -> Option<Expr> {
        let (pre, lit, args, named) = self.parse_fmt(ts)?;
        if !pre.is_empty() {
            return None;
        }
        let pieces = self.fmt_pieces(&lit, &args, &named);
        let mut lets: Vec<Stmt> = vec![];
        let mut calls: Vec<Stmt> = vec![];
        let f: Expr = parse_quote!(&mut __fm);
        for (text, arg) in pieces {
            if !text.is_empty() {
                calls.push(parse_quote!(crate::shim::must(__fm.write_str(#text), &__fm);));
            }
            if let Some((a, spec)) = arg {
                let v = self.fresh("w");
                lets.push(parse_quote!(let #v = &(#a);));
                let c = self.fmt_call(&spec, &v, &f);
                let r = self.fresh("wr");
                calls.push(parse_quote!(let #r = #c;));
                calls.push(parse_quote!(crate::shim::must(#r, &__fm);));
            }
        }
        Some(parse_quote!({ #(#lets)* let mut __fm = crate::shim::std::fmt::Formatter::v_new(); #(#calls)* __fm.v_into_string() }))
    }

    /// The operands of a dropped log statement that could panic are kept.
    fn log_macro(&mut self, ts: TokenStream) -> Expr {
        self.rep.dropped.push("log statement".into());
        struct Risky(bool);
        impl<'ast> Visit<'ast> for Risky {
            fn visit_expr_index(&mut self, _: &'ast ExprIndex) {
                self.0 = true;
            }
            fn visit_expr_method_call(&mut self, i: &'ast ExprMethodCall) {
                if matches!(i.method.to_string().as_str(), "unwrap" | "expect" | "split_at" | "remove" | "swap_remove" | "unwrap_err" | "pop") {
                    self.0 = true;
                }
                visit::visit_expr_method_call(self, i);
            }
            fn visit_expr_binary(&mut self, i: &'ast ExprBinary) {
                if matches!(i.op, BinOp::Add(_) | BinOp::Sub(_) | BinOp::Mul(_) | BinOp::Div(_) | BinOp::Rem(_) | BinOp::Shl(_) | BinOp::Shr(_)) {
                    self.0 = true;
                }
                visit::visit_expr_binary(self, i);
            }
            fn visit_expr_await(&mut self, _: &'ast ExprAwait) {
                self.0 = true;
            }
            fn visit_expr_assign(&mut self, _: &'ast ExprAssign) {
                self.0 = true;
            }
            fn visit_expr_macro(&mut self, _: &'ast ExprMacro) {
                self.0 = true;
            }
        }
        let mut stmts: Vec<Stmt> = vec![];
        if let Some((_, _, args, named)) = self.parse_fmt(ts) {
            for a in args.into_iter().chain(named.into_values()) {
                let mut r = Risky(false);
                r.visit_expr(&a);
                if r.0 {
                    stmts.push(parse_quote!(let _ = &(#a);));
                }
            }
        }
        parse_quote!({ #(#stmts)* })
    }

    fn expand_macro(&mut self, m: &Macro) -> Option<Expr> {
        let name = m.path.segments.last().unwrap().ident.to_string();
        let ts = m.tokens.clone();
        Some(match name.as_str() {
            "write" => self.write_macro(ts, false)?,
            "writeln" => self.write_macro(ts, true)?,
            "format" => self.format_macro(ts)?,
            "debug" | "info" | "trace" | "warn" | "error" | "log" => self.log_macro(ts),
            "unreachable" | "panic" | "todo" | "unimplemented" => parse_quote!(crate::shim::v_unreachable()),
            "vec" => {
                if let Ok(list) = syn::parse::Parser::parse2(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated, ts.clone()) {
                    let v: Vec<Expr> = list.into_iter().collect();
                    if v.is_empty() {
                        parse_quote!(Vec::new())
                    } else {
                        parse_quote!({ let mut __vec = Vec::new(); #(__vec.push(#v);)* __vec })
                    }
                } else {
                    struct Rep(Expr, Expr);
                    impl syn::parse::Parse for Rep {
                        fn parse(i: syn::parse::ParseStream) -> Result<Self> {
                            let a: Expr = i.parse()?;
                            i.parse::<Token![;]>()?;
                            Ok(Rep(a, i.parse()?))
                        }
                    }
                    let r: Rep = parse2(ts).ok()?;
                    let (a, b) = (r.0, r.1);
                    parse_quote!(crate::shim::vec_from_elem(#a, #b))
                }
            }
            "matches" => {
                let (a, p, g) = matches_parts(ts)?;
                match g {
                    Some(g) => parse_quote!(match #a { #p if #g => true, _ => false }),
                    None => parse_quote!(match #a { #p => true, _ => false }),
                }
            }
            "bail" => parse_quote!(return Err(crate::shim::anyhow::v_error())),
            "anyhow" => parse_quote!(crate::shim::anyhow::v_error()),
            "ensure" => {
                let list = syn::parse::Parser::parse2(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated, ts).ok()?;
                let c = list.first()?;
                parse_quote!(if !(#c) { return Err(crate::shim::anyhow::v_error()); })
            }
            "assert" | "debug_assert" => {
                let list = syn::parse::Parser::parse2(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated, ts).ok()?;
                let c = list.first()?;
                parse_quote!(if !(#c) { crate::shim::v_unreachable() })
            }
            "assert_eq" | "debug_assert_eq" => {
                let list = syn::parse::Parser::parse2(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated, ts).ok()?;
                let (a, b) = (list.get(0)?, list.get(1)?);
                parse_quote!(if !((#a) == (#b)) { crate::shim::v_unreachable() })
            }
            "__raw" | "__tok" | "__spec" => return None,
            _ => {
                self.problem(format!("macro {name}!"));
                parse_quote!(crate::shim::v_unsupported())
            }
        })
    }

    // ---------------------------------------------------------------- kinds

    pub fn kind(&self, e: &Expr) -> Kind {
        match e {
            Expr::Paren(p) => self.kind(&p.expr),
            Expr::Await(a) => self.kind(&a.base),
            Expr::Reference(r) => self.kind(&r.expr),
            Expr::Path(p) => {
                let s = p.path.segments.last().unwrap().ident.to_string();
                if s == "None" {
                    return Kind::Opt;
                }
                p.path.get_ident().and_then(|i| self.env.get(&i.to_string()).copied()).unwrap_or(Kind::Unknown)
            }
            Expr::Field(f) => {
                if let Member::Named(n) = &f.member {
                    let n = n.to_string();
                    if let Expr::Path(p) = &*f.base {
                        if p.path.is_ident("self") {
                            if let Some(t) = self.tb.structs.get(&self.self_ty).and_then(|m| m.get(&n)) {
                                return kind_of_type(t, self.tb);
                            }
                        }
                    }
                    if let Some(ts) = self.tb.fields.get(&n) {
                        let k = kind_of_type(&ts[0], self.tb);
                        if ts.iter().all(|t| kind_of_type(t, self.tb) == k) {
                            return k;
                        }
                    }
                }
                Kind::Unknown
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let s = p.path.segments.last().unwrap().ident.to_string();
                    match s.as_str() {
                        "Some" => return Kind::Opt,
                        "Ok" | "Err" => return Kind::Res,
                        _ => {}
                    }
                    return self.ret_kind(&s);
                }
                Kind::Unknown
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match n.as_str() {
                    "first" | "last" | "get" | "next" | "find" | "rfind" | "position" | "ok" | "err" | "pop" | "nth"
                    | "strip_prefix" | "strip_suffix" | "split_once" | "rsplit_once" | "split_first" | "split_last" | "max" | "min" | "checked_add"
                    | "checked_sub" | "find_map" | "take" | "as_deref"
                        if !self.tb.rets.contains_key(&n) && !(n == "take" && self.kind(&m.receiver) == Kind::Iter) =>
                    {
                        Kind::Opt
                    }
                    "iter" | "into_iter" | "chars" | "char_indices" | "bytes" | "split_whitespace" | "lines" | "split"
                    | "skip" | "enumerate" | "rev" | "zip" | "chain" | "peekable" | "skip_while" | "take_while" => Kind::Iter,
                    "ok_or" | "ok_or_else" | "parse" => Kind::Res,
                    "as_ref" | "cloned" | "copied" | "as_mut" | "clone" => match self.kind(&m.receiver) {
                        Kind::Unknown if n == "as_ref" => Kind::Unknown,
                        k => k,
                    },
                    "map" | "and_then" | "or_else" | "map_err" | "filter" | "or" | "inspect" => self.kind(&m.receiver),
                    _ => self.ret_kind(&n),
                }
            }
            _ => Kind::Unknown,
        }
    }
    fn ret_kind(&self, n: &str) -> Kind {
        match self.tb.rets.get(n) {
            Some(ts) => {
                let k = kind_of_type(&ts[0], self.tb);
                if ts.iter().all(|t| kind_of_type(t, self.tb) == k) {
                    k
                } else {
                    Kind::Unknown
                }
            }
            None => Kind::Unknown,
        }
    }

    /// `f` applied to `args`: a closure is inlined, a path is called.
    fn apply(&mut self, f: &Expr, args: &[Expr]) -> Option<Expr> {
        match f {
            Expr::Closure(c) => {
                if cps::leaves_expr(&c.body) || c.inputs.len() != args.len() || c.asyncness.is_some() {
                    return None;
                }
                let mut lets: Vec<Stmt> = vec![];
                for (p, a) in c.inputs.iter().zip(args) {
                    let p = if let Pat::Type(t) = p { (*t.pat).clone() } else { p.clone() };
                    if let Pat::Wild(_) = p {
                        continue;
                    }
                    lets.push(parse_quote!(let #p = #a;));
                }
                let b = &c.body;
                Some(parse_quote!({ #(#lets)* #b }))
            }
            Expr::Path(p) => Some(self.call_path(p, args)),
            _ => None,
        }
    }

    fn call_path(&mut self, p: &ExprPath, args: &[Expr]) -> Expr {
        let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
        let last = segs.last().unwrap().clone();
        let first_lower = last.chars().next().map_or(false, |c| c.is_lowercase());
        if segs.len() >= 2 && first_lower && !args.is_empty() {
            let q = &segs[segs.len() - 2];
            if matches!(q.as_str(), "ToString" | "String" | "str" | "char" | "u8" | "AsRef" | "Vec" | "ToOwned" | "Option" | "Clone" | "Into") {
                if !ASSOC.iter().any(|(a, _)| *a == format!("{q}::{last}")) {
                    if last == "as_ref" && q == "AsRef" {
                        let a = &args[0];
                        return parse_quote!(crate::shim::std::convert::AsRef::v_as_ref(#a));
                    }
                    let m = format_ident!("{}", last);
                    let (r, rest) = (&args[0], &args[1..]);
                    return parse_quote!((#r).#m(#(#rest),*));
                }
            }
        }
        parse_quote!(#p(#(#args),*))
    }

    /// Option and Result combinators whose closure is inlined.
    fn combinator(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let n = m.method.to_string();
        let k = self.kind(&m.receiver);
        let r = &m.receiver;
        let a: Vec<Expr> = m.args.iter().cloned().collect();
        let v: Expr = parse_quote!(__c);
        let is_fn = |e: &Expr| matches!(e, Expr::Closure(_)) || matches!(e, Expr::Path(_));
        match (k, n.as_str(), a.len()) {
            (_, "then", 1) if matches!(&a[0], Expr::Closure(c) if c.inputs.is_empty()) => {
                let b = self.apply(&a[0], &[])?;
                Some(parse_quote!((if #r { Some(#b) } else { None })))
            }
            (Kind::Opt, "map", 1) if is_fn(&a[0]) => {
                let b = self.apply(&a[0], &[v])?;
                Some(parse_quote!(match #r { Some(__c) => Some(#b), None => None }))
            }
            (Kind::Opt, "and_then", 1) if is_fn(&a[0]) => {
                let b = self.apply(&a[0], &[v])?;
                Some(parse_quote!(match #r { Some(__c) => #b, None => None }))
            }
            (Kind::Opt, "or_else", 1) if is_fn(&a[0]) => {
                let b = self.apply(&a[0], &[])?;
                Some(parse_quote!(match #r { Some(__c) => Some(__c), None => #b }))
            }
            (Kind::Opt, "unwrap_or_else", 1) if is_fn(&a[0]) => {
                let b = self.apply(&a[0], &[])?;
                Some(parse_quote!(match #r { Some(__c) => __c, None => #b }))
            }
            (Kind::Opt, "ok_or_else", 1) if is_fn(&a[0]) => {
                let b = self.apply(&a[0], &[])?;
                Some(parse_quote!(match #r { Some(__c) => Ok(__c), None => Err(#b) }))
            }
            (Kind::Opt, "map_or", 2) if is_fn(&a[1]) => {
                let b = self.apply(&a[1], &[v])?;
                let d = &a[0];
                let dv = self.fresh("d");
                Some(parse_quote!({ let #dv = #d; match #r { Some(__c) => #b, None => #dv } }))
            }
            (Kind::Opt, "map_or_else", 2) if is_fn(&a[0]) && is_fn(&a[1]) => {
                let b = self.apply(&a[1], &[v])?;
                let d = self.apply(&a[0], &[])?;
                Some(parse_quote!(match #r { Some(__c) => #b, None => #d }))
            }
            (Kind::Opt, "is_some_and", 1) if is_fn(&a[0]) => {
                let b = self.apply(&a[0], &[v])?;
                Some(parse_quote!(match #r { Some(__c) => #b, None => false }))
            }
            (Kind::Opt, "filter", 1) => {
                let v: Expr = parse_quote!(&__c);
                let b = self.apply(&a[0], &[v])?;
                Some(parse_quote!(match #r { Some(__c) => if #b { Some(__c) } else { None }, None => None }))
            }
            (Kind::Res, "map", 1) if is_fn(&a[0]) => {
                let b = self.apply(&a[0], &[v])?;
                Some(parse_quote!(match #r { Ok(__c) => Ok(#b), Err(__ce) => Err(__ce) }))
            }
            (Kind::Res, "map_err", 1) if is_fn(&a[0]) => {
                let b = self.apply(&a[0], &[v])?;
                Some(parse_quote!(match #r { Ok(__ck) => Ok(__ck), Err(__c) => Err(#b) }))
            }
            (Kind::Res, "and_then", 1) if is_fn(&a[0]) => {
                let b = self.apply(&a[0], &[v])?;
                Some(parse_quote!(match #r { Ok(__c) => #b, Err(__ce) => Err(__ce) }))
            }
            (Kind::Res, "or_else", 1) if is_fn(&a[0]) => {
                let b = self.apply(&a[0], &[v])?;
                Some(parse_quote!(match #r { Ok(__ck) => Ok(__ck), Err(__c) => #b }))
            }
            (Kind::Res, "unwrap_or_else", 1) if is_fn(&a[0]) => {
                let b = self.apply(&a[0], &[v])?;
                Some(parse_quote!(match #r { Ok(__ck) => __ck, Err(__c) => #b }))
            }
            _ => None,
        }
    }

    // ------------------------------------------------------------- patterns

    /// Replaces string literals in a pattern by fresh names (pushed with their text).
    fn str_pats(&mut self, p: &mut Pat, found: &mut Vec<(Ident, Lit)>) {
        struct V<'b, 'a> {
            tx: &'b mut Tx<'a>,
            found: Vec<(Ident, Lit)>,
        }
        impl<'b, 'a> VisitMut for V<'b, 'a> {
            fn visit_pat_mut(&mut self, p: &mut Pat) {
                if let Pat::Lit(l) = p {
                    if let Lit::Str(_) | Lit::ByteStr(_) = &l.lit {
                        let id = self.tx.fresh("s");
                        self.found.push((id.clone(), l.lit.clone()));
                        *p = parse_quote!(#id);
                        return;
                    }
                }
                visit_mut::visit_pat_mut(self, p);
            }
        }
        let mut v = V { tx: self, found: vec![] };
        v.visit_pat_mut(p);
        let f = v.found;
        found.extend(f);
    }

    /// Removes `&` patterns. Names bound below one are collected and must be dereferenced.
    fn ref_pats(&mut self, p: &mut Pat, derefs: &mut Vec<Ident>) {
        struct V<'b> {
            derefs: &'b mut Vec<Ident>,
            n: &'b mut usize,
        }
        impl<'b> VisitMut for V<'b> {
            fn visit_pat_mut(&mut self, p: &mut Pat) {
                if let Pat::Reference(r) = p {
                    let inner = (*r.pat).clone();
                    match inner {
                        Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() => {
                            self.derefs.push(i.ident.clone());
                            *p = Pat::Ident(PatIdent { mutability: None, ..i });
                        }
                        other => *p = other,
                    }
                    visit_mut::visit_pat_mut(self, p);
                    return;
                }
                let _ = &self.n;
                visit_mut::visit_pat_mut(self, p);
            }
        }
        let mut n = self.n;
        V { derefs, n: &mut n }.visit_pat_mut(p);
    }

    fn lower_arms(&mut self, arms: &mut Vec<Arm>) {
        let mut out: Vec<Arm> = vec![];
        for arm in std::mem::take(arms) {
            // split alternatives that contain string literals
            let alts: Vec<Pat> = match &arm.pat {
                Pat::Or(o) if has_str(&arm.pat) => o.cases.iter().cloned().collect(),
                p => vec![p.clone()],
            };
            for p in alts {
                let mut arm = arm.clone();
                let mut p = p;
                if has_str(&p) {
                    let mut found = vec![];
                    self.str_pats(&mut p, &mut found);
                    let mut g: Option<Expr> = None;
                    for (id, lit) in found {
                        let t: Expr = match lit {
                            Lit::Str(s) => parse_quote!(crate::shim::str_eq(#id, #s)),
                            l => parse_quote!(crate::shim::bytes_eq(#id, #l)),
                        };
                        g = Some(match g {
                            None => t,
                            Some(x) => parse_quote!(#x && #t),
                        });
                    }
                    let g = g.unwrap();
                    arm.guard = Some(match arm.guard.take() {
                        None => (Default::default(), Box::new(g)),
                        Some((i, x)) => (i, parse_quote!(#g && (#x))),
                    });
                }
                if has_ref(&p) {
                    let mut d = vec![];
                    self.ref_pats(&mut p, &mut d);
                    if !d.is_empty() {
                        let body = &arm.body;
                        arm.body = parse_quote!({ #(let #d = *#d;)* #body });
                        if let Some((i, g)) = arm.guard.take() {
                            arm.guard = Some((i, parse_quote!({ #(let #d = *#d;)* #g })));
                        }
                    }
                }
                arm.pat = p;
                arm.comma = Some(Default::default());
                out.push(arm);
            }
        }
        *arms = out;
    }

    /// `let PAT = EXPR` with `&` patterns.
    fn lower_let(&mut self, pat: &Pat) -> (Pat, Vec<Stmt>) {
        let mut p = pat.clone();
        let mut d = vec![];
        let mut muts: HashMap<String, bool> = HashMap::new();
        struct M<'b>(&'b mut HashMap<String, bool>);
        impl<'b, 'ast> Visit<'ast> for M<'b> {
            fn visit_pat_ident(&mut self, i: &'ast PatIdent) {
                self.0.insert(i.ident.to_string(), i.mutability.is_some());
            }
        }
        M(&mut muts).visit_pat(pat);
        self.ref_pats(&mut p, &mut d);
        let stmts = d
            .iter()
            .map(|i| {
                if muts.get(&i.to_string()) == Some(&true) {
                    parse_quote!(let mut #i = *#i;)
                } else {
                    parse_quote!(let #i = *#i;)
                }
            })
            .collect();
        (p, stmts)
    }
}

pub fn has_str(p: &Pat) -> bool {
    struct V(bool);
    impl<'ast> Visit<'ast> for V {
        fn visit_expr_lit(&mut self, l: &'ast ExprLit) {
            if let Lit::Str(_) | Lit::ByteStr(_) = &l.lit {
                self.0 = true;
            }
        }
    }
    let mut v = V(false);
    v.visit_pat(p);
    v.0
}
pub fn has_ref(p: &Pat) -> bool {
    struct V(bool);
    impl<'ast> Visit<'ast> for V {
        fn visit_pat_reference(&mut self, _: &'ast PatReference) {
            self.0 = true;
        }
    }
    let mut v = V(false);
    v.visit_pat(p);
    v.0
}

/// Pass A: macros and async blocks are replaced (top-down, so that the results are visited again).
pub struct Macros<'b, 'a>(pub &'b mut Tx<'a>);
impl<'b, 'a> VisitMut for Macros<'b, 'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        loop {
            if let Expr::Macro(m) = e {
                if let Some(x) = self.0.expand_macro(&m.mac) {
                    *e = x;
                    continue;
                }
            }
            if let Expr::Await(a) = e {
                if let Expr::Async(b) = &*a.base {
                    match cps::block(&b.block.stmts, &|e| Ok(e)) {
                        Ok(x) => {
                            self.0.rep.dropped.push("async block awaited in place".into());
                            *e = x;
                            continue;
                        }
                        Err(x) => self.0.problem(format!("async block: {x}")),
                    }
                }
            }
            break;
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            if let Some(x) = self.0.expand_macro(&m.mac) {
                let semi = m.semi_token;
                let mut x = x;
                self.visit_expr_mut(&mut x);
                *s = Stmt::Expr(x, semi.or(None));
                return;
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
}

/// Pass B: loops get their ordinal (source order).
pub struct Number {
    pub n: usize,
    pub kinds: BTreeMap<usize, String>,
    /// the ordinal a loop gets, if not its own
    pub map: Vec<usize>,
    /// what is called in each loop
    pub calls: Vec<BTreeSet<String>>,
}
impl Number {
    pub fn new(map: Vec<usize>) -> Number {
        Number { n: 0, kinds: BTreeMap::new(), map, calls: vec![] }
    }
    fn next(&mut self, kind: &str, b: &Block) -> usize {
        struct C(BTreeSet<String>);
        impl<'ast> syn::visit::Visit<'ast> for C {
            fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) {
                self.0.insert(m.method.to_string());
                syn::visit::visit_expr_method_call(self, m);
            }
            fn visit_expr_call(&mut self, c: &'ast ExprCall) {
                if let Expr::Path(p) = &*c.func {
                    if let Some(s) = p.path.segments.last() {
                        self.0.insert(s.ident.to_string());
                    }
                }
                syn::visit::visit_expr_call(self, c);
            }
        }
        let mut c = C(BTreeSet::new());
        syn::visit::Visit::visit_block(&mut c, b);
        self.calls.push(c.0);
        let k = self.n;
        self.n += 1;
        let k = self.map.get(k).copied().unwrap_or(k);
        self.kinds.insert(k, kind.into());
        k
    }
}
/// Which contract each loop is under: the one whose call it has, else the one of its place.
pub fn match_loops(has: &BTreeMap<usize, String>, calls: &[BTreeSet<String>]) -> Vec<usize> {
    let mut map: Vec<Option<usize>> = vec![None; calls.len()];
    for (n, h) in has {
        if h.is_empty() {
            continue;
        }
        if calls.get(*n).map_or(false, |c| c.contains(h)) && map[*n].is_none() {
            map[*n] = Some(*n);
        } else if let Some(k) = (0..calls.len()).find(|k| map[*k].is_none() && calls[*k].contains(h) && !has.get(k).map_or(false, |x| calls[*k].contains(x))) {
            map[k] = Some(*n);
        }
    }
    let mut free: Vec<usize> = (0..calls.len().max(has.len())).filter(|n| !map.contains(&Some(*n))).collect();
    free.reverse();
    map.into_iter().map(|m| m.unwrap_or_else(|| free.pop().unwrap_or(usize::MAX - 1))).collect()
}
impl VisitMut for Number {
    fn visit_expr_for_loop_mut(&mut self, l: &mut ExprForLoop) {
        self.visit_expr_mut(&mut l.expr);
        let k = if matches!(&*l.expr, Expr::Range(_)) { "range" } else { "for" };
        let n = self.next(k, &l.body);
        let t = n.to_string();
        l.body.stmts.insert(0, parse_quote!(__ord!(#t);));
        self.visit_block_mut(&mut l.body);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // `while c { .. }` whose condition waits is `loop { if !(c) { break; } .. }`
        if let Expr::While(w) = e {
            if w.label.is_none() && !matches!(&*w.cond, Expr::Let(_)) && { let c = &w.cond; quote!(#c).to_string().contains(". await") } {
                let (c, b) = (&w.cond, &w.body.stmts);
                *e = parse_quote!(loop { if !(#c) { break; } #(#b)* });
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_expr_while_mut(&mut self, l: &mut ExprWhile) {
        self.visit_expr_mut(&mut l.cond);
        let k = if matches!(&*l.cond, Expr::Let(_)) { "whilelet" } else { "while" };
        let n = self.next(k, &l.body);
        let t = n.to_string();
        l.body.stmts.insert(0, parse_quote!(__ord!(#t);));
        self.visit_block_mut(&mut l.body);
    }
    fn visit_expr_loop_mut(&mut self, l: &mut ExprLoop) {
        let n = self.next("loop", &l.body);
        let t = n.to_string();
        l.body.stmts.insert(0, parse_quote!(__ord!(#t);));
        self.visit_block_mut(&mut l.body);
    }
}

fn take_ord(b: &mut Block) -> usize {
    if let Some(Stmt::Macro(m)) = b.stmts.first() {
        if m.mac.path.is_ident("__ord") {
            let l: LitStr = parse2(m.mac.tokens.clone()).unwrap();
            b.stmts.remove(0);
            return l.value().parse().unwrap();
        }
    }
    usize::MAX
}

/// Numeric locals that every iteration changes by exactly one.
fn counters(b: &Block) -> Vec<(Ident, bool)> {
    struct Look {
        cont: bool,
        set: HashMap<String, usize>,
        bound: Vec<String>,
    }
    impl<'ast> syn::visit::Visit<'ast> for Look {
        fn visit_expr_continue(&mut self, _: &'ast ExprContinue) {
            self.cont = true;
        }
        fn visit_pat_ident(&mut self, p: &'ast PatIdent) {
            self.bound.push(p.ident.to_string());
        }
        fn visit_expr_assign(&mut self, a: &'ast ExprAssign) {
            if let Expr::Path(p) = &*a.left {
                if let Some(i) = p.path.get_ident() {
                    *self.set.entry(i.to_string()).or_default() += 1;
                }
            }
            syn::visit::visit_expr_assign(self, a);
        }
        fn visit_expr_binary(&mut self, x: &'ast ExprBinary) {
            if step_of(x).is_none() && !matches!(x.op, BinOp::Eq(_) | BinOp::Le(_) | BinOp::Ge(_) | BinOp::Ne(_)) && quote!(#x).to_string().contains('=') {
                if let Expr::Path(p) = &*x.left {
                    if let Some(i) = p.path.get_ident() {
                        *self.set.entry(i.to_string()).or_default() += 1;
                    }
                }
            }
            if let Some((i, _)) = step_of(x) {
                *self.set.entry(i.to_string()).or_default() += 1;
            }
            syn::visit::visit_expr_binary(self, x);
        }
        fn visit_expr_reference(&mut self, r: &'ast ExprReference) {
            if r.mutability.is_some() {
                if let Expr::Path(p) = &*r.expr {
                    if let Some(i) = p.path.get_ident() {
                        *self.set.entry(i.to_string()).or_default() += 2;
                    }
                }
            }
            syn::visit::visit_expr_reference(self, r);
        }
    }
    fn step_of(x: &ExprBinary) -> Option<(Ident, bool)> {
        let up = match x.op {
            BinOp::AddAssign(_) => true,
            BinOp::SubAssign(_) => false,
            _ => return None,
        };
        match (&*x.left, &*x.right) {
            (Expr::Path(p), Expr::Lit(ExprLit { lit: Lit::Int(i), .. })) if i.base10_digits() == "1" => p.path.get_ident().map(|i| (i.clone(), up)),
            _ => None,
        }
    }
    let mut l = Look { cont: false, set: HashMap::new(), bound: vec![] };
    syn::visit::Visit::visit_block(&mut l, b);
    if l.cont {
        return vec![];
    }
    let mut out = vec![];
    for s in &b.stmts {
        if let Stmt::Expr(Expr::Binary(x), _) = s {
            if let Some((i, up)) = step_of(x) {
                if l.set.get(&i.to_string()) == Some(&1) && !l.bound.contains(&i.to_string()) {
                    out.push((i, up));
                }
            }
        }
    }
    out
}
/// Ghost bookkeeping of a loop: `__kN` counts the iterations that have begun.
fn bookkeeping(n: usize, b: &Block) -> (String, String, String) {
    let mut pre = format!("let ghost mut __k{n}: int = 0;");
    let mut inv = format!("0 <= __k{n},\n");
    for (v, up) in counters(b) {
        pre.push_str(&format!(" let ghost __c{n}_{v} = {v} as int;"));
        inv.push_str(&if up { format!("{v} as int == __c{n}_{v} + __k{n},\n") } else { format!("{v} as int == __c{n}_{v} - __k{n},\n") });
    }
    (pre, inv, format!("proof {{ __k{n} = __k{n} + 1; }}"))
}

/// Pass C: everything else.
impl<'a> VisitMut for Tx<'a> {
    fn visit_local_mut(&mut self, l: &mut Local) {
        let k = match (&l.pat, &l.init) {
            (Pat::Type(t), _) => kind_of_type(&t.ty, self.tb),
            (_, Some(i)) => self.kind(&i.expr),
            _ => Kind::Unknown,
        };
        let name = match &l.pat {
            Pat::Ident(i) => Some(i.ident.to_string()),
            Pat::Type(t) => {
                if let Pat::Ident(i) = &*t.pat {
                    Some(i.ident.to_string())
                } else {
                    None
                }
            }
            _ => None,
        };
        visit_mut::visit_local_mut(self, l);
        if let Some(n) = name {
            self.env.insert(n, k);
        }
    }

    fn visit_pat_ident_mut(&mut self, i: &mut PatIdent) {
        self.rep.names.insert(i.ident.to_string());
        if i.mutability.is_some() {
            self.rep.muts.push(i.ident.to_string());
        }
        visit_mut::visit_pat_ident_mut(self, i);
    }

    fn visit_block_mut(&mut self, b: &mut Block) {
        // lower `&` patterns of let statements
        let mut out = vec![];
        for s in std::mem::take(&mut b.stmts) {
            if let Stmt::Local(l) = &s {
                if has_ref(&l.pat) && l.init.as_ref().map_or(true, |i| i.diverge.is_none()) {
                    let (p, extra) = self.lower_let(&l.pat);
                    let mut l = l.clone();
                    l.pat = p;
                    out.push(Stmt::Local(l));
                    out.extend(extra);
                    continue;
                }
            }
            out.push(s);
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }

    fn visit_item_mut(&mut self, _: &mut Item) {
        self.problem("nested item");
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // before the children
        match e {
            Expr::MethodCall(m) => {
                if let Some(x) = self.combinator(m) {
                    *e = x;
                    return self.visit_expr_mut(e);
                }
                if predicate_method(&m.method) {
                    for a in m.args.iter_mut() {
                        if let Expr::Closure(c) = a {
                            if matches!(c.output, ReturnType::Default) {
                                c.output = parse_quote!(-> bool);
                            }
                        }
                    }
                }
            }
            Expr::Match(m) => {
                if m.arms.iter().any(|a| has_str(&a.pat) || has_ref(&a.pat)) {
                    self.lower_arms(&mut m.arms);
                }
            }
            Expr::If(i) => {
                if let Expr::Let(l) = &*i.cond {
                    if has_str(&l.pat) || has_ref(&l.pat) {
                        let (p, s, t) = (&l.pat, &l.expr, &i.then_branch);
                        let el: Expr = match &i.else_branch {
                            Some((_, x)) => (**x).clone(),
                            None => parse_quote!({}),
                        };
                        *e = parse_quote!(match #s { #p => #t, _ => #el });
                        return self.visit_expr_mut(e);
                    }
                }
            }
            Expr::Closure(c) => {
                let x = self.closure(c);
                *e = x;
                return;
            }
            Expr::Reference(r) => {
                if let Expr::Index(i) = &*r.expr {
                    if let Some(x) = range_index(i) {
                        if r.mutability.is_some() {
                            self.problem("mutable slice");
                        }
                        *e = x;
                        return self.visit_expr_mut(e);
                    }
                }
            }
            Expr::Index(i) => {
                if let Some(x) = range_index(i) {
                    *e = parse_quote!((*#x));
                    return self.visit_expr_mut(e);
                }
            }
            Expr::Call(c) => {
                // path-valued arguments of unknown receivers stay
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    if segs.len() >= 2 {
                        let q = format!("{}::{}", segs[segs.len() - 2], segs[segs.len() - 1]);
                        if let Some((_, t)) = ASSOC.iter().find(|(a, _)| *a == q) {
                            let id = format_ident!("{}", t);
                            c.func = parse_quote!(crate::shim::#id);
                        } else if matches!(segs[segs.len() - 2].as_str(), "ToString" | "AsRef" | "ToOwned" | "str" | "char")
                            && RENAMED.contains(&segs[segs.len() - 1].as_str())
                        {
                            let p = p.clone();
                            let args: Vec<Expr> = c.args.iter().cloned().collect();
                            *e = self.call_path(&p, &args);
                            if !matches!(e, Expr::Call(_)) {
                                return self.visit_expr_mut(e);
                            }
                        } else if q == "Default::default" {
                            c.func = parse_quote!(crate::shim::std::default::Default::default);
                        }
                    }
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        // after the children
        match e {
            Expr::MethodCall(m) => {
                let own = matches!(&*m.receiver, Expr::Path(p) if p.path.is_ident("self"));
                self.rep.calls.insert(if own { format!("{}::{}", self.self_ty, m.method) } else { m.method.to_string() });
                // paths as function values: eta-expansion
                for a in m.args.iter_mut() {
                    if let Expr::Path(p) = a {
                        let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                        if segs.len() >= 2 && segs.last().unwrap().chars().next().map_or(false, |c| c.is_lowercase()) {
                            let v: Expr = parse_quote!(__x);
                            let body = self.call_path(&p.clone(), &[v]);
                            let mut c: ExprClosure = parse_quote!(|__x| #body);
                            if predicate_method(&m.method) {
                                c.output = parse_quote!(-> bool);
                            }
                            *a = self.closure(&mut c);
                        }
                    }
                }
                if let Some(id) = method_ident(&m.method, &m.args, self.tb) {
                    m.method = id;
                    m.turbofish = None;
                } else if m.method == "collect" || m.method == "into" {
                    m.turbofish = None;
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let last = segs.last().unwrap().clone();
                    let q = match segs.len().checked_sub(2).map(|k| segs[k].clone()) {
                        Some(t) if t == "Self" => format!("{}::{last}", self.self_ty),
                        Some(t) if t.chars().next().map_or(false, |c| c.is_uppercase()) => format!("{t}::{last}"),
                        _ => format!("::{last}"),
                    };
                    self.rep.calls.insert(q);
                }
            }
            Expr::Lit(l) => match &l.lit {
                Lit::Str(s) => {
                    let v = s.value();
                    if !self.rep.lits.contains(&v) {
                        self.rep.lits.push(v);
                    }
                }
                Lit::ByteStr(s) => {
                    let v = s.value();
                    let i = match self.bytes.iter().position(|b| *b == v) {
                        Some(i) => i,
                        None => {
                            self.bytes.push(v);
                            self.bytes.len() - 1
                        }
                    };
                    let id = format_ident!("bs_{}", i);
                    *e = parse_quote!(crate::lits::#id());
                }
                _ => {}
            },
            Expr::ForLoop(l) => {
                let mut body = l.body.clone();
                let n = take_ord(&mut body);
                let spec = self.loop_text.get(&n).cloned().unwrap_or_default();
                let it = format_ident!("__it{}", n);
                if l.label.is_some() {
                    self.problem("labelled loop");
                }
                let (pat, extra) = self.lower_let(&l.pat);
                if let Expr::Range(r) = &*l.expr {
                    if let (Some(a), Some(b), RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) {
                        let end = format_ident!("__end{}", n);
                        let (pre, inv, inc) = bookkeeping(n, &body);
                        let pre = format!("let ghost __beg{n} = {it} as int; {pre}");
                        let spec = format!("invariant {it} <= {end}, {it} as int == __beg{n} + __k{n}, __beg{n} <= {end} as int,\n{inv}{spec}");
                        *e = parse_quote!({
                            let mut #it = #a;
                            let #end = #b;
                            let mut #it = if #it < #end { #it } else { #end };
                            __raw!(#pre);
                            while #it < #end {
                                __spec!(#spec);
                                let #pat = #it;
                                #it = #it + 1;
                                __raw!(#inc);
                                #(#extra)*
                                #body
                            }
                        });
                        return;
                    }
                    self.problem("range loop that is not a..b");
                }
                let src = &l.expr;
                let all = format_ident!("__all{}", n);
                let (pre, inv, inc) = bookkeeping(n, &body);
                let raw = format!("let ghost {all} = {it}.all(); {pre}");
                let spec = format!(
                    "invariant {it}.all() == {all}, 0 <= {it}.pos() <= {all}.len(), {all}.len() <= usize::MAX, __k{n} == {it}.pos(),\n{inv}{spec}"
                );
                *e = parse_quote!({
                    let mut #it = (#src).v_into_iter();
                    __raw!(#raw);
                    while #it.more() {
                        __spec!(#spec);
                        let #pat = #it.take_next();
                        __raw!(#inc);
                        #(#extra)*
                        #body
                    }
                });
            }
            Expr::While(l) => {
                let n = take_ord(&mut l.body);
                let spec = self.loop_text.get(&n).cloned().unwrap_or_default();
                if l.label.is_some() {
                    self.problem("labelled loop");
                }
                let (pre, inv, inc) = bookkeeping(n, &l.body);
                let spec = format!("invariant {inv}{spec}");
                if let Expr::Let(c) = &*l.cond {
                    let (p, x, b) = (&c.pat, &c.expr, &l.body);
                    let mut arms: Vec<Arm> = vec![parse_quote!(#p => #b,)];
                    if has_str(p) || has_ref(p) {
                        self.lower_arms(&mut arms);
                    }
                    *e = parse_quote!({ __raw!(#pre); loop {
                        __spec!(#spec);
                        __raw!(#inc);
                        match #x { #(#arms)* _ => { break; } }
                    } });
                } else {
                    l.body.stmts.insert(0, parse_quote!(__raw!(#inc);));
                    l.body.stmts.insert(0, parse_quote!(__spec!(#spec);));
                    *e = parse_quote!({ __raw!(#pre); #l });
                }
            }
            Expr::Loop(l) => {
                let n = take_ord(&mut l.body);
                let spec = self.loop_text.get(&n).cloned().unwrap_or_default();
                if l.label.is_some() {
                    self.problem("labelled loop");
                }
                let (pre, inv, inc) = bookkeeping(n, &l.body);
                let spec = format!("invariant {inv}{spec}");
                l.body.stmts.insert(0, parse_quote!(__raw!(#inc);));
                l.body.stmts.insert(0, parse_quote!(__spec!(#spec);));
                *e = parse_quote!({ __raw!(#pre); #l });
            }
            Expr::Break(b) => {
                if b.label.is_some() || b.expr.is_some() {
                    self.problem("break with label or value");
                }
            }
            Expr::Continue(c) => {
                if c.label.is_some() {
                    self.problem("continue with label");
                }
            }
            Expr::Block(b) if b.label.is_some() => self.problem("labelled block"),
            Expr::Async(_) => self.problem("async block"),
            Expr::Unsafe(_) => self.problem("unsafe block"),
            Expr::Cast(c) => {
                let ty = &c.ty;
                let t = type_name(ty);
                if matches!(t.as_str(), "Vec") || t.is_empty() {
                    self.problem("cast");
                }
            }
            _ => {}
        }
    }
}

fn predicate_method(i: &Ident) -> bool {
    matches!(i.to_string().as_str(), "any" | "all" | "find" | "rfind" | "position" | "filter" | "skip_while" | "take_while" | "retain" | "contains" | "starts_with" | "ends_with" | "strip_prefix" | "strip_suffix" | "split_once" | "rsplit_once" | "trim_matches" | "trim_start_matches" | "trim_end_matches")
}

/// The type of an expression, where its form shows it.
fn value_type(e: &Expr) -> Option<Type> {
    match e {
        Expr::Paren(p) => value_type(&p.expr),
        Expr::Group(p) => value_type(&p.expr),
        Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] {
            Stmt::Expr(e, None) => value_type(e),
            _ => None,
        },
        Expr::Binary(b) => match b.op {
            BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_) | BinOp::And(_) | BinOp::Or(_) => {
                Some(parse_quote!(bool))
            }
            _ => None,
        },
        Expr::Unary(u) if matches!(u.op, UnOp::Not(_)) => value_type(&u.expr),
        Expr::Cast(c) => Some((*c.ty).clone()),
        Expr::Macro(m) if m.mac.path.is_ident("matches") => Some(parse_quote!(bool)),
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            if n.starts_with("is_") || n.starts_with("v_is_") || n == "contains" || n == "v_contains" {
                Some(parse_quote!(bool))
            } else {
                None
            }
        }
        _ => None,
    }
}

/// `x[a..b]` as a method call that yields a reference.
fn range_index(i: &ExprIndex) -> Option<Expr> {
    let x = &i.expr;
    let r = match &*i.index {
        Expr::Range(r) => r,
        Expr::Paren(p) => match &*p.expr {
            Expr::Range(r) => r,
            _ => return None,
        },
        _ => return None,
    };
    let incl = matches!(r.limits, RangeLimits::Closed(_));
    let end = r.end.as_ref().map(|e| -> Expr {
        if incl {
            parse_quote!((#e) + 1)
        } else {
            (**e).clone()
        }
    });
    Some(match (&r.start, &end) {
        (Some(a), Some(b)) => parse_quote!((#x).v_range(#a, #b)),
        (Some(a), None) => parse_quote!((#x).v_from(#a)),
        (None, Some(b)) => parse_quote!((#x).v_upto(#b)),
        (None, None) => parse_quote!((#x).v_upto((#x).len())),
    })
}

impl<'a> Tx<'a> {
    /// A closure with an `ensures` that repeats its body, where the body can be read as a
    /// specification expression.
    fn closure(&mut self, c: &mut ExprClosure) -> Expr {
        if c.asyncness.is_some() {
            self.problem("async closure");
        }
        let mut lets: Vec<Stmt> = vec![];
        let mut inputs: Vec<TokenStream> = vec![];
        for p in c.inputs.iter() {
            let (pat, ty) = match p {
                Pat::Type(t) => ((*t.pat).clone(), Some(t.ty.clone())),
                p => (p.clone(), None),
            };
            let (id, is_new) = match &pat {
                Pat::Ident(i) if i.by_ref.is_none() && i.mutability.is_none() && i.subpat.is_none() => (i.ident.clone(), false),
                _ => (self.fresh("p"), true),
            };
            if is_new && !matches!(pat, Pat::Wild(_)) {
                let (q, extra) = self.lower_let(&pat);
                lets.push(parse_quote!(let #q = #id;));
                lets.extend(extra);
            }
            inputs.push(match ty {
                Some(t) => quote!(#id: #t),
                None => quote!(#id),
            });
        }
        let spec = self.spec_expr(&c.body);
        let mut body = (*c.body).clone();
        self.visit_expr_mut(&mut body);
        for l in lets.iter_mut() {
            self.visit_stmt_mut(l);
        }
        // in spec mode references are values: `let x = *x;` and `let (a, _) = p;` can be kept
        let mv = &c.capture;
        let out: Option<Type> = match &c.output {
            ReturnType::Type(_, t) => Some((**t).clone()),
            ReturnType::Default => value_type(&c.body),
        };
        match spec {
            Some(s) if out.is_some() => {
                parse_quote!(__tok! { #mv |#(#inputs),*| -> (__b: #out) ensures __b == ({ #(#lets)* #s }) { #(#lets)* #body } })
            }
            Some(s) => {
                parse_quote!(__tok! { #mv |#(#inputs),*| -> (__b: _) ensures crate::shim::same(__b, { #(#lets)* #s }) { #(#lets)* #body } })
            }
            None => match self.spec_string(&c.body) {
                Some(s) if matches!(c.output, ReturnType::Default) => {
                    parse_quote!(__tok! { #mv |#(#inputs),*| -> (__b: String) ensures __b@ == ({ #(#lets)* #s }) { #(#lets)* #body } })
                }
                _ => parse_quote!(__tok! { #mv |#(#inputs),*| { #(#lets)* #body } }),
            },
        }
    }

    /// The text of an expression that makes a string of a pure one.
    fn spec_string(&self, e: &Expr) -> Option<TokenStream> {
        match e {
            Expr::Paren(p) => self.spec_string(&p.expr),
            Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] {
                Stmt::Expr(e, None) => self.spec_string(e),
                _ => None,
            },
            Expr::MethodCall(m) if m.args.is_empty() => {
                let r = self.spec_expr(&m.receiver)?;
                match m.method.to_string().as_str() {
                    "to_string" | "v_to_string" => Some(quote!((#r).ts())),
                    "to_owned" | "v_to_owned" => Some(quote!((#r)@)),
                    _ => None,
                }
            }
            Expr::Call(c) if c.args.len() == 1 => {
                let f = &c.func;
                let f = quote!(#f).to_string();
                if f == "String :: from" {
                    let r = self.spec_expr(&c.args[0])?;
                    Some(quote!((#r)@))
                } else {
                    None
                }
            }
            _ => None,
        }
    }

    /// The expression in specification mode, if it is pure.
    fn spec_expr(&self, e: &Expr) -> Option<TokenStream> {
        Some(match e {
            Expr::Paren(p) => {
                let x = self.spec_expr(&p.expr)?;
                quote!((#x))
            }
            Expr::Lit(l) => match &l.lit {
                Lit::Str(s) => quote!(#s),
                Lit::ByteStr(_) => return None,
                l => quote!(#l),
            },
            Expr::Path(p) => quote!(#p),
            Expr::Reference(r) => {
                let x = self.spec_expr(&r.expr)?;
                quote!(&#x)
            }
            Expr::Field(f) => {
                let x = self.spec_expr(&f.base)?;
                let m = &f.member;
                quote!(#x.#m)
            }
            Expr::Unary(u) => {
                let x = self.spec_expr(&u.expr)?;
                let op = &u.op;
                quote!(#op #x)
            }
            Expr::Binary(b) => {
                let (x, y) = (self.spec_expr(&b.left)?, self.spec_expr(&b.right)?);
                let op = &b.op;
                match b.op {
                    BinOp::And(_) | BinOp::Or(_) | BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_) => {
                        quote!((#x) #op (#y))
                    }
                    _ => return None,
                }
            }
            Expr::Tuple(t) => {
                let v: Option<Vec<TokenStream>> = t.elems.iter().map(|x| self.spec_expr(x)).collect();
                let v = v?;
                quote!((#(#v),*))
            }
            Expr::Cast(c) => {
                let x = self.spec_expr(&c.expr)?;
                let t = &c.ty;
                quote!((#x) as #t)
            }
            Expr::Call(c) => {
                // only a constructor
                let Expr::Path(p) = &*c.func else { return None };
                let last = p.path.segments.last()?.ident.to_string();
                if !last.starts_with(char::is_uppercase) || (p.path.segments.len() < 2 && !matches!(last.as_str(), "Some" | "Ok" | "Err")) {
                    return None;
                }
                let f = &c.func;
                let v: Option<Vec<TokenStream>> = c.args.iter().map(|x| self.spec_expr(x)).collect();
                let v = v?;
                quote!(#f(#(#v),*))
            }
            Expr::If(i) => {
                if let Expr::Let(l) = &*i.cond {
                    if has_str(&l.pat) || has_ref(&l.pat) {
                        return None;
                    }
                    let x = self.spec_expr(&l.expr)?;
                    let p = &l.pat;
                    let a = self.spec_block(&i.then_branch)?;
                    let b = self.spec_expr(&i.else_branch.as_ref()?.1)?;
                    return Some(quote!((match #x { #p => #a, _ => #b })));
                }
                let c = self.spec_expr(&i.cond)?;
                let a = self.spec_block(&i.then_branch)?;
                let b = self.spec_expr(&i.else_branch.as_ref()?.1)?;
                quote!(if #c { #a } else { #b })
            }
            Expr::Block(b) => {
                let x = self.spec_block(&b.block)?;
                quote!({ #x })
            }
            Expr::Macro(m) if m.mac.path.is_ident("matches") => {
                let (x, p, g) = matches_parts(m.mac.tokens.clone())?;
                if has_str(&p) || has_ref(&p) {
                    return None;
                }
                let x = self.spec_expr(&x)?;
                match g {
                    None => quote!((match #x { #p => true, _ => false })),
                    Some(g) => {
                        let g = self.spec_expr(&g)?;
                        quote!((match #x { #p => #g, _ => false }))
                    }
                }
            }
            Expr::Match(m) => {
                let s = self.spec_expr(&m.expr)?;
                let mut arms = quote!();
                for a in &m.arms {
                    if a.guard.is_some() || has_str(&a.pat) || has_ref(&a.pat) {
                        return None;
                    }
                    let p = &a.pat;
                    let b = self.spec_expr(&a.body)?;
                    arms = quote!(#arms #p => #b,);
                }
                quote!(match #s { #arms })
            }
            Expr::MethodCall(m) => {
                let r = self.spec_expr(&m.receiver)?;
                let a: Option<Vec<TokenStream>> = m.args.iter().map(|x| self.spec_expr(x)).collect();
                let a = a?;
                let n = m.method.to_string();
                if let Some(t) = self.con.pure_methods.get(&n) {
                    let mut s = t.clone();
                    s = s.replace("$0", &format!("({r})"));
                    for (i, x) in a.iter().enumerate() {
                        s = s.replace(&format!("${}", i + 1), &format!("({x})"));
                    }
                    let ts: TokenStream = s.parse().ok()?;
                    quote!((#ts))
                } else {
                    return None;
                }
            }
            _ => return None,
        })
    }
    fn spec_block(&self, b: &Block) -> Option<TokenStream> {
        if b.stmts.len() == 1 {
            if let Stmt::Expr(e, None) = &b.stmts[0] {
                return self.spec_expr(e);
            }
        }
        None
    }
}

/// Type and path rewriting: external roots go to the shim, erased generics disappear.
pub struct Retarget<'a> {
    pub tb: &'a Tables,
    /// type parameters replaced by the stream
    pub wires: Vec<String>,
}
pub const ROOTS: &[&str] = &[
    "std", "core", "alloc", "nom", "base64", "tokio", "async_std", "futures", "log", "anyhow", "hostname", "pin_project", "thiserror",
];
impl<'a> VisitMut for Retarget<'a> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        let first = p.segments[0].ident.to_string();
        if p.segments.len() > 1 && ROOTS.contains(&first.as_str()) {
            let r = if first == "core" || first == "alloc" { format_ident!("std") } else { p.segments[0].ident.clone() };
            p.segments[0].ident = r;
            let mut q: Path = parse_quote!(crate::shim);
            q.segments.extend(p.segments.clone());
            *p = q;
        }
        // erased stream arguments
        let last = p.segments.last_mut().unwrap();
        if let Some(pos) = self.tb.erased.get(&last.ident.to_string()) {
            if let PathArguments::AngleBracketed(a) = &mut last.arguments {
                let mut i = 0;
                a.args = std::mem::take(&mut a.args)
                    .into_iter()
                    .filter(|g| {
                        if let GenericArgument::Type(_) = g {
                            i += 1;
                            !pos.contains(&(i - 1))
                        } else {
                            true
                        }
                    })
                    .collect();
                if a.args.is_empty() {
                    last.arguments = PathArguments::None;
                }
            }
        }
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            if p.qself.is_none() {
                if let Some(i) = p.path.get_ident() {
                    if self.wires.contains(&i.to_string()) {
                        *t = parse_quote!(crate::shim::Wire);
                        return;
                    }
                }
            }
        }
        if let Type::TraitObject(o) = t {
            if o.bounds.iter().any(|b| stream_bound(b) == Some("read")) {
                *t = parse_quote!(crate::shim::DynRead);
                return;
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
}

/// The parts of `matches!(e, pattern if guard)`.
fn matches_parts(ts: TokenStream) -> Option<(Expr, Pat, Option<Expr>)> {
    struct M(Expr, Pat, Option<Expr>);
    impl syn::parse::Parse for M {
        fn parse(i: syn::parse::ParseStream) -> Result<Self> {
            let a: Expr = i.parse()?;
            i.parse::<Token![,]>()?;
            let p = Pat::parse_multi_with_leading_vert(i)?;
            let g = if i.peek(Token![if]) {
                i.parse::<Token![if]>()?;
                Some(i.parse()?)
            } else {
                None
            };
            let _ = i.parse::<Option<Token![,]>>()?;
            Ok(M(a, p, g))
        }
    }
    let m: M = parse2(ts).ok()?;
    Some((m.0, m.1, m.2))
}
