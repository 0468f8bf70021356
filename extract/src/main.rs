//! Mechanical extraction of /repo/src into a file Verus accepts. See DESIGN.md, "Extraction".
mod contracts;
mod cps;
mod inline;
mod locals;
mod model;
mod fields;
mod nomx;
mod norm;
mod pins;
mod print;
mod transform;

use contracts::Contracts;
use model::*;
use proc_macro2::TokenStream;
use quote::{format_ident, quote, ToTokens};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::*;
use transform::*;

struct Out<'a> {
    helpers: &'a inline::Helpers,
    inlined: BTreeSet<String>,
    /// the names of the specification functions
    spec_names: BTreeSet<String>,
    spec_bodies: HashMap<String, String>,
    tb: &'a Tables,
    con: &'a Contracts,
    bytes: Vec<Vec<u8>>,
    reports: Vec<serde_json::Value>,
    notes: Vec<String>,
    external: BTreeSet<String>,
    assign: HashMap<String, String>,
    seen: BTreeSet<String>,
    impl_done: BTreeSet<String>,
    dropuse: BTreeSet<String>,
    /// lines of a contract the verifier does not accept: `id@@line`
    drops: BTreeSet<String>,
    /// ask the verifier to prove false at every exit (it must not)
    probe: bool,
    used_contracts: BTreeSet<String>,
}

fn derives(attrs: &[Attribute]) -> Vec<String> {
    let mut v = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            if let Meta::List(l) = &a.meta {
                if let Ok(p) = l.parse_args_with(punctuated::Punctuated::<Path, Token![,]>::parse_terminated) {
                    for x in p {
                        v.push(x.segments.last().unwrap().ident.to_string());
                    }
                }
            }
        }
    }
    v
}

fn erase_generics(g: &Generics, wires: &[String]) -> Generics {
    let mut g = g.clone();
    g.params = g
        .params
        .into_iter()
        .filter(|p| !matches!(p, GenericParam::Type(t) if wires.contains(&t.ident.to_string())))
        .collect();
    if let Some(w) = &mut g.where_clause {
        w.predicates = std::mem::take(&mut w.predicates)
            .into_iter()
            .filter(|p| !matches!(p, WherePredicate::Type(t) if wires.contains(&type_name(&t.bounded_ty))))
            .collect();
    }
    // Unpin, Send, Sync, ?Sized carry nothing for the verifier
    fn keep(b: &TypeParamBound) -> bool {
        if let TypeParamBound::Trait(t) = b {
            let n = t.path.segments.last().unwrap().ident.to_string();
            !matches!(n.as_str(), "Unpin" | "Send" | "Sync" | "Debug")
        } else {
            true
        }
    }
    for p in g.params.iter_mut() {
        if let GenericParam::Type(t) = p {
            t.bounds = std::mem::take(&mut t.bounds).into_iter().filter(keep).collect();
        }
    }
    if let Some(w) = &mut g.where_clause {
        for p in w.predicates.iter_mut() {
            if let WherePredicate::Type(t) = p {
                t.bounds = std::mem::take(&mut t.bounds).into_iter().filter(keep).collect();
            }
        }
        w.predicates = std::mem::take(&mut w.predicates)
            .into_iter()
            .filter(|p| !matches!(p, WherePredicate::Type(t) if t.bounds.is_empty()))
            .collect();
        if w.predicates.is_empty() {
            g.where_clause = None;
        }
    }
    if g.params.is_empty() {
        g.lt_token = None;
        g.gt_token = None;
    }
    g
}

struct RenameSelf;
impl VisitMut for RenameSelf {
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.path.is_ident("self") {
            p.path = parse_quote!(__self);
        }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        fn go(ts: TokenStream) -> TokenStream {
            ts.into_iter()
                .map(|t| match t {
                    proc_macro2::TokenTree::Ident(i) if i == "self" => proc_macro2::TokenTree::Ident(format_ident!("__self")),
                    proc_macro2::TokenTree::Group(g) => proc_macro2::TokenTree::Group(proc_macro2::Group::new(g.delimiter(), go(g.stream()))),
                    t => t,
                })
                .collect()
        }
        m.tokens = go(m.tokens.clone());
    }
}

/// Proof hints around calls: `call NAME ORD` or `call NAME *`, the text before and after a
/// line `---`. The arguments and the result are bound to `__aK_N` and `__rK` (`$a0`, `$r` in the
/// text), so that the proof can speak about them.
struct Hints {
    calls: Vec<(String, Option<usize>, String)>,
    awaits: Option<String>,
    counts: HashMap<String, usize>,
    n: usize,
    used: BTreeSet<String>,
}
impl Hints {
    fn wrap(&mut self, e: &mut Expr, awaited: bool) -> bool {
        let name = match e {
            Expr::MethodCall(m) => m.method.to_string(),
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
                _ => return false,
            },
            _ => return false,
        };
        // (the slices keep the name the extraction gives them)
        let name = name.strip_prefix("v_").filter(|n| *n != "from").map(|x| x.to_string()).unwrap_or(name);
        let ord = {
            let k = self.counts.entry(name.clone()).or_insert(0);
            *k += 1;
            *k - 1
        };
        let mut text: Option<String> = None;
        for (n, o, t) in &self.calls {
            if *n == name && (o.is_none() || *o == Some(ord)) {
                text = Some(t.clone());
                self.used.insert(match o {
                    Some(o) => format!("call {n} {o}"),
                    None => format!("call {n} *"),
                });
            }
        }
        // what holds wherever the function can be suspended
        let mut text = text;
        if let (true, Some(t)) = (awaited, &self.awaits) {
            self.used.insert("await *".into());
            text = Some(match text {
                Some(x) if x.contains("---") => format!("{t}{x}"),
                Some(x) => format!("{t}---\n{x}"),
                None => format!("{t}---\n"),
            });
        }
        let Some(text) = text else { return false };
        let k = self.n;
        self.n += 1;
        let mut binds: Vec<Stmt> = vec![];
        let mut t = text;
        let args = match e {
            Expr::MethodCall(m) => &mut m.args,
            Expr::Call(c) => &mut c.args,
            _ => unreachable!(),
        };
        for (i, a) in args.iter_mut().enumerate() {
            let hole = format!("$a{i}");
            if t.contains(&hole) {
                let v = format_ident!("__a{}_{}", k, i);
                binds.push(parse_quote!(let #v = #a;));
                *a = parse_quote!(#v);
                t = t.replace(&hole, &v.to_string());
            }
        }
        let r = format_ident!("__r{}", k);
        t = t.replace("$r", &r.to_string());
        let (pre, post) = match t.find("---") {
            Some(p) => (t[..p].to_string(), t[p + 3..].to_string()),
            None => (String::new(), t),
        };
        let call: Expr = if awaited { parse_quote!(#e.await) } else { e.clone() };
        *e = parse_quote!({
            #(#binds)*
            __raw!(#pre);
            let #r = #call;
            __raw!(#post);
            #r
        });
        true
    }
}
impl VisitMut for Hints {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Await(a) = e {
            // children of the awaited call first
            visit_children(self, &mut a.base);
            if self.wrap(&mut a.base, true) {
                let b = (*a.base).clone();
                *e = b;
            }
            return;
        }
        visit_children(self, e);
        self.wrap(e, false);
    }
    fn visit_macro_mut(&mut self, _: &mut Macro) {}
}
fn visit_children(h: &mut Hints, e: &mut Expr) {
    syn::visit_mut::visit_expr_mut(h, e);
}

fn insert_after_spec(b: &mut Block, text: &str, at_end: bool) {
    if at_end {
        b.stmts.push(parse_quote!(__raw!(#text);));
        return;
    }
    let mut i = 0;
    while let Some(Stmt::Macro(m)) = b.stmts.get(i) {
        if m.mac.path.is_ident("__spec") {
            i += 1;
        } else {
            break;
        }
    }
    b.stmts.insert(i, parse_quote!(__raw!(#text);));
}

/// Loop start / end / after hints, by ordinal (loops are visited in source order).
struct LoopHints<'h> {
    hints: &'h [(String, String)],
    used: BTreeSet<String>,
}
fn loop_ord(b: &Block) -> Option<usize> {
    // the ordinal is written as a comment in the loop specification
    if let Some(Stmt::Macro(m)) = b.stmts.first() {
        if m.mac.path.is_ident("__spec") {
            let l: LitStr = parse2(m.mac.tokens.clone()).ok()?;
            let v = l.value();
            let p = v.find("//#loop ")?;
            return v[p + 8..].split_whitespace().next()?.parse().ok();
        }
    }
    None
}
impl<'h> LoopHints<'h> {
    fn body(&mut self, b: &mut Block) {
        if let Some(n) = loop_ord(b) {
            let get = |w: &str| self.hints.iter().find(|(k, _)| *k == format!("loop {n} {w}")).map(|x| x.1.clone());
            if let Some(t) = get("start") {
                // after the element has been taken
                let mut at = 1;
                while at < b.stmts.len() {
                    let s = b.stmts[at].to_token_stream().to_string();
                    let short = s.starts_with("let ") || (s.starts_with("__it") && !s.contains('{'));
                    if s.starts_with("__spec") || (s.starts_with("__raw") && s.contains("proof { __k")) || (short && (s.contains("take_next") || s.contains("let __it") || (s.contains("__it") && s.contains("+ 1")) || s.contains("= __it"))) {
                        at += 1;
                    } else {
                        break;
                    }
                }
                b.stmts.insert(at, parse_quote!(__raw!(#t);));
                self.used.insert(format!("loop {n} start"));
            }
            if let Some(t) = get("end") {
                insert_after_spec(b, &t, true);
                self.used.insert(format!("loop {n} end"));
            }
        }
    }
}
impl<'h> VisitMut for LoopHints<'h> {
    fn visit_expr_while_mut(&mut self, l: &mut ExprWhile) {
        self.body(&mut l.body);
        syn::visit_mut::visit_expr_while_mut(self, l);
    }
    fn visit_expr_loop_mut(&mut self, l: &mut ExprLoop) {
        self.body(&mut l.body);
        syn::visit_mut::visit_expr_loop_mut(self, l);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            let mut ords = vec![];
            if let Stmt::Expr(e, _) = &s {
                match e {
                    Expr::While(l) => ords.extend(loop_ord(&l.body)),
                    Expr::Loop(l) => ords.extend(loop_ord(&l.body)),
                    Expr::Block(bb) => {
                        if bb.block.stmts.iter().any(|s| s.to_token_stream().to_string().contains("let ghost mut __k")) {
                            match bb.block.stmts.last() {
                                Some(Stmt::Expr(Expr::While(l), _)) => ords.extend(loop_ord(&l.body)),
                                Some(Stmt::Expr(Expr::Loop(l), _)) => ords.extend(loop_ord(&l.body)),
                                _ => {}
                            }
                        }
                    }
                    _ => {}
                }
            }
            for n in &ords {
                for (k, t) in self.hints {
                    if *k == format!("loop {n} before") {
                        out.push(parse_quote!(__raw!(#t);));
                        self.used.insert(k.clone());
                    }
                }
            }
            syn::visit_mut::visit_stmt_mut(self, &mut s);
            out.push(s);
            for n in &ords {
                for (k, t) in self.hints {
                    if *k == format!("loop {n} after") {
                        out.push(parse_quote!(__raw!(#t);));
                        self.used.insert(k.clone());
                    }
                }
            }
        }
        b.stmts = out;
    }
}

impl<'a> Out<'a> {
    /// One function. `kind`: "inherent", "trait", "free".
    #[allow(clippy::too_many_arguments)]
    fn function(&mut self, module: &str, self_ty: &str, id: &str, sig: &Signature, body: &Block, outer_wires: &[String], in_trait_impl: bool, is_from: bool) -> TokenStream {
        self.seen.insert(id.to_string());
        let contract = self.con.fns.get(id).cloned();
        let mode = contract.as_ref().map(|c| c.mode.clone()).unwrap_or("none".into());
        if mode == "skip" {
            self.used_contracts.insert(id.into());
            self.notes.push(format!("not extracted: {id}"));
            return quote!();
        }
        if contract.is_some() {
            self.used_contracts.insert(id.into());
        }
        let external = self.external.contains(id);
        let mut sig = sig.clone();
        let mut body = body.clone();
        norm::unpack(&mut sig, &mut body);
        let mut problems: Vec<String> = vec![];
        let mut anchors: Vec<String> = vec![];

        // ---- signature
        let own_wires = stream_params(&sig.generics);
        let mut pre: Vec<Stmt> = vec![];
        let mut extra_generics: Vec<GenericParam> = vec![];
        let mut names: Vec<String> = vec![];
        let mut inputs: Vec<TokenStream> = vec![];
        let mut has_self = false;
        let mut nd = 0usize;
        for (pi, a) in sig.inputs.iter().enumerate() {
            match a {
                FnArg::Receiver(r) => {
                    has_self = true;
                    if r.reference.is_none() && r.mutability.is_some() {
                        RenameSelf.visit_block_mut(&mut body);
                        pre.push(parse_quote!(let mut __self = self;));
                        inputs.push(quote!(self));
                    } else {
                        inputs.push(quote!(#r));
                    }
                }
                FnArg::Typed(t) => {
                    let mut ty = (*t.ty).clone();
                    // by-value stream parameter of the function itself
                    if own_wires.contains(&type_name(&ty)) {
                        ty = if matches!(ty, Type::Reference(_)) {
                            parse_quote!(&mut crate::shim::Wire)
                        } else {
                            parse_quote!(&mut crate::shim::Wire)
                        };
                    }
                    if let Type::ImplTrait(it) = &ty {
                        let d = format_ident!("__D{}", nd);
                        nd += 1;
                        if it.bounds.iter().any(|b| stream_bound(b) == Some("wire")) {
                            ty = parse_quote!(&mut crate::shim::Wire);
                        } else {
                            let b = &it.bounds;
                            extra_generics.push(parse_quote!(#d: #b));
                            ty = parse_quote!(#d);
                        }
                    }
                    if let Type::Reference(r) = &ty {
                        if let Type::ImplTrait(it) = &*r.elem {
                            let d = format_ident!("__D{}", nd);
                            nd += 1;
                            let b = &it.bounds;
                            extra_generics.push(parse_quote!(#d: #b));
                            let (lt, m) = (&r.lifetime, &r.mutability);
                            ty = parse_quote!(& #lt #m #d);
                        }
                    }
                    let is_wire_ref = quote!(#ty).to_string().contains("shim :: Wire");
                    let id = match &*t.pat {
                        Pat::Ident(i) if i.subpat.is_none() => {
                            if i.mutability.is_some() && !is_wire_ref {
                                let n = &i.ident;
                                pre.push(parse_quote!(let mut #n = #n;));
                            }
                            i.ident.clone()
                        }
                        Pat::Wild(_) => format_ident!("__arg{}", pi),
                        p => {
                            let n = format_ident!("__arg{}", pi);
                            pre.push(parse_quote!(let #p = #n;));
                            n
                        }
                    };
                    names.push(id.to_string());
                    inputs.push(quote!(#id: #ty));
                }
            }
        }
        let mut wires: Vec<String> = outer_wires.to_vec();
        wires.extend(own_wires.clone());
        let mut generics = erase_generics(&sig.generics, &own_wires);
        for g in extra_generics {
            generics.params.push(g);
        }
        let mut rt = Retarget { tb: self.tb, wires: wires.clone() };
        rt.visit_generics_mut(&mut generics);
        let mut output: Type = match &sig.output {
            ReturnType::Default => parse_quote!(()),
            ReturnType::Type(_, t) => (**t).clone(),
        };
        rt.visit_type_mut(&mut output);

        // ---- body
        let mut inl = inline::Inline { h: self.helpers, module: module.to_string(), self_ty: self_ty.to_string(), depth: 0, n: 0, err: inline::error_type(&sig.output), used: BTreeSet::new(), structs: &self.tb.structs, uses: &self.tb.uses };
        inl.visit_block_mut(&mut body);
        let inlined: Vec<String> = inl.used.iter().cloned().collect();
        self.inlined.extend(inl.used.clone());
        inline::write_consts(self.helpers, module, self_ty, &mut body);
        norm::arms(&mut body);
        norm::each(&mut body);
        if !contract.as_ref().map_or(false, |c| c.loops.values().any(|l| l.kind == "for" || l.kind == "range")) {
            norm::loops(&mut body);
        }
        norm::iterables(&mut body);
        inline::closures(&mut body);
        locals::beta(&mut body, &names);
        let mut taken = self.spec_names.clone();
        if let Some(c) = &contract {
            for (_, t) in &c.hints {
                locals::ghost_names(t, &mut taken);
            }
            for l in c.loops.values() {
                locals::ghost_names(&l.text, &mut taken);
            }
            // locals the contract speaks about keep their name
            for l in &c.locals {
                taken.remove(l);
            }
        }
        locals::rename(&mut body, &taken);
        let aliased = inline::aliases(&mut body, &names);
        let mut env = HashMap::new();
        for a in &sig.inputs {
            if let FnArg::Typed(t) = a {
                if let Pat::Ident(i) = &*t.pat {
                    env.insert(i.ident.to_string(), kind_of_type(&t.ty, self.tb));
                }
            }
        }
        // nom parsers first
        let nom = nomx::Nom { tb: self.tb, module, n: Default::default(), problems: Default::default() };
        let mut nomv = nom;
        nomv.visit_block_mut(&mut body);
        problems.extend(nomv.problems.into_inner());

        let mut tx = Tx {
            tb: self.tb,
            con: self.con,
            module: module.to_string(),
            self_ty: self_ty.to_string(),
            env,
            rep: FnReport::default(),
            n: 0,
            bytes: &mut self.bytes,
            loop_text: BTreeMap::new(),
        };
        for s in pre.into_iter().rev() {
            body.stmts.insert(0, s);
        }
        Macros(&mut tx).visit_block_mut(&mut body);
        let mut num = Number::new(vec![]);
        num.visit_block_mut(&mut body.clone());
        let has: BTreeMap<usize, String> = contract.as_ref().map(|c| c.loops.iter().map(|(n, l)| (*n, l.has.clone())).collect()).unwrap_or_default();
        let mut num = Number::new(match_loops(&has, &num.calls));
        num.visit_block_mut(&mut body);

        // names bound in the body (for the holes of the contract)
        struct Names(BTreeSet<String>, Vec<String>);
        impl<'ast> Visit<'ast> for Names {
            fn visit_pat_ident(&mut self, i: &'ast PatIdent) {
                self.0.insert(i.ident.to_string());
                if i.mutability.is_some() && !i.ident.to_string().starts_with("__") {
                    self.1.push(i.ident.to_string());
                }
                syn::visit::visit_pat_ident(self, i);
            }
        }
        let mut nm = Names(BTreeSet::new(), vec![]);
        nm.visit_block(&body);

        let mut subst: Vec<(String, String)> = vec![];
        let mut candidates: BTreeMap<String, Vec<String>> = BTreeMap::new();
        if let Some(c) = &contract {
            if c.params.len() > names.len() {
                anchors.push(format!("parameters: expected {:?}, found {:?}", c.params, names));
            }
            for (i, p) in c.params.iter().enumerate() {
                if let Some(n) = names.get(i) {
                    subst.push((p.clone(), n.clone()));
                }
            }
            for l in &c.locals {
                if let Some(n) = self.assign.get(&format!("{id}:{l}")) {
                    subst.push((l.clone(), n.clone()));
                } else if nm.0.contains(l) {
                    subst.push((l.clone(), l.clone()));
                } else {
                    let cand: Vec<String> = nm.1.iter().filter(|n| !c.locals.contains(n)).cloned().collect();
                    anchors.push(format!("local {l} not found"));
                    if let Some(n) = cand.first() {
                        subst.push((l.clone(), n.clone()));
                    }
                    candidates.insert(l.clone(), cand);
                }
            }
            let want: Vec<(usize, String)> = c.loops.iter().filter(|(_, l)| !l.kind.is_empty()).map(|(n, l)| (*n, l.kind.clone())).collect();
            let have: Vec<(usize, String)> = num.kinds.iter().map(|(n, k)| (*n, k.clone())).collect();
            if want != have {
                anchors.push(format!("loops: expected {want:?}, found {have:?}"));
            }
        } else if !num.kinds.is_empty() {
            anchors.push("loops in a function without contract".into());
        }
        subst.sort_by_key(|x| std::cmp::Reverse(x.0.len()));
        let sub = |t: &str| {
            let mut t = t.to_string();
            for (a, b) in &subst {
                t = t.replace(&format!("${a}"), b);
            }
            t
        };
        let dropped_lines: Vec<String> = self.drops.iter().filter_map(|d| d.strip_prefix(&format!("{id}@@"))).map(|l| l.split_whitespace().collect::<Vec<_>>().join(" ")).collect();
        let rejected = |l: &str| !dropped_lines.is_empty() && dropped_lines.contains(&l.split_whitespace().collect::<Vec<_>>().join(" "));
        // what speaks about a local that is not there any more is left out
        let unbound = |t: &str| contract.as_ref().map_or(false, |c| c.locals.iter().any(|l| t.contains(&format!("${l}"))));
        let mut lost_hints: Vec<String> = vec![];
        let mut endless: Vec<String> = vec![];
        for (n, _k) in num.kinds.iter().map(|(n, k)| (*n, k)) {
            let text = contract.as_ref().and_then(|c| c.loops.get(&n)).map(|l| sub(&l.text)).unwrap_or_default();
            let form = match _k.as_str() { "for" => "[iter]", "range" => "[range]", "while" => "[while]", _ => "[loop]" };
            let text: String = text.lines().filter(|l| !unbound(l) && l.trim() != "invariant")
                .filter_map(|l| match l.trim_start() { t if t.starts_with('[') => t.strip_prefix(form), _ => Some(l) }).filter(|l| { let r = rejected(l); if r { lost_hints.push(format!("loop {n}: {}", l.trim())); } !r })
                .map(|l| format!("{l}\n")).collect();
            let (dec, text): (Vec<&str>, Vec<&str>) = text.lines().partition(|l| l.trim_start().starts_with("decreases"));
            let mut text: String = text.iter().map(|l| format!("{l}\n")).collect();
            // why the loop ends: a measure of the loop's own, or the one of the contract
            match _k.as_str() {
                "for" => text.push_str(&format!("decreases __all{n}.len() - __it{n}.pos(), // [C21] the loop ends\n")),
                "range" => text.push_str(&format!("decreases __end{n} - __it{n}, // [C21] the loop ends\n")),
                _ if !dec.is_empty() => text.push_str(&format!("{}, // [C21] the loop ends\n", dec[0].trim().trim_end_matches(','))),
                k => endless.push(format!("loop {n} ({k})")),
            }
            tx.loop_text.insert(n, format!("{text}//#loop {n}\n"));
        }
        tx.visit_block_mut(&mut body);
        problems.extend(tx.rep.problems.clone());
        let dropped = tx.rep.dropped.clone();
        let calls = tx.rep.calls.clone();
        let mut lits = tx.rep.lits.clone();
        if id.ends_with("Display::fmt") {
            // the literals of the text the contract asks for, written elsewhere
            let mut todo = vec![self.con.impls.get(&format!("Display for {self_ty}")).cloned().unwrap_or_default()];
            let mut seen = BTreeSet::new();
            while let Some(t) = todo.pop() {
                for l in literals_of(&t) {
                    if !lits.contains(&l) {
                        lits.push(l);
                    }
                }
                for w in t.split(|c: char| !c.is_alphanumeric() && c != '_') {
                    if let Some(b) = self.spec_bodies.get(w) {
                        if seen.insert(w.to_string()) {
                            todo.push(b.clone());
                        }
                    }
                }
            }
        }

        let mut rt = Retarget { tb: self.tb, wires: wires.clone() };
        rt.visit_block_mut(&mut body);
        let mut inputs2: Vec<TokenStream> = vec![];
        for i in inputs {
            if let Ok(mut a) = parse2::<FnArg>(i.clone()) {
                rt.visit_fn_arg_mut(&mut a);
                inputs2.push(quote!(#a));
            } else {
                inputs2.push(i);
            }
        }

        // ---- hints
        if let Some(c) = &contract {
            let hs: Vec<(String, String)> = c.hints.iter().map(|(k, t)| (k.clone(), sub(t))).map(|(k, t)| {
                let t = if t.lines().any(|l| rejected(l)) {
                    lost_hints.push(format!("{k}: not accepted"));
                    t.lines().filter(|l| (l.trim_start().starts_with("let ghost") || l.trim() == "---") && !rejected(l)).map(|l| format!("{l}\n")).collect()
                } else if unbound(&t) {
                    lost_hints.push(format!("{k}: speaks about a local that is not there"));
                    match t.contains("let ghost") { true => t.lines().filter(|l| l.trim_start().starts_with("let ghost") && !unbound(l) || l.trim() == "---").map(|l| format!("{l}\n")).collect(), false if t.contains("---") => "---\n".to_string(), false => String::new() }
                } else { t };
                (k, t)
            }).collect();
            let mut lh = LoopHints { hints: &hs, used: BTreeSet::new() };
            lh.visit_block_mut(&mut body);
            let mut used = lh.used;
            let mut h = Hints { calls: vec![], awaits: None, counts: HashMap::new(), n: 0, used: BTreeSet::new() };
            for (k, t) in &hs {
                let w: Vec<&str> = k.split_whitespace().collect();
                match w.as_slice() {
                    ["await", "*"] => h.awaits = Some(t.clone()),
                    ["call", n, "*"] => h.calls.push((n.to_string(), None, t.clone())),
                    ["call", n, o] => h.calls.push((n.to_string(), Some(o.parse().unwrap()), t.clone())),
                    _ => {}
                }
            }
            h.visit_block_mut(&mut body);
            used.extend(h.used);
            for (k, t) in hs.iter().rev() {
                if k == "start" {
                    body.stmts.insert(0, parse_quote!(__raw!(#t);));
                    used.insert(k.clone());
                } else if k == "tail" {
                    let n = body.stmts.len();
                    if let Some(Stmt::Expr(_, None)) = body.stmts.last() {
                        body.stmts.insert(n - 1, parse_quote!(__raw!(#t);));
                    } else {
                        body.stmts.push(parse_quote!(__raw!(#t);));
                    }
                    used.insert(k.clone());
                }
            }
            if self.probe && !external {
                inline::exits(&mut body, "proof { assert(false); } // [probe]", matches!(sig.output, ReturnType::Default));
            }
            for (k, t) in &hs {
                if k == "exit" {
                    inline::exits(&mut body, t, matches!(sig.output, ReturnType::Default));
                    used.insert(k.clone());
                }
            }
            for (k, _) in &hs {
                if !used.contains(k) && !c.optional.contains(k) {
                    lost_hints.push(k.clone());
                }
            }
        }
        if !lits.is_empty() {
            let mut t = String::from("proof {");
            for l in &lits {
                t.push_str(&format!(" reveal_strlit({});", Literal(l)));
            }
            t.push_str(" }");
            body.stmts.insert(0, parse_quote!(__raw!(#t);));
        }

        // ---- print
        let name = rename_method(&sig.ident, in_trait_impl);
        let spec_text = contract.as_ref().map(|c| sub(&c.sig)).unwrap_or_default();
        let ext = external || mode == "trusted";
        let attr = if ext {
            "#[verifier::external_body]".to_string()
        } else {
            if calls.iter().any(|c| c == &id || (c.starts_with("::") && c[2..] == *name.to_string() && has_self == false && id.matches("::").count() == 1)) {
                endless.push("it calls itself".into());
            }
            let mut a = String::from("#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]");
            if !endless.is_empty() {
                a.push_str("\n#[verifier::exec_allows_no_decreases_clause]");
            }
            if let Some(c) = &contract {
                for o in &c.opts {
                    if let Some(r) = o.strip_prefix("rlimit=") {
                        a.push_str(&format!("\n#[verifier::rlimit({r})]"));
                    }
                    if o == "spinoff" {
                        a.push_str("\n#[verifier::spinoff_prover]");
                    }
                }
            }
            a
        };
        let begin = format!("//#fn {id}\n{attr}");
        let end = "//#endfn".to_string();
        let asy = sig.asyncness;
        let vis = if in_trait_impl { quote!() } else { quote!(pub) };
        let where_clause = &generics.where_clause;
        let body_ts = if ext {
            quote!({ __raw!("//#body"); unimplemented!() })
        } else {
            let b = &body;
            quote!(#b)
        };
        let gp = {
            let p = &generics.params;
            if p.is_empty() { quote!() } else { quote!(<#p>) }
        };
        let _ = is_from;
        self.reports.push(json!({
            "id": id,
            "mode": mode,
            "external": external,
            "has_self": has_self,
            "async": sig.asyncness.is_some(),
            "problems": problems,
            "endless": endless,
            "anchors_lost": anchors,
            "hints_lost": lost_hints,
            "candidates": candidates,
            "loops": num.kinds,
            "calls": calls,
            "dropped": dropped,
            "inlined": inlined,
            "aliases": aliased,
            "contract_clauses": spec_text.lines().count(),
        }));
        sig.asyncness = asy;
        quote!(
            __raw!(#begin)
            #vis #asy fn #name #gp (#(#inputs2),*) -> (ret: #output) #where_clause
            __raw!(#spec_text)
            #body_ts
            __raw!(#end)
        )
    }

    fn item(&mut self, module: &str, it: &Item) -> TokenStream {
        let in_mod = |n: &str| if module.is_empty() { n.to_string() } else { format!("{module}::{n}") };
        match it {
            Item::Use(u) => {
                let mut u = u.clone();
                u.attrs.clear();
                u.vis = parse_quote!(pub);
                let root = match &u.tree {
                    UseTree::Path(p) => p.ident.to_string(),
                    UseTree::Name(n) => n.ident.to_string(),
                    UseTree::Rename(n) => n.ident.to_string(),
                    _ => String::new(),
                };
                let mut leaves = HashMap::new();
                use_leaves(&u.tree, "", &mut leaves);
                let mut ts = quote!();
                let mut l: Vec<_> = leaves.into_iter().collect();
                l.sort();
                for (name, full) in l {
                    let key = format!("{module}:{full}");
                    if self.dropuse.contains(&key) {
                        self.notes.push(format!("import dropped: {full} in {module}"));
                        continue;
                    }
                    let ext = ROOTS.contains(&root.as_str());
                    let full2 = if ext {
                        let f = full.clone();
                        let f = if f.starts_with("core::") || f.starts_with("alloc::") { format!("std::{}", f.split_once("::").unwrap().1) } else { f };
                        format!("crate::shim::{f}")
                    } else if full.starts_with("crate") || full.starts_with("self") || full.starts_with("super") {
                        full.clone()
                    } else {
                        format!("self::{full}")
                    };
                    let mark = format!("//#use {key}");
                    let last = full.rsplit("::").next().unwrap().to_string();
                    let text = if name.starts_with('*') || last == name {
                        format!("pub use {full2};")
                    } else {
                        format!("pub use {full2} as {name};")
                    };
                    let text = format!("{mark}\n{text}");
                    ts = quote!(#ts __raw!(#text));
                }
                ts
            }
            Item::Struct(s) => {
                let wires = stream_params(&s.generics);
                let ds = derives(&s.attrs);
                let mut s2 = s.clone();
                s2.generics = erase_generics(&s.generics, &wires);
                if !self.con.private.contains(&s.ident.to_string()) {
                    for f in s2.fields.iter_mut() {
                        f.vis = parse_quote!(pub);
                    }
                }
                s2.vis = parse_quote!(pub);
                let mut rt = Retarget { tb: self.tb, wires };
                rt.visit_item_struct_mut(&mut s2);
                let d = self.derive_impls(&s2.ident, &s2.generics, &ds);
                quote!(#s2 #d)
            }
            Item::Enum(e) => {
                let ds = derives(&e.attrs);
                let mut e2 = e.clone();
                e2.vis = parse_quote!(pub);
                // thiserror's #[from]
                let mut froms = quote!();
                for v in &e.variants {
                    for f in &v.fields {
                        if f.attrs.iter().any(|a| a.path().is_ident("from")) {
                            let mut ty = f.ty.clone();
                            Retarget { tb: self.tb, wires: vec![] }.visit_type_mut(&mut ty);
                            let (en, vn) = (&e.ident, &v.ident);
                            froms = quote!(#froms
                                impl From<#ty> for #en { fn from(e: #ty) -> Self { #en::#vn(e) } }
                                impl vstd::std_specs::convert::FromSpecImpl<#ty> for #en {
                                    open spec fn obeys_from_spec() -> bool { true }
                                    open spec fn from_spec(e: #ty) -> Self { #en::#vn(e) }
                                });
                        }
                    }
                }
                let mut rt = Retarget { tb: self.tb, wires: vec![] };
                rt.visit_item_enum_mut(&mut e2);
                let d = self.derive_impls(&e2.ident, &e2.generics, &ds);
                quote!(#e2 #d #froms)
            }
            Item::Type(t) => {
                let mut t2 = t.clone();
                t2.vis = parse_quote!(pub);
                Retarget { tb: self.tb, wires: vec![] }.visit_item_type_mut(&mut t2);
                quote!(#t2)
            }
            Item::Const(c) => {
                let id = in_mod(&c.ident.to_string());
                // only string and number constants are used by code under contract
                match &*c.expr {
                    Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => {
                        let (n, v) = (&c.ident, s.value());
                        let ens = format!("ensures {n}@ == {}@", Literal(&v));
                        quote!(#[verifier::external_body] pub exec const #n: &'static str __raw!(#ens) { #s })
                    }
                    Expr::Lit(l) => {
                        let (n, t) = (&c.ident, &c.ty);
                        quote!(pub const #n: #t = #l;)
                    }
                    e if matches!((&*c.ty, e), (Type::Array(_), Expr::Array(_))) && pure_const(e) => quote!(),
                    e if pure_const(e) && !self.dropuse.contains(&format!("const {id}")) => {
                        let mark = format!("//#use const {id}");
                        let (n, mut t) = (&c.ident, (*c.ty).clone());
                        Retarget { tb: self.tb, wires: vec![] }.visit_type_mut(&mut t);
                        match (&t, e) {
                            (Type::Reference(r), Expr::Reference(x)) if matches!(*r.elem, Type::Slice(_) | Type::Array(_)) => {
                                let (x, el) = (&x.expr, &r.elem);
                                let el = match &**el { Type::Slice(s) => (*s.elem).clone(), Type::Array(a) => (*a.elem).clone(), _ => unreachable!() };
                                quote!(__raw!(#mark) #[verifier::external_body] pub exec const #n: &'static [#el] __raw!("ensures") #n@ == seq!#x { &#x })
                            }
                            _ => quote!(__raw!(#mark) pub const #n: #t = #e;),
                        }
                    }
                    _ => {
                        self.notes.push(format!("constant not extracted: {id}"));
                        quote!()
                    }
                }
            }
            Item::Fn(f) => {
                let id = in_mod(&f.sig.ident.to_string());
                self.function(module, "", &id, &f.sig, &f.block, &[], false, false)
            }
            Item::Impl(i) => self.imp(module, i),
            Item::Trait(t) if t.generics.params.is_empty() && t.items.iter().all(|x| matches!(x, TraitItem::Fn(f) if f.default.is_none() && f.sig.generics.params.is_empty())) => {
                let mut t = t.clone();
                t.attrs.clear();
                Retarget { tb: self.tb, wires: vec![] }.visit_item_trait_mut(&mut t);
                let (n, sup) = (&t.ident, &t.supertraits);
                let sup = if sup.is_empty() { quote!() } else { quote!(: #sup) };
                let mut fns = quote!();
                for x in &t.items {
                    if let TraitItem::Fn(f) = x {
                        let (m, ins) = (&f.sig.ident, &f.sig.inputs);
                        let o: Type = match &f.sig.output { ReturnType::Default => parse_quote!(()), ReturnType::Type(_, t) => (**t).clone() };
                        fns = quote!(#fns fn #m(#ins) -> (ret: #o););
                    }
                }
                quote!(pub trait #n #sup { #fns })
            }
            Item::Trait(t) => {
                self.notes.push(format!("trait not extracted: {}", in_mod(&t.ident.to_string())));
                quote!()
            }
            other => {
                self.notes.push(format!("item not extracted: {}", quote!(#other).to_string().chars().take(60).collect::<String>()));
                quote!()
            }
        }
    }

    fn derive_impls(&mut self, name: &Ident, g: &Generics, ds: &[String]) -> TokenStream {
        let p = &g.params;
        let args: Vec<TokenStream> = p
            .iter()
            .map(|x| match x {
                GenericParam::Type(t) => t.ident.to_token_stream(),
                GenericParam::Lifetime(l) => l.lifetime.to_token_stream(),
                GenericParam::Const(c) => c.ident.to_token_stream(),
            })
            .collect();
        let (gp, ga) = if p.is_empty() { (quote!(), quote!()) } else { (quote!(<#p>), quote!(<#(#args),*>)) };
        let mut ts = quote!();
        let has = |s: &str| ds.iter().any(|d| d == s);
        if has("Clone") {
            ts = quote!(#ts impl #gp Clone for #name #ga {
                #[verifier::external_body]
                fn clone(&self) -> (r: Self) __raw!("ensures r == *self") { unimplemented!() }
            });
        }
        if has("Copy") {
            ts = quote!(#ts impl #gp Copy for #name #ga {});
        }
        if has("PartialEq") {
            ts = quote!(#ts
                impl #gp PartialEq for #name #ga {
                    #[verifier::external_body]
                    fn eq(&self, o: &Self) -> (r: bool) __raw!("ensures r == (*self == *o)") { unimplemented!() }
                }
                impl #gp vstd::std_specs::cmp::PartialEqSpecImpl for #name #ga {
                    open spec fn obeys_eq_spec() -> bool { true }
                    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
                }
            );
        }
        if has("Default") {
            self.notes.push(format!("derived Default not extracted: {name}"));
        }
        ts
    }

    fn imp(&mut self, module: &str, i: &ItemImpl) -> TokenStream {
        let in_mod = |n: &str| if module.is_empty() { n.to_string() } else { format!("{module}::{n}") };
        let wires = stream_params(&i.generics);
        let self_name = type_name(&i.self_ty);
        let tname = i.trait_.as_ref().map(|(_, p, _)| {
            let last = p.segments.last().unwrap();
            last.to_token_stream().to_string().replace(' ', "")
        });
        let key = match &tname {
            Some(t) => format!("{t} for {self_name}"),
            None => self_name.clone(),
        };
        if self.con.skip_items.contains(&key) || self.con.skip_items.contains(&format!("{module}: {key}")) {
            self.notes.push(format!("not extracted: impl {key} in {module}"));
            return quote!();
        }
        let text = if self.impl_done.insert(key.clone()) { self.con.impls.get(&key).cloned().unwrap_or_default() } else { String::new() };
        let in_trait = i.trait_.is_some();
        let mut fns = quote!();
        for x in &i.items {
            match x {
                ImplItem::Fn(f) => {
                    let id = match &tname {
                        Some(t) => in_mod(&format!("{self_name}::{t}::{}", f.sig.ident)),
                        None => in_mod(&format!("{self_name}::{}", f.sig.ident)),
                    };
                    let t = self.function(module, &self_name, &id, &f.sig, &f.block, &wires, in_trait, false);
                    fns = quote!(#fns #t);
                }
                ImplItem::Type(t) => {
                    let mut t = t.clone();
                    Retarget { tb: self.tb, wires: wires.clone() }.visit_impl_item_type_mut(&mut t);
                    fns = quote!(#fns #t);
                }
                ImplItem::Const(c) => {
                    let n = &c.ident;
                    self.notes.push(format!("associated constant not extracted: {n}"));
                }
                _ => {}
            }
        }
        let mut head = i.clone();
        head.items.clear();
        head.generics = erase_generics(&i.generics, &wires);
        Retarget { tb: self.tb, wires: wires.clone() }.visit_item_impl_mut(&mut head);
        let gp = {
            let p = &head.generics.params;
            if p.is_empty() { quote!() } else { quote!(<#p>) }
        };
        let st = &head.self_ty;
        let w = &head.generics.where_clause;
        let text2 = if in_trait && text.is_empty() {
            match tname.as_deref() {
                Some("Display") => "open spec fn text(&self) -> Seq<char> { arbitrary() }\n".to_string(),
                _ => String::new(),
            }
        } else {
            text
        };
        let mark = format!("//#impl {key}");
        match &head.trait_ {
            Some((_, p, _)) => {
                // From: the specification used by `?` and into
                let mut extra = quote!();
                if p.segments.last().unwrap().ident == "From" {
                    let a = &p.segments.last().unwrap().arguments;
                    let spec = self.con.impls.get(&format!("{key} spec")).cloned();
                    match spec {
                        Some(t) => {
                            extra = quote!(impl #gp vstd::std_specs::convert::FromSpecImpl #a for #st { __raw!(#t) });
                        }
                        None => {
                            extra = quote!(impl #gp vstd::std_specs::convert::FromSpecImpl #a for #st {
                                open spec fn obeys_from_spec() -> bool { false }
                                open spec fn from_spec(e: __raw!("")) -> Self { arbitrary() } });
                            self.notes.push(format!("no specification for {key}"));
                            let _ = &extra;
                            extra = quote!();
                        }
                    }
                }
                quote!(__raw!(#mark) impl #gp #p for #st #w { __raw!(#text2) #fns } #extra)
            }
            None => quote!(__raw!(#mark) impl #gp #st #w { __raw!(#text2) #fns }),
        }
    }
}

/// Paths, literals, and arrays of them.
fn pure_const(e: &Expr) -> bool {
    match e {
        Expr::Lit(_) | Expr::Path(_) => true,
        Expr::Reference(r) => pure_const(&r.expr),
        Expr::Array(a) => a.elems.iter().all(pure_const),
        Expr::Paren(p) => pure_const(&p.expr),
        _ => false,
    }
}

/// string literals in a text of the specification
fn literals_of(t: &str) -> Vec<String> {
    let Ok(ts) = t.parse::<TokenStream>() else { return vec![] };
    fn go(ts: TokenStream, out: &mut Vec<String>) {
        for t in ts {
            match t {
                proc_macro2::TokenTree::Group(g) => go(g.stream(), out),
                proc_macro2::TokenTree::Literal(l) => {
                    if let Ok(l) = parse_str::<LitStr>(&l.to_string()) {
                        out.push(l.value());
                    }
                }
                _ => {}
            }
        }
    }
    let mut out = vec![];
    go(ts, &mut out);
    out
}
/// `open spec fn NAME`, with its text
fn spec_bodies(text: &str) -> HashMap<String, String> {
    let mut out = HashMap::new();
    let parts: Vec<&str> = text.split("open spec fn ").collect();
    for p in &parts[1..] {
        let name: String = p.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
        let end = p.find("\n}").or_else(|| p.find("}\n")).map(|k| k + 2).unwrap_or(p.len());
        let one = p.find('\n').unwrap_or(p.len());
        let end = if p[..one].trim_end().ends_with('}') { one } else { end };
        out.insert(name, p[..end.min(p.len())].to_string());
    }
    out
}

struct Literal<'a>(&'a str);
impl<'a> std::fmt::Display for Literal<'a> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        let l = proc_macro2::Literal::string(self.0);
        write!(f, "{}", l)
    }
}

fn rename_method(i: &Ident, in_trait: bool) -> Ident {
    if in_trait && matches!(i.to_string().as_str(), "as_ref") {
        format_ident!("v_{}", i)
    } else {
        i.clone()
    }
}

fn main() {
    let mut args: HashMap<String, String> = HashMap::new();
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        // an option may be given more than once
        let v = it.next().unwrap_or_default();
        args.entry(a.trim_start_matches("--").to_string()).and_modify(|o| { o.push('\u{1f}'); o.push_str(&v); }).or_insert(v);
    }
    let get = |k: &str| args.get(k).cloned().unwrap_or_default();
    let list = |k: &str| -> Vec<String> { get(k).split('\u{1f}').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect() };
    let mut krate = model::load(&get("src"), &list("features"));
    let con = contracts::load(&get("contracts"));
    let renamed_fields = fields::rename(&mut krate, &con.fields);
    let tb = tables(&krate);
    let hp = inline::helpers(&krate, &|id| con.fns.contains_key(id));
    let mut spec_names = BTreeSet::new();
    for f in ["shim.rs", "spec.rs"] {
        locals::spec_names(&std::fs::read_to_string(format!("{}/{f}", get("spec"))).unwrap_or_default(), &mut spec_names);
    }
    let mut out = Out {
        helpers: &hp,
        inlined: BTreeSet::new(),
        spec_names,
        spec_bodies: spec_bodies(&std::fs::read_to_string(format!("{}/spec.rs", get("spec"))).unwrap_or_default()),
        tb: &tb,
        con: &con,
        bytes: vec![],
        reports: vec![],
        notes: renamed_fields,
        external: list("external").into_iter().collect(),
        assign: list("assign").iter().filter_map(|s| s.split_once('=').map(|(a, b)| (a.to_string(), b.to_string()))).collect(),
        seen: BTreeSet::new(),
        impl_done: BTreeSet::new(),
        dropuse: list("dropuse").into_iter().collect(),
        drops: list("drop").into_iter().collect(),
        probe: !get("probe").is_empty(),
        used_contracts: BTreeSet::new(),
    };
    let mut text = String::new();
    text.push_str("// Generated from /repo/src by /verif/extract. Do not edit.\n");
    text.push_str("#![allow(unused_imports, unused_variables, unused_mut, dead_code, unreachable_code, unused_parens, unused_braces, non_camel_case_types, unused_must_use, unreachable_patterns)]\n");
    let spec = get("spec");
    text.push_str(&format!("#[path = \"{spec}/shim.rs\"]\npub mod shim;\n#[path = \"{spec}/spec.rs\"]\npub mod spec;\n"));
    let mut root = String::new();
    for m in &krate.modules {
        let mut ts = TokenStream::new();
        for it in &m.items {
            ts.extend(out.item(&m.path, it));
        }
        if let Some(t) = con.mods.get(if m.path.is_empty() { "crate" } else { &m.path }) {
            ts.extend(quote!(__raw!(#t)));
        }
        let mut p = print::Printer::new();
        p.stream(ts);
        let segs: Vec<&str> = m.path.split("::").filter(|s| !s.is_empty()).collect();
        let mut s = String::new();
        for x in &segs {
            s.push_str(&format!("pub mod {x} {{\n"));
        }
        if segs.is_empty() {
            s.push_str("use vstd::prelude::*;\n");
        } else {
            s.push_str("use vstd::prelude::*;\n#[allow(unused_imports)] use crate::shim::prelude::*;\n#[allow(unused_imports)] use crate::spec::*;\n");
        }
        s.push_str("verus! {\n");
        if !segs.is_empty() {
            s.push_str("broadcast use crate::shim::auto;\n");
        }
        s.push_str(&p.out);
        s.push_str("\n} // verus!\n");
        for _ in &segs {
            s.push_str("}\n");
        }
        root.push_str(&s);
    }
    text.push_str("pub mod lits {\nuse vstd::prelude::*;\nverus! {\n");
    for (i, b) in out.bytes.iter().enumerate() {
        let elems: Vec<String> = b.iter().map(|x| format!("{x}u8")).collect();
        text.push_str(&format!(
            "// {:?}\npub fn bs_{i}() -> (r: &'static [u8; {}])\n    ensures r@ =~= seq![{}]\n{{ &[{}] }}\n",
            String::from_utf8_lossy(b),
            b.len(),
            elems.join(", "),
            elems.join(", ")
        ));
    }
    text.push_str("} // verus!\n}\n");
    // private helpers that stand nowhere but in their callers are judged there
    let mut gone: Vec<String> = vec![];
    loop {
        let mut changed = false;
        for h in hp.all.iter().filter(|h| h.private && out.inlined.contains(&h.id)) {
            let begin = format!("//#fn {}\n", h.id);
            let Some(a) = root.find(&begin) else { continue };
            let Some(b) = root[a..].find("//#endfn") else { continue };
            let rest = format!("{}{}", &root[..a], &root[a + b..]);
            let name = h.sig.ident.to_string();
            if rest.contains(&format!("{name} (")) || rest.contains(&format!("{name} <")) {
                continue;
            }
            let b = b + "//#endfn".len();
            root = format!("{}{}", &root[..a], &root[a + b..]);
            gone.push(h.id.clone());
            changed = true;
        }
        if !changed {
            break;
        }
    }
    out.reports.retain(|r| !gone.iter().any(|g| r["id"] == g.as_str()));
    text.push_str(&root);
    text.push_str("fn main() {}\n");
    std::fs::write(get("out"), &text).unwrap();
    let missing: Vec<&String> = con.fns.keys().filter(|k| !out.used_contracts.contains(*k)).collect();
    let report = json!({
        "functions": out.reports,
        "notes": out.notes,
        "inlined_only": gone,
        "contracts_without_function": missing,
    });
    std::fs::write(get("report"), serde_json::to_string_pretty(&report).unwrap()).unwrap();
    let _: Option<&dyn Fn(&Expr)> = None;
}
