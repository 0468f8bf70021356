//! Loading of the crate: module tree, cfg evaluation, name tables.
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::{Path, PathBuf};
use syn::*;

pub struct Module {
    pub path: String, // "" for the crate root, "codec", "a::b"
    pub items: Vec<Item>,
}

pub struct Krate {
    pub modules: Vec<Module>,
    pub features: BTreeSet<String>,
    pub edition: String,
}

fn cfg_eval(m: &Meta, feats: &BTreeSet<String>) -> bool {
    match m {
        Meta::Path(p) => {
            let n = p.get_ident().map(|i| i.to_string()).unwrap_or_default();
            matches!(n.as_str(), "unix" | "debug_assertions")
        }
        Meta::NameValue(nv) => {
            let n = nv.path.get_ident().map(|i| i.to_string()).unwrap_or_default();
            if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &nv.value {
                let v = s.value();
                match n.as_str() {
                    "feature" => feats.contains(&v),
                    "target_os" => v == "linux",
                    "target_family" => v == "unix",
                    "target_pointer_width" => v == "64",
                    "target_endian" => v == "little",
                    _ => false,
                }
            } else {
                false
            }
        }
        Meta::List(l) => {
            let n = l.path.get_ident().map(|i| i.to_string()).unwrap_or_default();
            let inner = l
                .parse_args_with(punctuated::Punctuated::<Meta, Token![,]>::parse_terminated)
                .unwrap_or_default();
            match n.as_str() {
                "not" => !inner.first().map_or(false, |m| cfg_eval(m, feats)),
                "all" => inner.iter().all(|m| cfg_eval(m, feats)),
                "any" => inner.iter().any(|m| cfg_eval(m, feats)),
                _ => false,
            }
        }
    }
}

pub fn attrs_on(attrs: &[Attribute], feats: &BTreeSet<String>) -> bool {
    attrs.iter().all(|a| {
        if a.path().is_ident("cfg") {
            if let Meta::List(l) = &a.meta {
                if let Ok(m) = l.parse_args::<Meta>() {
                    return cfg_eval(&m, feats);
                }
            }
            true
        } else {
            !a.path().is_ident("test")
        }
    })
}

pub fn item_attrs(i: &Item) -> &[Attribute] {
    match i {
        Item::Const(x) => &x.attrs,
        Item::Enum(x) => &x.attrs,
        Item::ExternCrate(x) => &x.attrs,
        Item::Fn(x) => &x.attrs,
        Item::Impl(x) => &x.attrs,
        Item::Macro(x) => &x.attrs,
        Item::Mod(x) => &x.attrs,
        Item::Static(x) => &x.attrs,
        Item::Struct(x) => &x.attrs,
        Item::Trait(x) => &x.attrs,
        Item::Type(x) => &x.attrs,
        Item::Use(x) => &x.attrs,
        _ => &[],
    }
}

/// Removes everything that is configured out, in items, fields, variants, arms and statements.
pub struct CfgStrip<'a>(pub &'a BTreeSet<String>);
impl<'a> visit_mut::VisitMut for CfgStrip<'a> {
    fn visit_item_enum_mut(&mut self, i: &mut ItemEnum) {
        i.variants = std::mem::take(&mut i.variants).into_iter().filter(|v| attrs_on(&v.attrs, self.0)).collect();
        visit_mut::visit_item_enum_mut(self, i);
    }
    fn visit_fields_named_mut(&mut self, i: &mut FieldsNamed) {
        i.named = std::mem::take(&mut i.named).into_iter().filter(|v| attrs_on(&v.attrs, self.0)).collect();
        visit_mut::visit_fields_named_mut(self, i);
    }
    fn visit_item_impl_mut(&mut self, i: &mut ItemImpl) {
        i.items.retain(|x| match x {
            ImplItem::Fn(f) => attrs_on(&f.attrs, self.0),
            ImplItem::Const(f) => attrs_on(&f.attrs, self.0),
            ImplItem::Type(f) => attrs_on(&f.attrs, self.0),
            _ => true,
        });
        visit_mut::visit_item_impl_mut(self, i);
    }
    fn visit_expr_match_mut(&mut self, i: &mut ExprMatch) {
        i.arms.retain(|a| attrs_on(&a.attrs, self.0));
        visit_mut::visit_expr_match_mut(self, i);
    }
    fn visit_expr_struct_mut(&mut self, i: &mut ExprStruct) {
        i.fields = std::mem::take(&mut i.fields).into_iter().filter(|v| attrs_on(&v.attrs, self.0)).collect();
        if i.rest.is_some() && !i.fields.empty_or_trailing() {
            i.fields.push_punct(Default::default());
        }
        visit_mut::visit_expr_struct_mut(self, i);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain(|s| match s {
            Stmt::Local(l) => attrs_on(&l.attrs, self.0),
            Stmt::Item(i) => attrs_on(item_attrs(i), self.0),
            Stmt::Expr(e, _) => attrs_on(&expr_attrs(e), self.0),
            Stmt::Macro(m) => attrs_on(&m.attrs, self.0),
        });
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.retain(|a| a.path().is_ident("derive") || a.path().is_ident("from") || a.path().is_ident("pin_project"));
    }
}

fn expr_attrs(e: &Expr) -> Vec<Attribute> {
    match e {
        Expr::Block(x) => x.attrs.clone(),
        Expr::If(x) => x.attrs.clone(),
        Expr::Match(x) => x.attrs.clone(),
        Expr::Call(x) => x.attrs.clone(),
        Expr::MethodCall(x) => x.attrs.clone(),
        Expr::ForLoop(x) => x.attrs.clone(),
        Expr::While(x) => x.attrs.clone(),
        Expr::Loop(x) => x.attrs.clone(),
        Expr::Return(x) => x.attrs.clone(),
        Expr::Macro(x) => x.attrs.clone(),
        Expr::Assign(x) => x.attrs.clone(),
        Expr::Try(x) => x.attrs.clone(),
        Expr::Await(x) => x.attrs.clone(),
        _ => vec![],
    }
}

fn load_mod(k: &mut Krate, file_items: Vec<Item>, path: String, dir: PathBuf) {
    let mut own = vec![];
    let mut subs = vec![];
    for it in file_items {
        if !attrs_on(item_attrs(&it), &k.features) {
            continue;
        }
        match it {
            Item::Mod(m) => {
                let name = m.ident.to_string();
                let sub = if path.is_empty() { name.clone() } else { format!("{path}::{name}") };
                if let Some((_, items)) = m.content {
                    subs.push((items, sub, dir.join(&name)));
                } else {
                    let mut f1 = dir.join(format!("{name}.rs"));
                    for a in &m.attrs {
                        if a.path().is_ident("path") {
                            if let Meta::NameValue(nv) = &a.meta {
                                if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &nv.value {
                                    f1 = dir.join(s.value());
                                }
                            }
                        }
                    }
                    let f2 = dir.join(&name).join("mod.rs");
                    let f = if f1.exists() { f1 } else { f2 };
                    let src = std::fs::read_to_string(&f).unwrap_or_else(|e| panic!("{f:?}: {e}"));
                    let file = parse_file(&src).unwrap_or_else(|e| panic!("{f:?}: {e}"));
                    subs.push((file.items, sub, dir.join(&name)));
                }
            }
            Item::Macro(_) => {}
            other => own.push(other),
        }
    }
    k.modules.push(Module { path: path.clone(), items: own });
    for (items, p, d) in subs {
        load_mod(k, items, p, d);
    }
}

pub fn load(src: &str, features: &[String]) -> Krate {
    let mut k = Krate {
        modules: vec![],
        features: features.iter().cloned().collect(),
        edition: "2021".into(),
    };
    let root = Path::new(src);
    let text = std::fs::read_to_string(root.join("lib.rs")).expect("lib.rs");
    let file = parse_file(&text).expect("lib.rs parses");
    load_mod(&mut k, file.items, String::new(), root.to_path_buf());
    let feats = k.features.clone();
    for m in &mut k.modules {
        for it in &mut m.items {
            visit_mut::VisitMut::visit_item_mut(&mut CfgStrip(&feats), it);
        }
        crate::pins::unpin(&mut m.items);
        crate::locals::hoist(&mut m.items);
    }
    k
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Opt,
    Res,
    Iter,
    Other,
    Unknown,
}

#[derive(Default)]
pub struct Tables {
    /// field name -> types (several structs may share a name)
    pub fields: HashMap<String, Vec<Type>>,
    /// struct name -> field name -> type
    pub structs: HashMap<String, BTreeMap<String, Type>>,
    /// function or method name -> return types
    pub rets: HashMap<String, Vec<Type>>,
    pub aliases: HashMap<String, Type>,
    /// ids of all functions: module::Type::name
    pub fn_ids: BTreeSet<String>,
    /// module -> imported leaf -> full path
    pub uses: HashMap<String, HashMap<String, String>>,
    /// structs generic over an erased stream: name -> erased parameter positions
    pub erased: HashMap<String, Vec<usize>>,
}

pub fn use_leaves(t: &UseTree, prefix: &str, out: &mut HashMap<String, String>) {
    let join = |p: &str, n: &str| if p.is_empty() { n.to_string() } else { format!("{p}::{n}") };
    match t {
        UseTree::Path(p) => use_leaves(&p.tree, &join(prefix, &p.ident.to_string()), out),
        UseTree::Name(n) => {
            let s = n.ident.to_string();
            if s == "self" {
                let leaf = prefix.rsplit("::").next().unwrap().to_string();
                out.insert(leaf, prefix.to_string());
            } else {
                out.insert(s.clone(), join(prefix, &s));
            }
        }
        UseTree::Rename(r) => {
            out.insert(r.rename.to_string(), join(prefix, &r.ident.to_string()));
        }
        UseTree::Glob(_) => {
            out.insert(format!("*{prefix}"), join(prefix, "*"));
        }
        UseTree::Group(g) => {
            for x in &g.items {
                use_leaves(x, prefix, out);
            }
        }
    }
}

pub fn type_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        Type::Reference(r) => type_name(&r.elem),
        Type::Paren(p) => type_name(&p.elem),
        Type::Group(p) => type_name(&p.elem),
        Type::Tuple(_) => "tuple".into(),
        Type::Slice(_) => "slice".into(),
        _ => "type".into(),
    }
}

pub fn kind_of_type(t: &Type, tb: &Tables) -> Kind {
    match t {
        Type::Path(p) => {
            let n = p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
            match n.as_str() {
                "Option" => Kind::Opt,
                "Result" | "IResult" => Kind::Res,
                _ => match tb.aliases.get(&n) {
                    Some(t) => kind_of_type(t, tb),
                    None => Kind::Other,
                },
            }
        }
        Type::Reference(r) => kind_of_type(&r.elem, tb),
        Type::ImplTrait(_) => Kind::Unknown,
        Type::Infer(_) => Kind::Unknown,
        _ => Kind::Other,
    }
}

pub fn stream_bound(b: &TypeParamBound) -> Option<&'static str> {
    if let TypeParamBound::Trait(t) = b {
        let n = t.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        match n.as_str() {
            "Write" | "AsyncWrite" | "BufRead" | "AsyncBufRead" => return Some("wire"),
            "Read" | "AsyncRead" => return Some("read"),
            _ => {}
        }
    }
    None
}

/// Names of the generic parameters that stand for the stream (bounded by Write or BufRead).
pub fn stream_params(g: &Generics) -> Vec<String> {
    let mut out = vec![];
    for p in &g.params {
        if let GenericParam::Type(t) = p {
            let mut is = t.bounds.iter().any(|b| stream_bound(b) == Some("wire"));
            if let Some(w) = &g.where_clause {
                for pr in &w.predicates {
                    if let WherePredicate::Type(pt) = pr {
                        if type_name(&pt.bounded_ty) == t.ident.to_string() {
                            is |= pt.bounds.iter().any(|b| stream_bound(b) == Some("wire"));
                        }
                    }
                }
            }
            if is {
                out.push(t.ident.to_string());
            }
        }
    }
    out
}

pub fn tables(k: &Krate) -> Tables {
    let mut t = Tables::default();
    for m in &k.modules {
        let mut uses = HashMap::new();
        for it in &m.items {
            match it {
                Item::Use(u) => use_leaves(&u.tree, "", &mut uses),
                Item::Struct(s) => {
                    let mut fm = BTreeMap::new();
                    for f in &s.fields {
                        if let Some(i) = &f.ident {
                            t.fields.entry(i.to_string()).or_default().push(f.ty.clone());
                            fm.insert(i.to_string(), f.ty.clone());
                        }
                    }
                    t.structs.insert(s.ident.to_string(), fm);
                    let sp = stream_params(&s.generics);
                    if !sp.is_empty() {
                        let pos = s
                            .generics
                            .params
                            .iter()
                            .enumerate()
                            .filter(|(_, p)| matches!(p, GenericParam::Type(t) if sp.contains(&t.ident.to_string())))
                            .map(|(i, _)| i)
                            .collect();
                        t.erased.insert(s.ident.to_string(), pos);
                    }
                }
                Item::Type(a) => {
                    t.aliases.insert(a.ident.to_string(), (*a.ty).clone());
                }
                Item::Fn(f) => {
                    if let ReturnType::Type(_, ty) = &f.sig.output {
                        t.rets.entry(f.sig.ident.to_string()).or_default().push((**ty).clone());
                    }
                }
                Item::Impl(i) => {
                    for x in &i.items {
                        if let ImplItem::Fn(f) = x {
                            // methods of std traits that the transformation renames
                            if i.trait_.is_some() && crate::transform::RENAMED.contains(&f.sig.ident.to_string().as_str()) {
                                continue;
                            }
                            if let ReturnType::Type(_, ty) = &f.sig.output {
                                t.rets.entry(f.sig.ident.to_string()).or_default().push((**ty).clone());
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        t.uses.insert(m.path.clone(), uses);
    }
    t
}
