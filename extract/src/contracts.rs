//! The sidecar contract files: what is attached to which function.
use std::collections::BTreeMap;

#[derive(Default, Clone, Debug)]
pub struct Loop {
    pub kind: String,
    /// a call that only this loop of the function has
    pub has: String,
    pub text: String,
}

#[derive(Default, Clone, Debug)]
pub struct Contract {
    pub id: String,
    /// proved | trusted | skip
    pub mode: String,
    pub params: Vec<String>,
    pub locals: Vec<String>,
    pub sig: String,
    pub loops: BTreeMap<usize, Loop>,
    pub hints: Vec<(String, String)>,
    /// hints that need not have a place
    pub optional: Vec<String>,
    pub opts: Vec<String>,
}

#[derive(Default, Debug)]
pub struct Contracts {
    pub fns: BTreeMap<String, Contract>,
    /// `Display for MailCommand` -> text put at the start of the impl
    pub impls: BTreeMap<String, String>,
    /// method name -> spec expression template for closures (`$0` receiver, `$1`.. arguments)
    pub pure_methods: BTreeMap<String, String>,
    /// structs whose fields keep their visibility
    pub private: Vec<String>,
    /// the fields of a struct, in order
    pub fields: BTreeMap<String, Vec<String>>,
    /// text put at the start of a module
    pub mods: BTreeMap<String, String>,
    /// text put after an item
    pub skip_items: Vec<String>,
}

pub fn load(dir: &str) -> Contracts {
    let mut c = Contracts::default();
    let mut files: Vec<_> = std::fs::read_dir(dir)
        .expect("contracts dir")
        .map(|e| e.unwrap().path())
        .filter(|p| p.extension().map_or(false, |e| e == "vc"))
        .collect();
    files.sort();
    for f in files {
        let text = std::fs::read_to_string(&f).unwrap();
        enum Dst {
            None,
            Sig,
            Loop(usize),
            Hint(usize),
            Impl(String),
            Mod(String),
        }
        let mut cur: Option<Contract> = None;
        let mut dst = Dst::None;
        for line in text.lines() {
            if let Some(rest) = line.strip_prefix('@') {
                let mut w = rest.split_whitespace();
                let key = w.next().unwrap_or("");
                let args: Vec<String> = w.map(|s| s.to_string()).collect();
                match key {
                    "fn" => {
                        if let Some(k) = cur.take() {
                            c.fns.insert(k.id.clone(), k);
                        }
                        let mut k = Contract { id: args[0].clone(), mode: "proved".into(), ..Default::default() };
                        for a in &args[1..] {
                            if a == "trusted" || a == "skip" {
                                k.mode = a.clone();
                            } else {
                                k.opts.push(a.clone());
                            }
                        }
                        cur = Some(k);
                        dst = Dst::Sig;
                    }
                    "params" => cur.as_mut().unwrap().params = args,
                    "locals" => cur.as_mut().unwrap().locals = args,
                    "loop" | "loop?" => {
                        let n: usize = args[0].parse().unwrap();
                        cur.as_mut().unwrap().loops.insert(
                            n,
                            Loop { kind: if key == "loop" { args.get(1).cloned().unwrap_or_default() } else { String::new() }, has: if args.get(2).map_or(false, |a| a == "has") { args[3].clone() } else { String::new() }, text: String::new() },
                        );
                        dst = Dst::Loop(n);
                    }
                    "hint" | "hint?" => {
                        let k = cur.as_mut().unwrap();
                        if key == "hint?" {
                            k.optional.push(args.join(" "));
                        }
                        k.hints.push((args.join(" "), String::new()));
                        dst = Dst::Hint(k.hints.len() - 1);
                    }
                    "exit" => {
                        let k = cur.as_mut().unwrap();
                        k.hints.push(("exit".into(), String::new()));
                        dst = Dst::Hint(k.hints.len() - 1);
                    }
                    "impl" => {
                        if let Some(k) = cur.take() {
                            c.fns.insert(k.id.clone(), k);
                        }
                        let name = args.join(" ");
                        c.impls.insert(name.clone(), String::new());
                        dst = Dst::Impl(name);
                    }
                    "mod" => {
                        if let Some(k) = cur.take() {
                            c.fns.insert(k.id.clone(), k);
                        }
                        c.mods.insert(args[0].clone(), String::new());
                        dst = Dst::Mod(args[0].clone());
                    }
                    "pure" => {
                        c.pure_methods.insert(args[0].clone(), args[1..].join(" "));
                        dst = Dst::None;
                    }
                    "private" => {
                        c.private.extend(args.iter().cloned());
                        dst = Dst::None;
                    }
                    "fields" => {
                        c.fields.insert(args[0].clone(), args[1..].to_vec());
                        dst = Dst::None;
                    }
                    "skip" => {
                        c.skip_items.push(args.join(" "));
                        dst = Dst::None;
                    }
                    "end" => {
                        if let Some(k) = cur.take() {
                            c.fns.insert(k.id.clone(), k);
                        }
                        dst = Dst::None;
                    }
                    _ => panic!("unknown directive {line} in {f:?}"),
                }
                continue;
            }
            if line.trim_start().starts_with("##") {
                continue;
            }
            let t: Option<&mut String> = match &dst {
                Dst::None => None,
                Dst::Sig => Some(&mut cur.as_mut().unwrap().sig),
                Dst::Loop(n) => Some(&mut cur.as_mut().unwrap().loops.get_mut(n).unwrap().text),
                Dst::Hint(n) => Some(&mut cur.as_mut().unwrap().hints[*n].1),
                Dst::Impl(n) => c.impls.get_mut(n),
                Dst::Mod(n) => c.mods.get_mut(n),
            };
            if let Some(t) = t {
                if !line.trim().is_empty() {
                    t.push_str(line);
                    t.push('\n');
                }
            }
        }
        if let Some(k) = cur.take() {
            c.fns.insert(k.id.clone(), k);
        }
    }
    c
}
