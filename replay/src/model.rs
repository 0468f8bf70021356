//! What the client should do, written from the properties: an executable oracle.
use crate::mock::{Faults, Flat};
use serde_json::{json, Value};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mech { Plain, Login, Xoauth2 }
pub const MECHS: [Mech; 3] = [Mech::Plain, Mech::Login, Mech::Xoauth2];
impl Mech {
    pub fn name(self) -> &'static str { match self { Mech::Plain => "PLAIN", Mech::Login => "LOGIN", Mech::Xoauth2 => "XOAUTH2" } }
    pub fn real(self) -> async_smtp::authentication::Mechanism {
        use async_smtp::authentication::Mechanism as M;
        match self { Mech::Plain => M::Plain, Mech::Login => M::Login, Mech::Xoauth2 => M::Xoauth2 }
    }
    fn from(s: &str) -> Mech { match s { "PLAIN" => Mech::Plain, "LOGIN" => Mech::Login, _ => Mech::Xoauth2 } }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Name { Domain(String), V4(String), V6(String) }
impl Name {
    pub fn text(&self) -> String {
        match self { Name::Domain(s) => s.clone(), Name::V4(s) => format!("[{}]", s), Name::V6(s) => format!("[IPv6:{}]", s) }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Set { Utf8(bool), Pipe(bool), Hello(Name), NoGreeting }
#[derive(Clone, Debug, PartialEq)]
pub enum Msg { Bytes(Vec<u8>), Reader(Vec<u8>, usize, bool), Failing(Vec<u8>, usize, usize) }
#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Login(Vec<Mech>, String, String),
    Auth(Mech, String, String),
    Starttls,
    Quit,
    Send(Option<String>, Vec<String>, Msg),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Scn {
    pub sets: Vec<Set>,
    pub server: Vec<u8>,
    pub chunk: usize,
    pub wchunk: usize,
    pub pend: bool,
    pub faults: Faults,
    pub ops: Vec<Op>,
}

fn jb(b: &[u8]) -> Value {
    match std::str::from_utf8(b) { Ok(s) => json!(s), Err(_) => json!({"bytes": b}) }
}
fn bj(v: &Value) -> Vec<u8> {
    if let Some(s) = v.as_str() { s.as_bytes().to_vec() } else { v["bytes"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect() }
}
impl Scn {
    pub fn to_json(&self) -> Value {
        let sets: Vec<Value> = self.sets.iter().map(|s| match s {
            Set::Utf8(b) => json!({"smtp_utf8": b}), Set::Pipe(b) => json!({"pipelining": b}), Set::NoGreeting => json!("without_greeting"),
            Set::Hello(Name::Domain(s)) => json!({"hello_domain": s}), Set::Hello(Name::V4(s)) => json!({"hello_v4": s}), Set::Hello(Name::V6(s)) => json!({"hello_v6": s}),
        }).collect();
        let ops: Vec<Value> = self.ops.iter().map(|o| match o {
            Op::Login(m, u, p) => json!({"login": m.iter().map(|x| x.name()).collect::<Vec<_>>(), "user": u, "secret": p}),
            Op::Auth(m, u, p) => json!({"auth": m.name(), "user": u, "secret": p}),
            Op::Starttls => json!("starttls"), Op::Quit => json!("quit"),
            Op::Send(f, t, m) => json!({"from": f, "to": t, "message": match m {
                Msg::Bytes(b) => json!({"bytes": jb(b)}),
                Msg::Reader(b, c, p) => json!({"reader": jb(b), "chunk": c, "pending": p}),
                Msg::Failing(b, c, k) => json!({"failing": jb(b), "chunk": c, "kind": k}),
            }}),
        }).collect();
        json!({"kind": "session", "client": sets, "server": jb(&self.server), "read_chunk": self.chunk, "write_chunk": self.wchunk, "pending": self.pend,
               "faults": {"write_after": self.faults.write, "flush": self.faults.flush, "read_error_at_end": self.faults.read, "kind": self.faults.kind, "given_up_at_poll": self.faults.stop}, "calls": ops})
    }
    pub fn from_json(v: &Value) -> Scn {
        let sets = v["client"].as_array().unwrap().iter().map(|s| {
            if s.is_string() { Set::NoGreeting }
            else if let Some(b) = s.get("smtp_utf8") { Set::Utf8(b.as_bool().unwrap()) }
            else if let Some(b) = s.get("pipelining") { Set::Pipe(b.as_bool().unwrap()) }
            else if let Some(b) = s.get("hello_domain") { Set::Hello(Name::Domain(b.as_str().unwrap().into())) }
            else if let Some(b) = s.get("hello_v4") { Set::Hello(Name::V4(b.as_str().unwrap().into())) }
            else { Set::Hello(Name::V6(s["hello_v6"].as_str().unwrap().into())) }
        }).collect();
        let st = |v: &Value| v.as_str().unwrap().to_string();
        let ops = v["calls"].as_array().unwrap().iter().map(|o| {
            if o.as_str() == Some("starttls") { Op::Starttls } else if o.as_str() == Some("quit") { Op::Quit }
            else if let Some(m) = o.get("login") { Op::Login(m.as_array().unwrap().iter().map(|x| Mech::from(x.as_str().unwrap())).collect(), st(&o["user"]), st(&o["secret"])) }
            else if let Some(m) = o.get("auth") { Op::Auth(Mech::from(m.as_str().unwrap()), st(&o["user"]), st(&o["secret"])) }
            else {
                let m = &o["message"];
                let c = m.get("chunk").and_then(|c| c.as_u64()).unwrap_or(1) as usize;
                let msg = if let Some(b) = m.get("bytes") { Msg::Bytes(bj(b)) } else if let Some(b) = m.get("reader") { Msg::Reader(bj(b), c, m["pending"].as_bool().unwrap_or(false)) } else { Msg::Failing(bj(&m["failing"]), c, m["kind"].as_u64().unwrap_or(0) as usize) };
                Op::Send(o["from"].as_str().map(|s| s.to_string()), o["to"].as_array().unwrap().iter().map(st).collect(), msg)
            }
        }).collect();
        let u = |v: &Value| v.as_u64().map(|x| x as usize);
        Scn { sets, server: bj(&v["server"]), chunk: u(&v["read_chunk"]).unwrap(), wchunk: u(&v["write_chunk"]).unwrap(), pend: v["pending"].as_bool().unwrap(),
              faults: Faults { write: u(&v["faults"]["write_after"]), flush: u(&v["faults"]["flush"]), read: v["faults"]["read_error_at_end"].as_bool().unwrap(), kind: u(&v["faults"]["kind"]).unwrap_or(0), stop: u(&v["faults"]["given_up_at_poll"]) }, ops }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Reply { pub code: [u8; 3], pub lines: Vec<String> }
#[derive(Clone, Debug, PartialEq)]
pub enum Parsed { Incomplete, Bad, Got(Reply, usize) }

/// The grammar of replies (C04).
pub fn parse(s: &str) -> Parsed {
    let b = s.as_bytes();
    let mut pos = 0;
    let mut lines = vec![];
    let mut codes = vec![];
    loop {
        let mut code = [0u8; 3];
        for k in 0..3 {
            match b.get(pos + k) {
                None => return Parsed::Incomplete,
                Some(c) => {
                    let ok = match k { 0 => (b'2'..=b'5').contains(c), 1 => (b'0'..=b'5').contains(c), _ => c.is_ascii_digit() };
                    if !ok { return Parsed::Bad; }
                    code[k] = *c - b'0';
                }
            }
        }
        codes.push(code);
        let more = match b.get(pos + 3) {
            None => return Parsed::Incomplete,
            Some(b'-') => true,
            Some(b' ') => false,
            Some(b'\r') => match b.get(pos + 4) {
                None => return Parsed::Incomplete,
                Some(b'\n') => { lines.push(String::new()); return fin(codes, lines, pos + 5); }
                _ => return Parsed::Bad,
            },
            _ => return Parsed::Bad,
        };
        match s[pos + 4..].find("\r\n") {
            None => return Parsed::Incomplete,
            Some(k) => {
                lines.push(s[pos + 4..pos + 4 + k].to_string());
                pos += 4 + k + 2;
            }
        }
        if !more { return fin(codes, lines, pos); }
    }
}
fn fin(codes: Vec<[u8; 3]>, lines: Vec<String>, n: usize) -> Parsed {
    let c = codes[codes.len() - 1];
    if codes.iter().all(|x| *x == c) { Parsed::Got(Reply { code: c, lines }, n) } else { Parsed::Bad }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Out { Reply(Reply), Bad, Io }
/// Wait for a reply: (outcome, consumed)
pub fn wait(inp: &[u8]) -> (Out, usize) {
    let mut pos = 0;
    loop {
        if pos == inp.len() { return (Out::Io, pos); }
        let e = inp[pos..].iter().position(|b| *b == b'\n').map(|k| pos + k + 1).unwrap_or(inp.len());
        if std::str::from_utf8(&inp[pos..e]).is_err() { return (Out::Io, e); }
        pos = e;
        match parse(std::str::from_utf8(&inp[..pos]).unwrap()) {
            Parsed::Incomplete => (),
            Parsed::Bad => return (Out::Bad, pos),
            Parsed::Got(r, _) => return (Out::Reply(r), pos),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Ok(Option<Reply>),
    /// ok, no reply to compare
    Neg(Reply),
    Parsing,
    Io,
    /// any error that is not about a reply or the stream
    Other,
    /// any error at all
    AnyErr,
    /// not determined by the properties
    Any,
    Panic(String),
}
impl Res {
    pub fn is_ok(&self) -> bool { matches!(self, Res::Ok(_)) }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind { Ehlo, Mail, Rcpt, Data, Content, Auth, AuthResp, Starttls, Quit }
#[derive(Clone, Debug)]
pub enum Step { Send(Kind), Wait }
#[derive(Clone, Debug)]
pub struct Exp {
    pub steps: Vec<(Step, usize)>, // with the start in ev
    pub ev: Flat,
    pub res: Res,
    /// a pipelined transaction rejected before its last reply (the known finding of C08)
    pub early: bool,
    /// commands sent minus replies read
    pub surplus: i64,
}
pub struct Model {
    pub inp: Vec<u8>,
    pub pos: usize,
    pub hello: String,
    pub utf8: bool,
    pub pipe: bool,
    pub greet: bool,
    pub caps: Caps,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Caps { pub name: String, pub pipe: bool, pub eight: bool, pub utf8: bool, pub tls: bool, pub mechs: Vec<Mech> }

/// C11
pub fn caps(r: &Reply) -> Option<Caps> {
    let name = r.lines.get(0)?.split_whitespace().next()?.to_string();
    let mut c = Caps { name, ..Default::default() };
    for l in &r.lines[1..] {
        let mut w = l.split_whitespace();
        match w.next().unwrap_or("").to_ascii_uppercase().as_str() {
            "PIPELINING" => c.pipe = true,
            "8BITMIME" => c.eight = true,
            "SMTPUTF8" => c.utf8 = true,
            "STARTTLS" => c.tls = true,
            "AUTH" => for m in w {
                for k in MECHS { if m == k.name() && !c.mechs.contains(&k) { c.mechs.push(k); } }
            },
            _ => (),
        }
    }
    Some(c)
}
/// C01
pub fn content(m: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    let mut full = m.to_vec();
    if !full.is_empty() && !full.ends_with(b"\r\n") {
        if full.ends_with(b"\r") { full.push(b'\n') } else { full.extend(b"\r\n") }
    }
    let mut i = 0;
    while i < full.len() {
        let e = full[i..].windows(2).position(|w| w == b"\r\n").map(|k| i + k + 2).unwrap_or(full.len());
        if full[i] == b'.' { out.push(b'.'); }
        out.extend(&full[i..e]);
        i = e;
    }
    out.extend(b".\r\n");
    out
}
pub fn initial(m: Mech, u: &str, p: &str) -> Option<String> {
    match m { Mech::Plain => Some(format!("\0{}\0{}", u, p)), Mech::Login => None, Mech::Xoauth2 => Some(format!("user={}\x01auth=Bearer {}\x01\x01", u, p)) }
}
pub fn answer(m: Mech, u: &str, p: &str, r: &Reply) -> Option<String> {
    let w = r.lines.get(0)?.split_whitespace().next()?;
    let d = String::from_utf8(base64::decode(w).ok()?).ok()?;
    if m != Mech::Login { return None; }
    match d.as_str() { "User Name" | "Username:" | "Username" => Some(u.into()), "Password" | "Password:" => Some(p.into()), _ => None }
}

struct Run<'a> { m: &'a mut Model, e: Exp }
impl<'a> Run<'a> {
    fn send(&mut self, k: Kind, b: Vec<u8>) {
        self.e.steps.push((Step::Send(k), self.e.ev.len()));
        self.e.ev.extend(b.iter().map(|x| (true, *x)));
        self.e.surplus += 1;
    }
    /// None and the result set if not positive
    fn wait(&mut self) -> Option<Reply> {
        let (o, n) = wait(&self.m.inp[self.m.pos..]);
        self.e.steps.push((Step::Wait, self.e.ev.len()));
        let p = self.m.pos;
        self.e.ev.extend(self.m.inp[p..p + n].iter().map(|x| (false, *x)));
        self.m.pos += n;
        match o {
            Out::Reply(r) => { self.e.surplus -= 1; if r.code[0] <= 3 { Some(r) } else { self.e.res = Res::Neg(r); None } }
            Out::Bad => { self.e.res = Res::Parsing; None }
            Out::Io => { self.e.res = Res::Io; None }
        }
    }
    fn cmd(&mut self, k: Kind, b: String) -> Option<Reply> { self.send(k, b.into_bytes()); self.wait() }
    fn auth(&mut self, m: Mech, u: &str, p: &str) -> Option<Reply> {
        let c = match initial(m, u, p) { Some(i) => format!("AUTH {} {}\r\n", m.name(), base64::encode(i)), None => format!("AUTH {}\r\n", m.name()) };
        let mut r = self.cmd(Kind::Auth, c)?;
        let mut n = 0;
        while n < 10 && r.code == [3, 3, 4] {
            n += 1;
            match answer(m, u, p, &r) {
                None => { self.e.res = Res::AnyErr; return None; }
                Some(a) => r = self.cmd(Kind::AuthResp, format!("{}\r\n", base64::encode(a)))?,
            }
        }
        if r.code == [3, 3, 4] { self.e.res = Res::AnyErr; return None; }
        if n == 10 { self.e.res = Res::Any; return None; }
        Some(r)
    }
}
impl Model {
    pub fn new(s: &Scn) -> Model {
        let mut m = Model { inp: s.server.clone(), pos: 0, hello: "[127.0.0.1]".into(), utf8: false, pipe: true, greet: true, caps: Caps::default() };
        for x in &s.sets {
            match x { Set::Utf8(b) => m.utf8 = *b, Set::Pipe(b) => m.pipe = *b, Set::NoGreeting => m.greet = false, Set::Hello(n) => m.hello = n.text() }
        }
        m
    }
    fn run(&mut self, f: impl FnOnce(&mut Run) -> Option<Option<Reply>>) -> Exp {
        let mut r = Run { m: self, e: Exp { steps: vec![], ev: vec![], res: Res::Other, early: false, surplus: 0 } };
        if let Some(x) = f(&mut r) { r.e.res = Res::Ok(x); }
        r.e
    }
    pub fn connect(&mut self) -> Exp {
        let mut got = None;
        let h = self.hello.clone();
        let g = self.greet;
        let e = self.run(|r| {
            if g { r.e.surplus += 1; r.wait()?; }
            let x = r.cmd(Kind::Ehlo, format!("EHLO {}\r\n", h))?;
            match caps(&x) { None => { r.e.res = Res::AnyErr; None } Some(c) => { got = Some(c); Some(None) } }
        });
        if let Some(c) = got { self.caps = c; }
        e
    }
    pub fn op(&mut self, o: &Op) -> Exp {
        let caps = self.caps.clone();
        let (utf8, pipe) = (self.utf8, self.pipe);
        match o {
            Op::Quit => self.run(|r| { r.cmd(Kind::Quit, "QUIT\r\n".into())?; Some(None) }),
            Op::Starttls => self.run(|r| {
                if !caps.tls { r.e.res = Res::AnyErr; return None; }
                r.cmd(Kind::Starttls, "STARTTLS\r\n".into())?;
                Some(None)
            }),
            Op::Auth(m, u, p) => self.run(|r| Some(Some(r.auth(*m, u, p)?))),
            Op::Login(l, u, p) => self.run(|r| match l.iter().find(|m| caps.mechs.contains(m)) {
                None => { r.e.res = Res::Any; None }
                Some(m) => { r.auth(*m, u, p)?; Some(None) }
            }),
            Op::Send(from, to, msg) => self.run(|r| {
                let mut mail = format!("MAIL FROM:<{}>", from.clone().unwrap_or_default());
                if caps.eight { mail += " BODY=8BITMIME"; }
                if caps.utf8 && utf8 { mail += " SMTPUTF8"; }
                mail += "\r\n";
                let mut cmds = vec![(Kind::Mail, mail)];
                for t in to { cmds.push((Kind::Rcpt, format!("RCPT TO:<{}>\r\n", t))); }
                cmds.push((Kind::Data, "DATA\r\n".to_string()));
                let n = cmds.len();
                if caps.pipe && pipe {
                    for (k, c) in cmds { r.send(k, c.into_bytes()); }
                    for i in 0..n { if r.wait().is_none() { r.e.early = i + 1 < n; return None; } }
                } else {
                    for (k, c) in cmds { r.cmd(k, c)?; }
                }
                let m = match msg {
                    Msg::Failing(..) => { r.e.res = Res::AnyErr; return None; }
                    Msg::Bytes(b) | Msg::Reader(b, _, _) => b,
                };
                r.send(Kind::Content, content(m));
                Some(Some(r.wait()?))
            }),
        }
    }
}
