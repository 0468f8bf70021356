//! Sessions and calls built around sizes and texts: a fixed set of boundary values, and the literals
//! that occur in the current source but not in the one the checks were written for.
use crate::gen::*;
use crate::model::*;
use serde_json::{json, Value};

pub struct Dict { pub ints: Vec<usize>, pub words: Vec<String>, pub fresh: bool, pub given: usize }
const SIZES: [usize; 48] = [1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 24, 31, 32, 33, 48, 50, 63, 64, 65, 76, 80, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 500, 511, 512, 513, 998, 1000, 1024, 1025, 2048, 4096, 8192, 8193];
const TEXTS: [&str; 18] = ["STARTTLS", "PIPELINING", "QUIT", ".", "..", "DATA", "250 OK", "334 VXNlcm5hbWU6", "localhost", "[127.0.0.1]", "<>", "-", "{}", "\0", "\u{feff}x", "a\tb", "\u{2003}", "RSET"];
impl Dict {
    pub fn load(p: Option<String>) -> Dict {
        let v: Value = p.and_then(|p| std::fs::read_to_string(p).ok()).and_then(|s| serde_json::from_str(&s).ok()).unwrap_or(json!({}));
        let none = vec![];
        let mut ints: Vec<usize> = vec![];
        for n in v["ints"].as_array().unwrap_or(&none) {
            let n = n.as_u64().unwrap_or(0) as usize;
            for k in [n, n + 1, n.saturating_sub(1), n + 2, n * 2] { if k > 0 && k <= 300_000 && !ints.contains(&k) { ints.push(k); } }
        }
        let mut words: Vec<String> = vec![];
        let mut add = |s: String| if !words.contains(&s) { words.push(s) };
        let fresh: Vec<String> = v["words"].as_array().unwrap_or(&none).iter().filter_map(|w| w.as_str()).map(|w| w.to_string()).collect();
        for w in &fresh {
            for x in [w.clone(), w.to_uppercase(), w.to_lowercase(), format!("{} x", w), format!("{}x", w), format!("x{}", w), format!("x {}", w), format!("{}.example.org", w), format!("{}{}", w, w), w.chars().take(w.chars().count().saturating_sub(1)).collect(), format!("{}1", w), format!("{}@x", w), format!("x@{}", w)] { add(x) }
        }
        for a in &fresh { for b in &fresh { if fresh.len() < 8 { add(format!("{} {}", a, b)); add(format!("{}{}", a, b)) } } }
        let f = !ints.is_empty() || !words.is_empty();
        let given = ints.len();
        for n in SIZES { if !ints.contains(&n) { ints.push(n) } }
        for t in TEXTS { if !words.iter().any(|w| w == t) { words.push(t.to_string()) } }
        Dict { ints, words, fresh: f, given }
    }
}
#[derive(Clone)]
struct Plan { sets: Vec<Set>, greeting: String, name: String, caps: Vec<String>, mail: String, rcpt: Vec<String>, data: String, done: String, from: Option<String>, to: Vec<String>, msg: Msg, tail: Vec<Op>, tail_replies: String, head: Vec<Op>, head_replies: String }
fn plan() -> Plan {
    Plan { sets: vec![], greeting: "220 mx\r\n".into(), name: "mx.example.org".into(), caps: vec!["8BITMIME".into()], mail: "250 m\r\n".into(), rcpt: vec!["250 r\r\n".into()], data: "354 go\r\n".into(), done: "250 queued\r\n".into(),
        from: Some("s@example.org".into()), to: vec!["r@example.org".into()], msg: Msg::Bytes(b"hello\r\n".to_vec()), tail: vec![Op::Quit], tail_replies: "221 bye\r\n".into(), head: vec![], head_replies: String::new() }
}
impl Plan {
    fn scn(&self) -> Scn {
        let mut ops = self.head.clone();
        ops.push(Op::Send(self.from.clone(), self.to.clone(), self.msg.clone()));
        ops.extend(self.tail.clone());
        let mut s = base(ops);
        s.sets = self.sets.clone();
        let mut l = vec![self.name.clone()];
        l.extend(self.caps.clone());
        let g = if self.sets.contains(&Set::NoGreeting) { "" } else { &self.greeting };
        let mut v = g.to_string() + &reply("250", &l) + &self.head_replies + &self.mail;
        for k in 0..self.to.len() { v += &self.rcpt[k.min(self.rcpt.len() - 1)]; }
        v += &(self.data.clone() + &self.done + &self.tail_replies);
        s.server = v.into_bytes();
        s
    }
    fn pipe(mut self) -> Plan { self.caps.push("PIPELINING".into()); self }
    /// one of the settings that must not matter for the rest
    fn mode(mut self, k: usize) -> Plan {
        match k % 6 {
            0 => (),
            1 => self.caps.push("SMTPUTF8".into()),
            2 => { self.caps.push("SMTPUTF8".into()); self.sets.push(Set::Utf8(true)); }
            3 => { self.caps.push("PIPELINING".into()); self.sets.push(Set::Pipe(false)); }
            4 => self.caps = vec![],
            _ => self.sets.push(Set::Utf8(true)),
        }
        self
    }
    fn put(mut self, at: usize, t: String) -> Plan {
        match at { 0 => self.greeting = t, 1 => self.mail = t, 2 => self.rcpt = vec![t], 3 => self.data = t, 4 => self.done = t, _ => self.tail_replies = t + "221 bye\r\n" }
        self
    }
}
fn addr_ok(s: &str) -> bool { s.chars().all(|c| ('!'..='~').contains(&c) && c != '<' && c != '>') }
fn flat(s: &str) -> String { s.replace("\r\n", " ") }
/// a reply of about n bytes
fn long(code: &str, n: usize, how: usize) -> String {
    match how {
        0 => format!("{} {}\r\n", code, "x".repeat(n)),
        1 => { let k = n / 60 + 1; reply(code, &(0..k).map(|i| format!("{:050}", i)).collect::<Vec<_>>()) }
        2 => reply(code, &(0..n).map(|i| format!("l{}", i)).collect::<Vec<_>>()),
        3 => reply(code, &["x".repeat(n), "end".into()]),
        _ => reply(code, &["first".into(), if n % 2 == 0 { "\u{20ac}".repeat(n / 3 + 2) } else { "\u{e4}".repeat(n / 2 + 1) }, "".into()]),
    }
}
/// keywords and mechanism names with something written before, after or between them
fn glued(d: &Dict) -> Vec<Vec<String>> {
    let mut g: Vec<String> = (0u8..128).filter(|b| !b.is_ascii_alphanumeric() && *b != 10 && *b != 13).map(|b| (b as char).to_string()).collect();
    g.extend(["-1", "1", "X", "_8", "\u{a0}", "\u{2003}", "\u{e4}", "::", "\"\"", "()"].iter().map(|w| w.to_string()));
    for w in d.words.iter().take(d.words.len().saturating_sub(TEXTS.len())) { let w = flat(w); if w.chars().count() <= 12 && !g.contains(&w) { g.push(w) } }
    let mut v = vec![];
    for g in &g {
        for k in ["PIPELINING", "8BITMIME", "SMTPUTF8", "STARTTLS"] { for x in [format!("{}{}", k, g), format!("{}{}", g, k), format!("{}{} x", k, g), format!("x{}{}", g, k)] { v.push(vec!["mx".to_string(), x]); } }
        for m in ["PLAIN", "LOGIN", "XOAUTH2"] { for x in [format!("AUTH {}{}", m, g), format!("AUTH {}{}", g, m), format!("AUTH{}{}", g, m), format!("AUTH{} {}", g, m), format!("{}AUTH {}", g, m), format!("AUTH {}{} GSSAPI", m, g), format!("AUTH X{}{}", g, m), format!("AUTH {}{}{}", g, m, g), format!("AUTH {}{}X", m, g)] { v.push(vec!["mx".to_string(), x]); } }
        v.push(vec!["mx".into(), format!("PIPELINING{}SMTPUTF8", g), "STARTTLS".into()]);
        v.push(vec![format!("mx{}", g), "STARTTLS".into()]);
        v.push(vec![format!("{}mx", g), "AUTH PLAIN".into()]);
    }
    v
}
const CODES: [&str; 4] = ["250", "354", "450", "550"];

pub fn sessions(id: &str, d: &Dict, thorough: bool, f: &mut dyn FnMut(Scn)) {
    if ["C03", "C04", "C15"].contains(&id) { return; }
    let auth = |t: &str| -> bool { ["C09", "C18", "C14", "C02", "C08", "C12", "C13", "C07", "C21"].contains(&t) };
    for pass in 0..2 { for (k, w) in d.words.iter().enumerate() {
        let fresh = d.fresh && k < d.words.len().saturating_sub(TEXTS.len());
        if (pass == 0) != fresh { continue; }
        let t = flat(w);
        for pipe in [false, true] {
            let p = || if pipe { plan().pipe() } else { plan() };
            let mut g = |p: Plan| f(p.scn());
            for at in 0..6 { for c in CODES {
                g(p().put(at, format!("{} {}\r\n", c, t)));
                g(p().put(at, reply(c, &[t.clone(), "x".into()])));
                g(p().put(at, reply(c, &["x".into(), t.clone()])));
                if c == "450" && at > 0 { let mut q = p(); q.to = rcpts(3); q.rcpt = vec!["250 a\r\n".into(), format!("{} {}\r\n", c, t), "250 c\r\n".into()]; q.tail = vec![Op::Send(None, rcpts(1), Msg::Bytes(b"2".to_vec()))]; g(q); }
            } }
            { let mut q = p(); q.name = t.clone(); q.to = rcpts(2); g(q.clone()); q.caps = vec!["PIPELINING".into(), "SMTPUTF8".into(), "STARTTLS".into()]; q.sets = vec![Set::Utf8(true)]; g(q.clone()); q.tail = vec![Op::Starttls]; g(q); }
            for c in [t.clone(), format!("{} PLAIN LOGIN", t), format!("AUTH {} PLAIN", t), format!("AUTH PLAIN {} LOGIN", t), format!("STARTTLS {}", t), format!("{} STARTTLS", t)] {
                let mut q = p();
                q.caps.push(c);
                q.head = vec![Op::Login(vec![Mech::Xoauth2, Mech::Login, Mech::Plain], "u".into(), "p".into())];
                q.head_replies = "235 ok\r\n".into();
                g(q.clone());
                q.head = vec![]; q.head_replies = String::new();
                q.tail = vec![Op::Starttls]; q.tail_replies = "220 go\r\n".into();
                g(q);
            }
            for set in [Set::Hello(Name::Domain(w.clone()))] { let mut q = p(); q.sets = vec![set, Set::Utf8(true)]; q.caps.push("SMTPUTF8".into()); g(q); }
            for a in [w.clone(), format!("{}@example.org", w), format!("x@{}", w), format!("x{}y", w)] { if addr_ok(&a) {
                let mut q = p(); q.from = Some(a.clone()); q.to = vec!["x@y".into(), a.clone()]; q.caps.push("SMTPUTF8".into()); q.sets = vec![Set::Utf8(true)]; g(q.clone()); q.to = vec![a.clone(), a.clone(), "z@z".into()]; q.from = None; g(q);
            } }
            for m in [w.clone(), format!("{}\r\n", w), format!("a\r\n{}", w), format!("a\r\n.{}\r\nb", w), format!("{}\r\n.\r\n", w)] {
                for k in 0..3 { let mut q = p(); let b = m.clone().into_bytes(); q.msg = match k { 0 => Msg::Bytes(b), 1 => Msg::Reader(b, 3, true), _ => Msg::Failing(b, 5, 1) }; g(q); }
            }
        }
        if auth(id) { for m in MECHS { for fin in ["235 ok\r\n", "535 no\r\n"] {
            let mut go = |cs: Vec<String>, u: &str, p: &str| {
                let mut s = base(vec![Op::Auth(m, u.into(), p.into()), Op::Login(vec![m, Mech::Plain], u.into(), p.into()), Op::Quit]);
                s.server = (greet(&["AUTH PLAIN LOGIN XOAUTH2"]) + &cs.concat() + fin + &cs.concat() + fin + "221 bye\r\n").into_bytes();
                f(s);
            };
            let b = base64::encode(w);
            for c in [format!("334 {}\r\n", b), format!("334 {}\r\n", t), format!("334-{}\r\n334 {}\r\n", b, b), format!("334-{}\r\n334 VXNlcm5hbWU6\r\n", t), format!("334 {} VXNlcm5hbWU6\r\n", t), format!("235 {}\r\n", t), format!("535 {}\r\n", t), format!("535 {}\r\n", b)] {
                go(vec![c.clone()], "u", "p");
                go(vec![CH_USER.into(), c.clone()], "u", "p");
                go(vec![CH_USER.into(), CH_PASS.into(), c], "u", "p");
            }
            go(vec![CH_USER.into(), CH_PASS.into()], w, "p");
            go(vec![CH_USER.into(), CH_PASS.into()], "u", w);
            go(vec![CH_USER.into(), CH_PASS.into()], w, w);
            go(vec![], w, w);
        } } }
    } }
    if ["C11", "C10", "C16", "C18", "C06"].contains(&id) { for l in glued(d) {
        let mut p = plan();
        p.name = l[0].clone();
        p.caps = l[1..].to_vec();
        p.sets = vec![Set::Utf8(true)];
        if id == "C11" || id == "C18" { p.head = vec![Op::Login(vec![Mech::Xoauth2, Mech::Login, Mech::Plain], "u".into(), "p".into())]; p.head_replies = format!("235 ok\r\n"); }
        if id == "C10" || id == "C11" { p.tail = vec![Op::Starttls]; p.tail_replies = "220 go\r\n".into(); }
        f(p.scn());
    } }
    // every code as the reply to EHLO, and replies of some lines with the codes that mean something
    for sev in 2..6 { for cat in 0..6 { for det in 0..10 { for how in 0..2 {
        let c = format!("{}{}{}", sev, cat, det);
        let p = if how == 0 { plan().pipe() } else { plan() };
        let mut s = p.scn();
        let l = if how == 0 { reply(&c, &["mx a".into(), "PIPELINING".into(), "STARTTLS".into(), "AUTH LOGIN".into()]) } else { format!("{} mx a\r\n", c) };
        s.server = (p.greeting.clone() + &l + "250 mx2\r\n250 m\r\n250 r\r\n354 g\r\n250 d\r\n221 q\r\n").into_bytes();
        f(s);
    } } } }
    for c in ["200", "211", "214", "220", "221", "235", "250", "251", "252", "334", "354", "420", "421", "432", "450", "451", "452", "454", "455", "500", "501", "502", "503", "504", "521", "530", "534", "535", "538", "550", "551", "552", "553", "554", "555", "556"] { for n in [5, 6, 9, 20] { for at in 0..6 { for pipe in [false, true] {
        let mut p = plan().put(at, reply(c, &(0..n).map(|k| format!("line {}", k)).collect::<Vec<_>>()));
        if pipe { p = p.pipe(); }
        if at == 5 { p.tail = vec![Op::Quit, Op::Quit]; }
        if n == 6 { p.to = rcpts(2); }
        f(p.scn());
    } } } }
    // every code at every place
    for pipe in [false, true] { for sev in 2..6 { for cat in 0..6 { for det in 0..10 { for at in 0..6 {
        let c = format!("{}{}{}", sev, cat, det);
        let mut p = plan().put(at, format!("{} x\r\n", c));
        if pipe { p = p.pipe(); }
        if at == 5 { p.tail = vec![Op::Quit, Op::Quit]; }
        f(p.scn());
        if det < 2 || thorough {
            let mut p = plan().put(at, reply(&c, &["a".into(), "".into(), "250 b".into()]));
            if pipe { p = p.pipe(); }
            p.to = rcpts(2);
            f(p.scn());
        }
        if at == 2 { let mut p = plan(); if pipe { p = p.pipe(); } p.to = rcpts(3); p.rcpt = vec!["250 a\r\n".into(), format!("{} x\r\n", c), "250 c\r\n".into()]; f(p.scn()); p.rcpt[2] = "550 z\r\n".into(); f(p.scn()); }
        if at == 5 { let mut p = plan(); p.caps.push("STARTTLS".into()); p.tail = vec![Op::Starttls]; p.tail_replies = format!("{} x\r\n220 y\r\n", c); f(p.scn()); }
        if at == 4 { let mut p = plan(); p.head = vec![Op::Login(vec![Mech::Login], "u".into(), "p".into())]; p.caps.push("AUTH LOGIN".into()); p.head_replies = format!("{}{}{} x\r\n", CH_USER, CH_PASS, c); f(p.scn()); p.head_replies = format!("{} VXNlcm5hbWU6\r\n235 ok\r\n", c); f(p.scn()); }
    } } } } }
    let max = if thorough { 300_000 } else { 70_000 };
    for (k, &n) in d.ints.iter().enumerate().filter(|n| *n.1 <= max) { let lines = if k < d.given || thorough { 2100 } else { 260 }; for pipe in [false, true] {
        let p = || if pipe { plan().pipe() } else { plan() };
        let mut turn = k;
        let mut g = |p: Plan| { turn += 1; f(if p.sets.is_empty() { p.mode(turn) } else { p }.scn()) };
        // messages
        for off in 0..4usize { for tail in ["\r\n.\r\n..\r\nz", ".a\r\n", "\r", "\r\n"] {
            let mut m = vec![b'x'; n.saturating_sub(off)];
            m.extend(tail.bytes());
            let mut q = p();
            q.msg = match (off + tail.len()) % 3 { 0 => Msg::Reader(m.clone(), n, false), 1 => Msg::Reader(m.clone(), 4096, pipe), _ => Msg::Bytes(m.clone()) };
            g(q);
            if tail.len() == 1 { let mut q = p(); q.msg = Msg::Failing(m, if off == 0 { n } else { 1000 * off }, off); g(q); }
        } }
        { let mut q = p(); q.msg = Msg::Bytes((0..n).map(|k| b"\r\n."[k % 3]).collect()); g(q.clone()); q.msg = Msg::Bytes(b".\r\n".repeat(n.min(9000))); g(q.clone()); q.msg = Msg::Bytes(b"a\r\n".repeat(n.min(9000))); g(q.clone()); q.msg = Msg::Bytes(vec![b'.'; n]); g(q); }
        // replies
        for at in 0..6 { for how in 0..5 { for c in ["250", "550"] {
            if how == 2 && n > lines { continue; }
            if n > 9000 && (how > 1 || c == "550") { continue; }
            let mut q = p().put(at, long(c, n, how));
            if at == 5 { q.tail = vec![Op::Quit, Op::Quit]; }
            g(q);
        } } }
        for w in ["\u{20ac}", "\u{e4}"] { for lead in ["", "a"] { let mut q = p(); q.name = format!("{}{} hi", lead, w.repeat(n.min(9000))); q.tail_replies = format!("221 {}{}\r\n", lead, w.repeat(n.min(9000))); g(q); } }
        for how in 0..5 { let mut q = p(); q.name = "x".repeat(if how == 0 { n } else { 5 }); q.caps = match how { 0 => vec![], 1 => (0..n.min(lines)).map(|k| format!("X{}", k)).collect(), 2 => vec![format!("SIZE {}", "1".repeat(n))], 3 => vec!["X".into(); n.min(300)], _ => vec![" ".repeat(n)] };
            q.caps.extend(["SMTPUTF8".to_string(), "8BITMIME".to_string(), "STARTTLS".to_string()]); q.sets = vec![Set::Utf8(true)]; if pipe { q.caps.push("PIPELINING".into()); } q.tail = vec![Op::Starttls]; g(q); }
        // numbers of things
        if n <= lines.max(600) {
            let mut q = p(); q.to = rcpts(n); g(q.clone());
            q.rcpt = vec!["250 ok\r\n".into(); n]; q.rcpt[n - 1] = "550 last\r\n".into(); g(q.clone());
            q.rcpt[n / 2] = "450 mid\r\n".into(); g(q.clone());
            q.rcpt = vec!["250 ok\r\n".into()]; q.data = "451 no\r\n".into(); g(q.clone());
            q.data = "354 go\r\n".into(); q.done = "451 no\r\n".into(); g(q);
            for k in 0..6 { let mut q = p().mode(k); q.to = rcpts(n); g(q.clone()); q.rcpt = vec!["250 ok\r\n".into(); n]; q.rcpt[n * 2 / 3] = "451 x\r\n".into(); q.from = None; g(q); }
            for l in ["LOGIN", "PLAIN"] { for pad in [" XX", " ", "  PLAINX"] {
                let mut q = p(); q.caps.push(format!("AUTH{} {}", pad.repeat(n), l));
                q.head = vec![Op::Login(vec![Mech::Login, Mech::Plain], "u".into(), "p".into())]; q.head_replies = if l == "LOGIN" { format!("{}{}235 ok\r\n", CH_USER, CH_PASS) } else { "235 ok\r\n".into() }; g(q);
            } }
        }
        // several calls in a row
        if n <= 130 {
            let mut q = p();
            for k in 0..n { q.tail.insert(0, Op::Send(None, rcpts(1 + k % 2), Msg::Bytes(b".x".to_vec()))); q.tail_replies.insert_str(0, &format!("250 m\r\n250 r\r\n{}354 g\r\n250 d{}\r\n", if k % 2 == 1 { "250 r\r\n" } else { "" }, k)); }
            g(q.clone());
            let mut q = p();
            for k in 0..n { q.tail.insert(0, Op::Quit); q.tail_replies.insert_str(0, if k % 3 == 0 { "550 no\r\n" } else { "221 y\r\n" }); }
            g(q);
            if !pipe {
                let mut q = p();
                for k in 0..n { q.tail.insert(0, Op::Send(Some("a@b".into()), rcpts(1), Msg::Bytes(b"y".to_vec()))); q.tail_replies.insert_str(0, ["550 m\r\n", "250 m\r\n450 r\r\n", "250 m\r\n250 r\r\n550 d\r\n", "250 m\r\n250 r\r\n354 d\r\n552 c\r\n", "250 m\r\n250 r\r\n354 g\r\n250 d\r\n"][k % 5]); }
                g(q);
            }
            if auth(id) && n < 40 {
                let mut q = p(); q.caps.push("AUTH PLAIN LOGIN".into());
                for k in 0..n { q.tail.insert(0, Op::Login(vec![if k % 2 == 0 { Mech::Plain } else { Mech::Login }], "u".into(), format!("p{}", k))); }
                q.tail_replies = format!("{}221 bye\r\n", "535 no\r\n".repeat(n)); g(q.clone());
                q.tail_replies = format!("{}221 bye\r\n", "535 no\r\n".repeat(n - 1) + "235 ok\r\n"); g(q);
            }
        }
        // lengths
        let w = "a".repeat(n.min(20000));
        { let mut q = p(); q.sets = vec![Set::Hello(Name::Domain(w.clone()))]; g(q); }
        { let mut q = p(); q.from = Some(format!("{}@x", w)); q.to = vec![w.clone(), format!("x@{}", w)]; g(q); }
        if auth(id) { for m in MECHS {
            let mut q = p(); q.head = vec![Op::Auth(m, w.clone(), format!("{}>", w)), Op::Auth(m, "u".into(), "\u{e4}".repeat(n.min(9000)))]; q.head_replies = if m == Mech::Login { format!("{}{}235 ok\r\n{}{}235 ok\r\n", CH_USER, CH_PASS, CH_USER, CH_PASS) } else { "235 ok\r\n235 ok\r\n".into() }; g(q);
            for c in [format!("334 {}\r\n", base64::encode(&w)), format!("334 {}\r\n", base64::encode(format!("{}\u{e4}\u{e4}", &w[1..]))), format!("334 {}\r\n", base64::encode("\u{e4}".repeat(n.min(9000)))), format!("334 {}VXNlcm5hbWU6\r\n", " ".repeat(n)), format!("334 VXNlcm5hbWU6{}x\r\n", " ".repeat(n)), format!("334 {}\r\n", base64::encode(format!("Password:{}", w)))] {
                let mut q = p(); q.head = vec![Op::Auth(m, "u".into(), "p".into())]; q.head_replies = c + "235 ok\r\n"; g(q);
            }
        } }
        // cuts
        let mut s = p().scn(); s.chunk = n; f(s);
        let mut s = p().scn(); s.wchunk = n; s.pend = true; f(s);
        let mut s = p().scn(); s.faults.write = Some(n); f(s);
        let mut s = p().scn(); s.server.truncate(n); f(s);
    } }
}

pub fn calls(id: &str, d: &Dict, f: &mut dyn FnMut(Value)) {
    let sizes: Vec<usize> = d.ints.iter().copied().filter(|n| *n <= 9000).collect();
    let fills = ["a", ".", "\u{e4}", "\u{20ac}", "+", "=", " ", "\u{1f600}", "\r\n"];
    let mut texts: Vec<String> = d.words.clone();
    let chars: Vec<String> = d.words.iter().filter(|w| w.chars().count() == 1).cloned().collect();
    for c in &chars { for x in ["a", " ", "@", "+"] { texts.push(format!("{}{}", c, x)); texts.push(format!("{}{}", x, c)); texts.push(format!("{}{}{}", x, c, c)); } }
    match id {
        "C03" => {
            for t in &texts { for x in [t.clone(), format!("a{}b", t), format!("{}@{}", t, t)] { f(json!({"kind": "address", "text": x})); } }
            for &n in &sizes { for c in fills { f(json!({"kind": "address", "text": c.repeat(n)})); f(json!({"kind": "address", "text": format!("{}{}@x", "a".repeat(n), c)})); f(json!({"kind": "address", "text": format!("a@{}{}", "b".repeat(n), c)})); f(json!({"kind": "address", "text": format!("{}{}", c, "@".repeat(n))})); }
                if n <= 2100 { for from in [json!(null), json!("a@b")] { f(json!({"kind": "envelope", "from": from, "to": (0..n).map(|k| format!("{}@x", k)).collect::<Vec<_>>()})); f(json!({"kind": "envelope", "from": from, "to": vec!["same@x"; n]})); } } }
            let few = ["", "a", "b@c"];
            for from in [json!(null), json!(""), json!("a"), json!("b@c")] { for n in 0..4u32 { for k in 0..3usize.pow(n) { f(json!({"kind": "envelope", "from": from, "to": (0..n).map(|i| few[k / 3usize.pow(i) % 3]).collect::<Vec<_>>()})); } } }
            for t in &texts { if addr_ok(t) { f(json!({"kind": "envelope", "from": t, "to": [t, "x@y", t]})); f(json!({"kind": "envelope", "from": null, "to": ["x@y", t]})); } }
        }
        "C15" => {
            for t in &texts { for x in [t.clone(), format!("a{}b", t), format!("+{}=", t), format!("{} {}", t, t)] { f(json!({"kind": "xtext", "text": x})); } }
            for &n in &sizes { for c in fills { for e in ["", "a", "+", "\u{e4}"] { f(json!({"kind": "xtext", "text": format!("{}{}", c.repeat(n), e)})); f(json!({"kind": "xtext", "text": format!("{}{}z", e, c.repeat(n))})); } } }
        }
        "C04" | "C05" => {
            for t in &texts { let t = flat(t); for x in [format!("250 {}\r\n", t), format!("250-{}\r\n250 x\r\n", t), format!("250-x\r\n250 {}\r\n", t), format!("250{}\r\n", t), format!("{}\r\n", t), format!("{}250 x\r\n", t), format!("250 x{}", t), format!("250 x\r\n{}", t), format!("550 {}\r\n250 x\r\n", t), format!("550-{}\r\n250 x\r\n", t)] { f(json!({"kind": "parse", "text": x})); } }
            for &n in &sizes { for how in 0..5 { for c in ["250", "421", "354"] {
                if how == 2 && n > 3000 { continue; }
                let t = long(c, n, how);
                f(json!({"kind": "parse", "text": t}));
                f(json!({"kind": "parse", "text": &t[..t.len() - 1]}));
                f(json!({"kind": "parse", "text": &t[..t.len() - 2]}));
                f(json!({"kind": "parse", "text": format!("{}550 next\r\n", t)}));
                f(json!({"kind": "parse", "text": t.replacen(c, "251", 1)}));
                if let Some(k) = t.rfind(c) { f(json!({"kind": "parse", "text": format!("{}559{}", &t[..k], &t[k + 3..])})); f(json!({"kind": "parse", "text": &t[..k]})); }
                let mid = t.match_indices(c).nth(t.matches(c).count() / 2).map(|x| x.0).unwrap_or(0);
                f(json!({"kind": "parse", "text": format!("{}559{}", &t[..mid], &t[mid + 3..])}));
            } } }
        }
        "C11" => {
            for l in glued(d) { f(json!({"kind": "caps", "lines": l})); }
            for t in &texts { let t = flat(t); for w in [t.clone(), format!("{} PLAIN", t), format!("AUTH {} PLAIN", t), format!("AUTH PLAIN {} LOGIN", t), format!("STARTTLS {}", t), format!("{} STARTTLS", t), format!("{}\tAUTH", t), format!("AUTH={}", t)] {
                for l in [vec!["mx".to_string(), w.clone()], vec![w.clone()], vec![t.clone(), w.clone(), "PIPELINING".into()], vec!["mx".into(), w.clone(), "AUTH LOGIN".into(), w.clone()]] { f(json!({"kind": "caps", "lines": l})); }
            } }
            for &n in &sizes { for k in ["PIPELINING", "8BITMIME", "SMTPUTF8", "STARTTLS", "AUTH PLAIN XOAUTH2"] {
                let mut l = vec!["mx".to_string()];
                l.extend((0..n.min(3000)).map(|i| format!("X{}", i)));
                l.push(k.into());
                f(json!({"kind": "caps", "lines": l}));
                for pad in ["X", " ", "\t", "\u{e4}", "\u{2003}"] { f(json!({"kind": "caps", "lines": ["mx", format!("{} {}", k, pad.repeat(n))]})); f(json!({"kind": "caps", "lines": ["mx", format!("{}{}", pad.repeat(n), k)]})); f(json!({"kind": "caps", "lines": [pad.repeat(n), k]})); }
            }
            for w in [" X", "  NTLM", " PLAIN", "\tLOGINX"] { for m in ["PLAIN", "LOGIN", "XOAUTH2"] { f(json!({"kind": "caps", "lines": ["mx", format!("AUTH{} {}", w.repeat(n.min(3000)), m)]})); f(json!({"kind": "caps", "lines": ["mx", format!("AUTH {}{}", m, w.repeat(n.min(3000))), "STARTTLS"]})); } } }
            for a in ["PLAIN", "LOGIN", "XOAUTH2", "X"] { for b in ["PLAIN", "LOGIN", "XOAUTH2", "X"] { for c in ["PLAIN", "LOGIN", "XOAUTH2", "X"] { for l in [vec![format!("mx"), format!("AUTH {} {} {}", a, b, c)], vec![format!("mx"), format!("AUTH {}", a), format!("AUTH {}", b), format!("auth {}", c)], vec![format!("mx"), format!("AUTH {}", a), format!("PIPELINING"), format!("AUTH={} {}", b, c)]] { f(json!({"kind": "caps", "lines": l})); } } } }
        }
        "C02" | "C09" => {
            for t in &texts { for x in ["", "a", "+ ="] { f(json!({"kind": "command", "arg": t, "arg2": x})); f(json!({"kind": "command", "arg": x, "arg2": t})); f(json!({"kind": "command", "arg": t, "arg2": t})); }
                for c in [json!(t), json!("Username:"), json!("Password:"), json!(null), json!(format!("Password{}", t)), json!(format!("{}Username:", t)), json!(format!("Username:{}", t))] { f(json!({"kind": "response", "user": t, "secret": format!("p{}", t), "challenge": c})); f(json!({"kind": "response", "user": "u", "secret": "s", "challenge": c})); } }
            for &n in &sizes { for c in fills { let w = c.repeat(n); f(json!({"kind": "command", "arg": w, "arg2": "v"})); f(json!({"kind": "command", "arg": "v", "arg2": w})); f(json!({"kind": "command", "arg": "v", "arg2": format!("x{}", w)}));
                for ch in [json!("Username"), json!("Password"), json!(null), json!(w)] { f(json!({"kind": "response", "user": w, "secret": format!("p{}", w), "challenge": ch})); } } }
        }
        _ => (),
    }
}
