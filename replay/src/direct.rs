//! Checks of single functions.
use crate::exec::{creds, reply_of};
use crate::gen::Rng;
use crate::model::*;
use async_smtp::authentication::*;
use async_smtp::commands::*;
use async_smtp::error::Error;
use async_smtp::extension::*;
use async_smtp::response::*;
use async_smtp::util::XText;
use async_smtp::*;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub type Out = Vec<(Vec<&'static str>, String)>;

fn got(s: &str) -> Result<Parsed, String> {
    catch_unwind(|| match s.parse::<Response>() {
        Ok(r) => Parsed::Got(reply_of(&r), 0),
        Err(Error::Parsing(nom::error::ErrorKind::Complete)) => Parsed::Incomplete,
        Err(_) => Parsed::Bad,
    }).map_err(|_| "panic".to_string())
}
fn ok_addr(s: &str) -> bool { s.chars().all(|c| ('!'..='~').contains(&c) && c != '<' && c != '>') }
pub fn xdecode(s: &str) -> Option<String> {
    let b: Vec<char> = s.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c == '+' {
            let h = |c: char| if c.is_ascii_digit() || ('A'..='F').contains(&c) { c.to_digit(16) } else { None };
            out.push((h(*b.get(i + 1)?)? * 16 + h(*b.get(i + 2)?)?) as u8 as char);
            i += 3;
        } else if (c as u32) < 33 || c == '=' || c as u32 == 127 { return None; } else { out.push(c); i += 1; }
    }
    Some(out)
}
fn needs(c: char) -> bool { (c as u32) < 33 || c == '+' || c == '=' || c as u32 == 127 }
fn code(c: [u8; 3]) -> Code {
    let s = [Severity::PositiveCompletion, Severity::PositiveIntermediate, Severity::TransientNegativeCompletion, Severity::PermanentNegativeCompletion][c[0] as usize - 2];
    let k = [Category::Syntax, Category::Information, Category::Connections, Category::Unspecified3, Category::Unspecified4, Category::MailSystem][c[1] as usize];
    let d = [Detail::Zero, Detail::One, Detail::Two, Detail::Three, Detail::Four, Detail::Five, Detail::Six, Detail::Seven, Detail::Eight, Detail::Nine][c[2] as usize];
    Code::new(s, k, d)
}
pub fn response(r: &Reply) -> Response { Response::new(code(r.code), r.lines.clone()) }

/// Runs one case, given as JSON; the result lists what is wrong.
pub fn run(v: &Value) -> Out {
    let r = catch_unwind(AssertUnwindSafe(|| inner(v)));
    match r {
        Ok(o) => o,
        Err(p) => vec![(vec!["C14"], format!("panics: {}", p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()))],
    }
}
fn st(v: &Value) -> String { v.as_str().unwrap_or("").to_string() }
fn inner(v: &Value) -> Out {
    let mut o: Out = vec![];
    match v["kind"].as_str().unwrap() {
        "parse" => {
            let s = st(&v["text"]);
            let want = match parse(&s) { Parsed::Got(r, _) => Parsed::Got(r, 0), x => x };
            match got(&s) {
                Err(_) => o.push((vec!["C14"], "parsing panics".into())),
                Ok(g) => if g != want { o.push((vec!["C04"], format!("parsed as {:?}, expected {:?}", g, want))); }
            }
        }
        "address" => {
            let s = st(&v["text"]);
            let a = EmailAddress::new(s.clone());
            if a.is_ok() != ok_addr(&s) { o.push((vec!["C03", "C02"], format!("address accepted: {}, expected {}", a.is_ok(), ok_addr(&s)))); }
            if s.parse::<EmailAddress>().is_ok() != a.is_ok() { o.push((vec!["C03"], "from_str and new differ".into())); }
            if let Ok(a) = a {
                let t: &str = a.as_ref();
                let os: &std::ffi::OsStr = a.as_ref();
                if t != s || a.to_string() != s || os != std::ffi::OsStr::new(&s) { o.push((vec!["C03"], "the accessors give another text".into())); }
                if let Ok(b) = s.parse::<EmailAddress>() { if a != b { o.push((vec!["C03"], "from_str and new differ".into())); } }
            }
        }
        "envelope" => {
            let from = v["from"].as_str().map(|s| EmailAddress::new(s.into())).transpose();
            let to: Result<Vec<EmailAddress>, _> = v["to"].as_array().unwrap().iter().map(|s| EmailAddress::new(st(s))).collect();
            let (from, to) = match (from, to) {
                (Ok(f), Ok(t)) => (f, t),
                _ => { o.push((vec!["C03"], "a well formed address is rejected".into())); return o; }
            };
            match Envelope::new(from.clone(), to.clone()) {
                Err(_) => if !to.is_empty() { o.push((vec!["C03"], "envelope with recipients rejected".into())); },
                Ok(e) => {
                    if to.is_empty() { o.push((vec!["C03"], "envelope without recipients accepted".into())); }
                    if e.to() != &to[..] || e.from() != from.as_ref() { o.push((vec!["C03"], "the envelope reports other addresses".into())); }
                    let e2 = SendableEmail::new(e.clone(), "x");
                    if e2.envelope() != &e { o.push((vec!["C03"], "the email reports another envelope".into())); }
                }
            }
        }
        "xtext" => {
            let s = st(&v["text"]);
            let t = XText(&s).to_string();
            let mut bad = vec![];
            match xdecode(&t) { None => bad.push("not valid xtext".to_string()), Some(d) => if d != s { bad.push(format!("decodes to {:?}", d)) } }
            let want: String = s.chars().map(|c| if needs(c) { format!("+{:02X}", c as u32) } else { c.to_string() }).collect();
            if bad.is_empty() && t != want { bad.push(format!("changes characters that need no encoding, expected {:?}", want)); }
            for b in bad { o.push((vec!["C15", "C02"], format!("encoded as {:?}: {}", t, b))); }
        }
        "caps" => {
            let lines: Vec<String> = v["lines"].as_array().unwrap().iter().map(st).collect();
            let r = Reply { code: [2, 5, 0], lines };
            match (ServerInfo::from_response(&response(&r)), caps(&r)) {
                (Err(_), None) => (),
                (Ok(i), Some(c)) => {
                    let _ = i.to_string();
                    if i.name != c.name { o.push((vec!["C11"], format!("server name {:?}, expected {:?}", i.name, c.name))); }
                    let want = [(Extension::Pipelining, c.pipe), (Extension::EightBitMime, c.eight), (Extension::SmtpUtfEight, c.utf8), (Extension::StartTls, c.tls)];
                    let mut n = 0;
                    for (e, w) in want { n += w as usize; if i.supports_feature(e) != w || i.features.contains(&e) != w { o.push((vec!["C11"], format!("{} supported: {}, expected {}", e, i.supports_feature(e), w))); } }
                    for m in MECHS {
                        let w = c.mechs.contains(&m);
                        n += w as usize;
                        if i.supports_auth_mechanism(m.real()) != w || i.supports_feature(Extension::Authentication(m.real())) != w || i.features.contains(&Extension::Authentication(m.real())) != w { o.push((vec!["C11"], format!("mechanism {} supported: {}, expected {}", m.name(), i.supports_auth_mechanism(m.real()), w))); }
                    }
                    if i.features.len() != n { o.push((vec!["C11"], format!("{} capabilities recorded, expected {}", i.features.len(), n))); }
                }
                (g, w) => o.push((vec!["C11"], format!("capabilities {:?}, expected {:?}", g.map(|g| g.to_string()).map_err(|e| e.to_string()), w))),
            }
        }
        "command" => {
            let a = st(&v["arg"]);
            let b = st(&v["arg2"]);
            let e = |s: &str| EmailAddress::new(s.into()).unwrap();
            if ["x@y", a.as_str()].iter().any(|s| ok_addr(s) && EmailAddress::new(s.to_string()).is_err()) {
                o.push((vec!["C03"], "a well formed address is rejected".into()));
                return o;
            }
            let enc: String = b.chars().map(|c| if needs(c) { format!("+{:02X}", c as u32) } else { c.to_string() }).collect();
            let ad = if ok_addr(&a) { a.clone() } else { "x@y".into() };
            let o1 = MailParameter::Other { keyword: "KEY".into(), value: Some(b.clone()) };
            let cases: Vec<(String, String)> = vec![
                (EhloCommand::new(ClientId::new(a.clone())).to_string(), format!("EHLO {}\r\n", a)),
                (EhloCommand::new(ClientId::Ipv4([1, 22, 133, 4].into())).to_string(), "EHLO [1.22.133.4]\r\n".into()),
                (EhloCommand::new(ClientId::Ipv6("2001:db8::ff".parse().unwrap())).to_string(), "EHLO [IPv6:2001:db8::ff]\r\n".into()),
                (StarttlsCommand.to_string(), "STARTTLS\r\n".into()), (DataCommand.to_string(), "DATA\r\n".into()), (QuitCommand.to_string(), "QUIT\r\n".into()),
                (NoopCommand.to_string(), "NOOP\r\n".into()), (RsetCommand.to_string(), "RSET\r\n".into()),
                (HelpCommand::new(None).to_string(), "HELP\r\n".into()), (HelpCommand::new(Some(a.clone())).to_string(), format!("HELP {}\r\n", a)),
                (VrfyCommand::new(a.clone()).to_string(), format!("VRFY {}\r\n", a)), (ExpnCommand::new(a.clone()).to_string(), format!("EXPN {}\r\n", a)),
                (MailCommand::new(None, vec![]).to_string(), "MAIL FROM:<>\r\n".into()),
                (MailCommand::new(Some(e(&ad)), vec![]).to_string(), format!("MAIL FROM:<{}>\r\n", ad)),
                (MailCommand::new(Some(e(&ad)), vec![o1.clone(), MailParameter::Size(4242), MailParameter::Body(MailBodyParameter::SevenBit), MailParameter::SmtpUtfEight, MailParameter::Other { keyword: "K".into(), value: None }, MailParameter::Body(MailBodyParameter::EightBitMime)]).to_string(),
                 format!("MAIL FROM:<{}> KEY={} SIZE=4242 BODY=7BIT SMTPUTF8 K BODY=8BITMIME\r\n", ad, enc)),
                (MailCommand::new(None, vec![MailParameter::Size(usize::MAX), MailParameter::Size(0), o1]).to_string(), format!("MAIL FROM:<> SIZE={} SIZE=0 KEY={}\r\n", usize::MAX, enc)),
                (RcptCommand::new(e(&ad), vec![]).to_string(), format!("RCPT TO:<{}>\r\n", ad)),
                (RcptCommand::new(e(&ad), vec![RcptParameter::Other { keyword: "NOTIFY".into(), value: Some(b.clone()) }, RcptParameter::Other { keyword: "Z".into(), value: None }]).to_string(), format!("RCPT TO:<{}> NOTIFY={} Z\r\n", ad, enc)),
            ];
            for (g, w) in cases { if g != w { o.push((vec!["C02"], format!("command text {:?}, expected {:?}", g, w))); } }
            for m in MECHS {
                let want = match initial(m, &a, &b) { Some(i) => format!("AUTH {} {}\r\n", m.name(), base64::encode(i)), None => format!("AUTH {}\r\n", m.name()) };
                match AuthCommand::new(m.real(), creds(&a, &b), None) { Ok(c) => if c.to_string() != want { o.push((vec!["C02", "C09"], format!("command text {:?}, expected {:?}", c.to_string(), want))); }, Err(e) => o.push((vec!["C09"], format!("AUTH {} fails: {}", m.name(), e))) }
            }
            for x in crate::gen::V4 { let c = EhloCommand::new(ClientId::Ipv4(x.parse().unwrap())).to_string(); if c != format!("EHLO [{}]\r\n", x) { o.push((vec!["C02", "C17"], format!("command text {:?} for {}", c, x))); } }
            for x in crate::gen::V6 { let c = EhloCommand::new(ClientId::Ipv6(x.parse().unwrap())).to_string(); if c != format!("EHLO [IPv6:{}]\r\n", x) { o.push((vec!["C02", "C17"], format!("command text {:?} for {}", c, x))); } }
            // the first mechanism with an initial response, and the names
            for (m, n) in [(Mechanism::Plain, "PLAIN"), (Mechanism::Login, "LOGIN"), (Mechanism::Xoauth2, "XOAUTH2")] {
                if m.to_string() != n { o.push((vec!["C02", "C09"], format!("mechanism name {}, expected {}", m, n))); }
            }
        }
        "response" => {
            // Mechanism::response and the two constructors
            let (u, p, c) = (st(&v["user"]), st(&v["secret"]), st(&v["challenge"]));
            let none = v["challenge"].is_null();
            for m in MECHS {
                let want = if none { initial(m, &u, &p) } else if m != Mech::Login { None } else { match c.as_str() { "User Name" | "Username:" | "Username" => Some(u.clone()), "Password" | "Password:" => Some(p.clone()), _ => None } };
                let g = m.real().response(&creds(&u, &p), if none { None } else { Some(&c) }).ok();
                if g != want { o.push((vec!["C09"], format!("{} response {:?}, expected {:?}", m.name(), g, want))); }
                if !none {
                    let r = Reply { code: [3, 3, 4], lines: vec![base64::encode(&c)] };
                    let g = AuthCommand::new_from_response(m.real(), creds(&u, &p), &response(&r)).ok().map(|c| c.to_string());
                    let ans = answer(m, &u, &p, &r).map(|a| format!("{}\r\n", base64::encode(a)));
                    if g != ans { o.push((vec!["C09", "C02"], format!("{} answer {:?}, expected {:?}", m.name(), g, ans))); }
                    for code in [[3, 3, 5], [2, 3, 4], [3, 5, 4], [5, 3, 4]] {
                        let r = Reply { code, lines: r.lines.clone() };
                        if AuthCommand::new_from_response(m.real(), creds(&u, &p), &response(&r)).is_ok() { o.push((vec!["C09"], format!("{:?} is taken as a challenge", code))); }
                    }
                    let g = AuthCommand::new(m.real(), creds(&u, &p), Some(c.clone())).ok().map(|c| c.to_string());
                    if m == Mech::Login { let w = want.map(|a| format!("{}\r\n", base64::encode(a))); if g != w { o.push((vec!["C09"], format!("{} answer {:?}, expected {:?}", m.name(), g, w))); } }
                }
            }
        }
        "code" => {
            let c = [v["code"][0].as_u64().unwrap() as u8, v["code"][1].as_u64().unwrap() as u8, v["code"][2].as_u64().unwrap() as u8];
            let lines: Vec<String> = v["lines"].as_array().unwrap().iter().map(st).collect();
            let rep = Reply { code: c, lines };
            let r = response(&rep);
            let text = format!("{}{}{}", c[0], c[1], c[2]);
            if r.code.to_string() != text { o.push((vec!["C05", "C07"], format!("the code {} is shown as {}", text, r.code))); }
            if r.is_positive() != (c[0] <= 3) { o.push((vec!["C05", "C07"], format!("{} positive: {}", text, r.is_positive()))); }
            for n in 200..560u16 { if r.has_code(n) != (n.to_string() == text) { o.push((vec!["C05", "C09"], format!("{} has code {}", text, n))); } }
            if r.first_word() != rep.lines.get(0).and_then(|l| l.split_whitespace().next()) { o.push((vec!["C11", "C09"], format!("first word {:?}", r.first_word()))); }
            if r.first_line() != rep.lines.get(0).map(|l| &l[..]) { o.push((vec!["C05"], format!("first line {:?}", r.first_line()))); }
            let e: Error = r.into();
            let _ = e.to_string();
            let ok = match (&e, c[0]) { (Error::Transient(r), 4) => reply_of(r) == rep, (Error::Permanent(r), 5) => reply_of(r) == rep, (Error::Transient(_), _) | (Error::Permanent(_), _) => false, (_, 2) | (_, 3) => true, _ => false };
            if !ok { o.push((vec!["C05", "C07"], format!("{} becomes the error {:?}", text, e))); }
        }
        k => panic!("unknown case {}", k),
    }
    o
}

const WORDS: [&str; 20] = ["PIPELINING", "8BITMIME", "SMTPUTF8", "STARTTLS", "AUTH", "PLAIN", "LOGIN", "XOAUTH2", "pipelining", "8BitMime", "smtputf8", "StartTls", "Auth", "plain", "X-FOO", "AUTH=PLAIN", "", "SIZE", "\u{131}", "PLAIN,LOGIN"];
const SEPS: [&str; 6] = [" ", "  ", "\t", "\u{2003}", " \u{a0}", "\x0b"];

pub fn directed(id: &str, thorough: bool, r: &mut Rng, f: &mut dyn FnMut(Value)) {
    match id {
        "C03" => {
            for c in 0..0x3000u32 { if let Some(c) = char::from_u32(c) { for t in [format!("{}", c), format!("a{}b", c), format!("a@b{}", c)] { f(json!({"kind": "address", "text": t})); } } }
            for c in 0x3000..0x110000u32 { if c % 97 == 0 || thorough { if let Some(c) = char::from_u32(c) { f(json!({"kind": "address", "text": format!("a{}", c)})); } } }
            f(json!({"kind": "address", "text": ""}));
            for n in 0..5usize { for from in [json!(null), json!(""), json!("a@b")] { f(json!({"kind": "envelope", "from": from, "to": (0..n).map(|k| format!("{}@x", k / 2)).collect::<Vec<_>>()})); } }
        }
        "C15" => {
            for c in 0..0x110000u32 { if c < 0x3000 || c % 31 == 0 || thorough { if let Some(c) = char::from_u32(c) { f(json!({"kind": "xtext", "text": format!("{}", c)})); f(json!({"kind": "xtext", "text": format!("a{}b", c)})); } } }
            let abc = ['+', '=', ' ', '\0', '\n', '\x7f', 'a', '\u{e4}', '4', '\x1f', '!', '~'];
            for n in 0..5usize { for k in 0..abc.len().pow(n as u32) { let mut x = k; let t: String = (0..n).map(|_| { let c = abc[x % abc.len()]; x /= abc.len(); c }).collect(); f(json!({"kind": "xtext", "text": t})); } }
        }
        "C04" | "C05" => {
            if id == "C05" || thorough { for a in 2..6u8 { for b in 0..6u8 { for c in 0..10u8 { for l in [vec![], vec!["x y"], vec!["", "z"], vec![" \u{2003}w\u{a0}v", "q"]] { f(json!({"kind": "code", "code": [a, b, c], "lines": l})); } } } } }
            let abc = ["2", "6", "0", "-", " ", "\r", "\n", "a"];
            let max = if id == "C05" { 4 } else if thorough { 7 } else { 6 };
            for n in 0..=max { for k in 0..8usize.pow(n as u32) { let mut x = k; let t: String = (0..n).map(|_| { let c = abc[x % 8]; x /= 8; c }).collect(); f(json!({"kind": "parse", "text": t})); } }
            for n in 0..=5u32 { for k in 0..8usize.pow(n) { let mut x = k; let t: String = (0..n).map(|_| { let c = abc[x % 8]; x /= 8; c }).collect(); f(json!({"kind": "parse", "text": format!("250{}", t)})); f(json!({"kind": "parse", "text": format!("250-a\r\n250{}", t)})); } }
            for code in 100..700 { for t in [format!("{} x\r\n", code), format!("{}\r\n", code), format!("{}-a\r\n{} b\r\nrest", code, code), format!("250-a\r\n{} b\r\n", code), format!("{}-a\r\n250-b\r\n{} c\r\n", code, code)] { f(json!({"kind": "parse", "text": t})); } }
        }
        "C11" => {
            for w in WORDS { for s in SEPS { for x in WORDS {
                for l in [vec!["mx".to_string(), format!("{}{}{}", w, s, x)], vec![format!("{}{}{}", w, s, x)], vec!["mx".into(), format!("{}{}{}", s, w, s), x.to_string()], vec!["mx".into(), format!("{}{}{}{}", w, s, "PLAIN ", x)]] { f(json!({"kind": "caps", "lines": l})); }
            } } }
            f(json!({"kind": "caps", "lines": []}));
            f(json!({"kind": "caps", "lines": [""]}));
            f(json!({"kind": "caps", "lines": [" ", "mx PIPELINING"]}));
        }
        "C02" | "C09" => {
            let args = ["", "a", "x@y", "+", "a b", "\r\n", "a=b+c", "\u{e4}", "%", "{}", "\0", "user@example.org", "\x7f\x1f", "====", "~!@", "aaa", "aaaa", "long-long-long-long-long-long-long-long-long-long-long-long-long-long-long-long-long"];
            for a in args { for b in args { f(json!({"kind": "command", "arg": a, "arg2": b})); } }
            for (u, p) in crate::gen::CREDS { for c in ["Username:", "Username", "User Name", "Password:", "Password", "", "username", "Username:\0", "User Name:", "Password: ", "Pass", "Password\0", "\u{dc}", "Passwort:", " Username", "User name", "USERNAME:"] { f(json!({"kind": "response", "user": u, "secret": p, "challenge": c})); }
                f(json!({"kind": "response", "user": u, "secret": p, "challenge": null})); }
            if id == "C09" { for a in 2..6u8 { for b in 0..6u8 { for c in 0..10u8 { f(json!({"kind": "code", "code": [a, b, c], "lines": ["x y"]})); } } } }
        }
        _ => (),
    }
    let _ = r;
}
/// random cases
pub fn random(id: &str, r: &mut Rng) -> Option<Value> {
    let text = |r: &mut Rng, abc: &[&str], n: usize| { let k = r.n(n); (0..k).map(|_| r.pick(abc).to_string()).collect::<String>() };
    Some(match id {
        "C03" => json!({"kind": "address", "text": text(r, &["a", "@", ".", "<", ">", " ", "\t", "\u{e4}", "\x7f", "\0", "~", "!", "\\", "\"", "Z", "0", "b", "c", "d"], 12)}),
        "C15" => json!({"kind": "xtext", "text": text(r, &["a", "+", "=", " ", "\u{e4}", "\u{1f600}", "\x01", "\x10", "\x7f", "4", "F", "\u{80}", "z"], 20)}),
        "C04" | "C05" | "C07" => {
            let mut s = String::new();
            let c = r.pick(&["250", "354", "451", "559", "200", "334"]).to_string();
            let n = r.n(5);
            for _ in 0..n { s += &format!("{}-{}\r\n", c, text(r, &["a", " ", "\r", "\n", "2", "-", "\u{e4}", "250 "], 6)); }
            s += &match r.n(3) { 0 => format!("{}\r\n", c), _ => format!("{} {}\r\n", c, text(r, &["a", " ", "\r", "\n", "2", "-"], 6)) };
            if r.p(1, 3) { s += &text(r, &["2", "5", "0", " ", "-", "\r\n", "x"], 8); }
            if r.p(1, 2) { let k = r.n(s.len() + 1); if s.is_char_boundary(k) { if r.p(1, 2) { s.truncate(k); } else if k < s.len() && s.is_char_boundary(k + 1) { s.remove(k); } else { s.insert(k, *r.pick(&['2', '\r', '\n', ' ', '-'])); } } }
            json!({"kind": "parse", "text": s})
        }
        "C11" => {
            let n = 1 + r.n(5);
            let l: Vec<String> = (0..n).map(|_| { let k = r.n(5); (0..k).map(|_| format!("{}{}", r.pick(&WORDS), r.pick(&SEPS))).collect::<String>() }).collect();
            json!({"kind": "caps", "lines": l})
        }
        "C02" | "C09" => {
            let abc = ["a", "+", "=", " ", "\r\n", "<", "x@y", "\u{e4}", "\0", "Username", "1"];
            if r.p(1, 2) { json!({"kind": "command", "arg": text(r, &abc, 6), "arg2": text(r, &abc, 10)}) } else { json!({"kind": "response", "user": text(r, &abc, 6), "secret": text(r, &abc, 6), "challenge": text(r, &["User", "name", " ", ":", "Name", "Pass", "word", "x"], 5)}) }
        }
        "C14" | "C21" => { let k = *r.pick(&["C03", "C15", "C04", "C11", "C02"]); return random(k, r); }
        _ => return None,
    })
}
