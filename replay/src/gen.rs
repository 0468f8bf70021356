//! Sessions to try.
use crate::mock::Faults;
use crate::model::*;

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545F4914F6CDD1D) >> 11
    }
    pub fn n(&mut self, k: usize) -> usize { (self.next() % k as u64) as usize }
    pub fn p(&mut self, num: usize, den: usize) -> bool { self.n(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.n(v.len())] }
}
pub fn base(ops: Vec<Op>) -> Scn {
    Scn { sets: vec![], server: vec![], chunk: 1 << 20, wchunk: 1 << 20, pend: false, faults: Faults::default(), ops }
}
pub fn greet(c: &[&str]) -> String {
    let mut s = "220 mx ESMTP\r\n".to_string();
    s += &ehlo(c);
    s
}
pub fn ehlo(c: &[&str]) -> String {
    let mut l = vec!["mx.example.org greets you".to_string()];
    l.extend(c.iter().map(|x| x.to_string()));
    reply("250", &l)
}
pub fn reply(code: &str, lines: &[String]) -> String {
    let mut s = String::new();
    for (i, l) in lines.iter().enumerate() {
        if i + 1 < lines.len() { s += &format!("{}-{}\r\n", code, l) } else { s += &format!("{} {}\r\n", code, l) }
    }
    s
}
pub const CH_USER: &str = "334 VXNlcm5hbWU6\r\n";
pub const CH_PASS: &str = "334 UGFzc3dvcmQ6\r\n";
pub fn challenges() -> Vec<String> {
    let b = |s: &[u8]| base64::encode(s);
    vec![
        CH_USER.into(), CH_PASS.into(), format!("334 {}\r\n", b(b"User Name")), format!("334 {}\r\n", b(b"Username")), format!("334 {}\r\n", b(b"Password")),
        format!("334 {} more\r\n", b(b"Password:")), format!("334-{}\r\n334 {}\r\n", b(b"Username:"), b(b"Password:")),
        format!("334 {}\r\n", b(b"username:")), format!("334 {}\r\n", b(b"PASSWORD")), format!("334 {}\r\n", b(b"Username: ")), format!("334 {}\r\n", b(b"Pass")), format!("334 {}\r\n", b(b"User Name\0")),
        "334 \r\n".into(), "334\r\n".into(), "334 =\r\n".into(), "334 VXNlcm5hbWU6=\r\n".into(), "334 !!!!\r\n".into(), format!("334 {}\r\n", b(&[0xff, 0xfe])),
        "334 VXNlcm5hbWU\r\n".into(), "334 \u{2003}VXNlcm5hbWU6\u{2003}\r\n".into(), "334  \t UGFzc3dvcmQ6\r\n".into(),
        "335 VXNlcm5hbWU6\r\n".into(), "330 VXNlcm5hbWU6\r\n".into(), "234 UGFzc3dvcmQ6\r\n".into(), "354 UGFzc3dvcmQ6\r\n".into(),
    ]
}
pub const FINALS: [&str; 8] = ["235 ok\r\n", "250 ok\r\n", "353 x\r\n", "535 no\r\n", "454 temp\r\n", "534-a\r\n534 b\r\n", "junk\r\n", ""];
pub const CREDS: [(&str, &str); 6] = [("alice", "wonderland"), ("", ""), ("user@example.org", "p\u{e4}ss w\u{f6}rd"), ("a\r\nQUIT\r\n", "\r\n.\r\n"), ("Username:", "Password:"), ("averyveryverylongusernamethatislongerthanseventysixcharacters@example.org", "anevenlongersecretxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx")];
pub const CAPS: [&str; 7] = ["PIPELINING", "8BITMIME", "SMTPUTF8", "STARTTLS", "AUTH PLAIN", "AUTH LOGIN", "AUTH XOAUTH2"];
pub fn rcpts(n: usize) -> Vec<String> { (0..n).map(|k| format!("r{}@example.org", k)).collect() }
pub fn msg(r: &mut Rng, big: bool) -> Vec<u8> {
    let n = if big { r.n(40) * r.n(400) } else { r.n(12) };
    (0..n).map(|_| *r.pick(&[b'.', b'.', b'\r', b'\n', b'\r', b'\n', b'a', b' ', 0xe4, 0])).collect()
}
pub fn addr(r: &mut Rng) -> String {
    if r.p(2, 3) { return r.pick(&["a@b", "alice@example.org", "\"q(x)\"@y", "", "%s{}@x", "x+y=z@w", "postmaster"]).to_string(); }
    let n = r.n(20);
    (0..n).map(|_| { let c = (33 + r.n(94)) as u8 as char; if c == '<' || c == '>' { '_' } else { c } }).collect()
}
pub const V4: [&str; 6] = ["10.1.2.3", "127.0.0.1", "0.0.0.0", "255.255.255.255", "192.168.100.200", "169.254.0.1"];
pub const V6: [&str; 9] = ["2001:db8::1", "::", "::1", "::ffff:10.1.2.3", "fe80::1", "ff02::1", "2001:db8:1111:2222:3333:4444:5555:6666", "fc00::ff", "64:ff9b::102:304"];
pub fn any_reply(r: &mut Rng, good: bool) -> String {
    let code = if good { *r.pick(&["250", "220", "354", "235", "200", "359", "251"]) } else { *r.pick(&["550", "450", "421", "554", "500", "559", "400"]) };
    let n = 1 + if r.p(1, 3) { r.n(4) } else { 0 };
    let lines: Vec<String> = (0..n).map(|_| r.pick(&["OK", "", "2.1.0 fine", " two  words ", "a\rb", "x\ny", "250 nested", "250-x", "\u{e4}\u{2003}", "-", "queued as 12345"]).to_string()).collect();
    if n == 1 && r.p(1, 12) { return format!("{}\r\n", code); }
    reply(code, &lines)
}
pub fn bad_text(r: &mut Rng) -> Vec<u8> {
    match r.n(9) {
        0 => b"250-a\r\n251 b\r\n".to_vec(),
        1 => b"199 x\r\n".to_vec(),
        2 => b"260 x\r\n".to_vec(),
        3 => b"garbage\r\n".to_vec(),
        4 => b"\r\n".to_vec(),
        5 => vec![b'2', b'5', b'0', b' ', 0xff, b'\r', b'\n'],
        6 => b"250x\r\n".to_vec(),
        7 => "2\u{e4}0 x\r\n".as_bytes().to_vec(),
        _ => b"250\n".to_vec(),
    }
}
pub fn random(r: &mut Rng) -> Scn {
    let mut caps: Vec<String> = vec![];
    for c in CAPS { if r.p(1, 2) { caps.push(if r.p(1, 4) { let (a, b) = c.split_once(' ').unwrap_or((c, "")); format!("{} {}", a.to_lowercase(), b).trim_end().to_string() } else { c.to_string() }); } }
    if r.p(1, 3) { caps.push(r.pick(&["SIZE 1000", "AUTH=PLAIN", "AUTH PLAIN LOGIN XOAUTH2", "AUTH plain", "xPIPELINING", "", " STARTTLS ", "PIPELINING\t8BITMIME", "8BITMIMEX", "auth", "AUTH  LOGIN\u{2003}PLAIN", "HELP STARTTLS"]).to_string()); }
    let mut sets = vec![];
    for _ in 0..r.n(5) {
        sets.push(match r.n(6) {
            0 | 1 => Set::Utf8(r.p(2, 3)), 2 => Set::Pipe(r.p(1, 2)), 3 => Set::Hello(Name::Domain(r.pick(&["client.example", "x", "[1.2.3.4]", "b\u{fc}cher.example"]).to_string())),
            4 => Set::Hello(if r.p(1, 2) { Name::V4(r.pick(&V4).to_string()) } else { Name::V6(r.pick(&V6).to_string()) }), _ => if r.p(1, 3) { Set::NoGreeting } else { Set::Utf8(true) },
        });
    }
    let mut s = base(vec![]);
    let mut srv: Vec<u8> = vec![];
    let bad = r.p(1, 6);
    let g = !r.p(1, 25);
    if !sets.contains(&Set::NoGreeting) { srv.extend(any_reply(r, g).as_bytes()); }
    s.sets = sets;
    let first = if r.p(1, 30) { "".to_string() } else { r.pick(&["mx", "mx.example.org hi", "STARTTLS", "mx PIPELINING", "\u{e4}\u{f6} x"]).to_string() };
    let mut l = vec![first];
    l.extend(caps);
    srv.extend(reply("250", &l).as_bytes());
    let n = r.n(4);
    for _ in 0..n {
        let cr = *r.pick(&CREDS);
        let mech = *r.pick(&MECHS);
        let ok = !r.p(1, 6);
        match r.n(10) {
            0 => { s.ops.push(Op::Quit); srv.extend(any_reply(r, ok).as_bytes()); }
            1 | 2 => {
                if r.p(1, 2) { s.ops.push(Op::Auth(mech, cr.0.into(), cr.1.into())); } else {
                    let k = r.n(4);
                    s.ops.push(Op::Login((0..k).map(|_| *r.pick(&MECHS)).collect(), cr.0.into(), cr.1.into()));
                }
                let ch = challenges();
                if mech == Mech::Login || r.p(1, 4) {
                    let k = if r.p(1, 8) { 8 + r.n(5) } else { r.n(4) };
                    for i in 0..k { if r.p(2, 3) { srv.extend(if i % 2 == 0 { CH_USER } else { CH_PASS }.as_bytes()); } else { srv.extend(r.pick(&ch).as_bytes()); } }
                }
                srv.extend(r.pick(&FINALS).as_bytes());
            }
            3 => { s.ops.push(Op::Starttls); srv.extend(any_reply(r, ok).as_bytes()); break; }
            _ => {
                let k = 1 + if r.p(1, 2) { r.n(4) } else { 0 };
                let b = r.p(1, 20);
                let m = msg(r, b);
                let c = 1 + r.n(6);
                let m = match r.n(8) { 0 => Msg::Failing(m, c, r.n(9)), 1 | 2 => Msg::Reader(m, c, r.p(1, 2)), _ => Msg::Bytes(m) };
                let from = if r.p(1, 4) { None } else { Some(addr(r)) };
                s.ops.push(Op::Send(from, (0..k).map(|_| addr(r)).collect(), m));
                let neg = if ok { k + 10 } else { r.n(k + 3) };
                for i in 0..k + 3 { srv.extend(any_reply(r, i != neg).as_bytes()); if bad && r.p(1, 6) { srv.extend(bad_text(r)); } }
            }
        }
    }
    if bad {
        match r.n(4) {
            0 => { let k = r.n(srv.len() + 1); srv.truncate(k); }
            1 => { let k = r.n(srv.len()); srv[k] = *r.pick(&[b'\r', b'\n', b' ', b'-', b'2', b'3', b'4', b'5', b'6', 0xff, b'0']); }
            2 => { let k = r.n(srv.len()); srv.remove(k); }
            _ => { let k = r.n(srv.len()); let c = *r.pick(&[b'\r', b'\n', b' ', b'-', b'2']); srv.insert(k, c); }
        }
    } else if r.p(1, 6) {
        s.faults.kind = if r.p(1, 2) { 0 } else { r.n(crate::mock::KINDS.len() - 1) };
        match r.n(3) {
            0 => s.faults.write = Some(r.n(200)),
            1 => s.faults.flush = Some(r.n(10)),
            _ => { s.faults.read = true; let k = r.n(srv.len() + 1); srv.truncate(k); }
        }
    }
    s.server = srv;
    if r.p(1, 3) { s.chunk = 1 + r.n(8); }
    if r.p(1, 4) { s.wchunk = 1 + r.n(8); }
    s.pend = r.p(1, 4);
    s
}

/// The directed sessions of a property.
pub fn directed(id: &str, thorough: bool, f: &mut dyn FnMut(Scn)) {
    let send = |m: Msg, n: usize| Op::Send(Some("s@example.org".into()), rcpts(n), m);
    match id {
        "C01" => {
            let g = greet(&[]) + "250 a\r\n250 b\r\n354 go\r\n250 done\r\n";
            let abc = [b'.', b'\r', b'\n', b'a'];
            let max = if thorough { 8 } else { 6 };
            for n in 0..=max {
                for k in 0..4usize.pow(n as u32) {
                    let mut x = k;
                    let m: Vec<u8> = (0..n).map(|_| { let c = abc[x % 4]; x /= 4; c }).collect();
                    let mut s = base(vec![send(if n <= 5 && k % 3 == 0 { Msg::Reader(m, 1 + k % 3, k % 2 == 0) } else { Msg::Bytes(m) }, 1)]);
                    s.server = g.clone().into_bytes();
                    f(s);
                }
            }
            for size in [100usize, 511, 512, 513, 1023, 1024, 1025, 4096, 8191, 8192, 8193, 16384, 16385, 65536, 70001] {
                for t in 0..6 {
                    let mut m = vec![b'x'; size];
                    match t {
                        1 => for k in (0..size).step_by(7) { m[k] = b'.' },
                        2 => for k in (0..size.saturating_sub(2)).step_by(5) { m[k] = b'\r'; m[k + 1] = b'\n'; m[k + 2] = b'.'; },
                        3 => for k in 0..size { m[k] = [b'\r', b'\n', b'.'][k % 3] },
                        4 => for k in 0..size { m[k] = [b'.', b'\r', b'\n'][k % 3] },
                        5 => for k in 0..size { m[k] = [b'\n', b'.', b'\r'][k % 3] },
                        _ => (),
                    }
                    let mut s = base(vec![send(if t % 2 == 0 { Msg::Bytes(m) } else { Msg::Reader(m, 1000, false) }, 1)]);
                    s.server = g.clone().into_bytes();
                    if t > 3 { s.wchunk = 100; }
                    f(s);
                }
            }
        }
        "C06" | "C07" | "C08" | "C05" | "C16" => {
            let outs: Vec<Vec<u8>> = vec!["250 ok\r\n".into(), "354 go\r\n".into(), "221-x\r\n221 y\r\n".into(), "451 t\r\n".into(), "550-p\r\n550 q\r\n".into(), "250-a\r\n550 b\r\n".into(), "zzz\r\n".into(), vec![],
                "250\r\n".into(), "399 a\r\n".into(), "200 x\r\n".into(), "500 x\r\n".into(), "250 \n\r\n".into(), vec![b'2', b'5', b'0', b' ', 0xff, b'\r', b'\n']];
            for capset in 0..8usize { for cl in 0..4usize { for n in 1..4usize {
                let c: Vec<&str> = [CAPS[0], CAPS[1], CAPS[2]].iter().enumerate().filter(|(k, _)| capset >> k & 1 == 1).map(|(_, x)| *x).collect();
                let mk = |dev: &[(usize, usize)], chunk: usize, m: Msg| {
                    let mut v = greet(&c).into_bytes();
                    for i in 0..n + 3 {
                        let d = dev.iter().find(|d| d.0 == i).map(|d| d.1);
                        match d { None => v.extend(if i == n + 1 { "354 go\r\n".to_string() } else { format!("250 r{}\r\n", i) }.as_bytes()), Some(7) => { break; } Some(k) => v.extend(&outs[k]) }
                    }
                    v.extend(b"221 bye\r\n");
                    if let Some(d) = dev.iter().find(|d| d.1 == 7) { let _ = d; let l = v.len() - 9; v.truncate(l); }
                    let mut s = base(vec![send(m, n), Op::Quit]);
                    if cl & 1 == 1 { s.sets.push(Set::Pipe(false)); }
                    if cl & 2 == 2 { s.sets.push(Set::Utf8(true)); }
                    s.server = v;
                    s.chunk = chunk;
                    s
                };
                f(mk(&[], 1 << 20, Msg::Bytes(b"hello\r\n.x".to_vec())));
                f(mk(&[], 3, Msg::Bytes(vec![])));
                for i in 0..n + 3 { for k in 0..outs.len() {
                    f(mk(&[(i, k)], if k % 2 == 0 { 1 << 20 } else { 1 }, Msg::Bytes(b"m".to_vec())));
                    if n == 2 || thorough { for j in i + 1..n + 3 { for l in [1, 3, 4, 6, 7] { f(mk(&[(i, k), (j, l)], 1 << 20, Msg::Reader(b"m".to_vec(), 1, false))); } } }
                } }
            } } }
            // two transactions in a row, and null senders
            for c in [&[][..], &["PIPELINING"][..], &["PIPELINING", "8BITMIME", "SMTPUTF8"][..]] {
                for from in [None, Some("".to_string()), Some("x@y".to_string())] {
                    let mut s = base(vec![Op::Send(from.clone(), rcpts(2), Msg::Bytes(b"a".to_vec())), Op::Send(from.clone(), rcpts(1), Msg::Bytes(b"b\r\n".to_vec())), Op::Quit]);
                    s.server = (greet(c) + "250 1\r\n250 2\r\n250 3\r\n354 4\r\n250 5\r\n250 6\r\n250 7\r\n354 8\r\n250 9\r\n221 10\r\n").into_bytes();
                    f(s);
                }
            }
        }
        "C09" | "C18" => {
            let ch = challenges();
            for m in MECHS { for (ci, cr) in CREDS.iter().enumerate() { for fin in FINALS {
                let mut go = |cs: &[&str], login: Option<Vec<Mech>>| {
                    let mut s = base(vec![match login { None => Op::Auth(m, cr.0.into(), cr.1.into()), Some(l) => Op::Login(l, cr.0.into(), cr.1.into()) }, Op::Quit]);
                    s.server = (greet(&["AUTH PLAIN LOGIN XOAUTH2"]) + &cs.concat() + fin + "221 bye\r\n").into_bytes();
                    f(s);
                };
                go(&[], None);
                for a in &ch { go(&[a], None); if ci == 0 || thorough { for b in &ch { go(&[a, b], None); go(&[b, a], Some(vec![m])); } } }
                for n in 2..13 { let v: Vec<&str> = (0..n).map(|k| if k % 2 == 0 { CH_USER } else { CH_PASS }).collect(); go(&v, None); go(&v, Some(vec![m, Mech::Plain])); }
            } } }
            // mechanism choice
            for adv in 0..8usize { for len in 0..4usize { for k in 0..3usize.pow(len as u32) { for fin in ["235 ok\r\n", "535 no\r\n"] {
                let c: Vec<&str> = (4..7).filter(|x| adv >> (x - 4) & 1 == 1).map(|x| CAPS[x]).collect();
                let mut x = k;
                let l: Vec<Mech> = (0..len).map(|_| { let m = MECHS[x % 3]; x /= 3; m }).collect();
                let mut s = base(vec![Op::Login(l, "u".into(), "p".into()), Op::Quit]);
                s.server = (greet(&c) + if k % 2 == 0 { CH_USER } else { "" } + fin + fin + "221 bye\r\n").into_bytes();
                f(s);
            } } } }
        }
        "C10" => {
            for cs in 0..8usize { for r in ["220 go\r\n", "250 ok\r\n", "354 x\r\n", "454 no\r\n", "554 no\r\n", "", "2", "zz\r\n", "220-a\r\n221 b\r\n", "220-a\r\n220 b\r\nextra"] { for chunk in [1, 1 << 20] {
                let all = ["STARTTLS", "starttls now", "PIPELINING"];
                let c: Vec<&str> = all.iter().enumerate().filter(|(k, _)| cs >> k & 1 == 1).map(|(_, x)| *x).collect();
                let mut s = base(vec![Op::Starttls]);
                s.server = (greet(&c) + r + "220 other\r\n").into_bytes();
                s.chunk = chunk;
                f(s);
            } } }
        }
        "C17" | "C11" => {
            for n in V4.iter().map(|x| Name::V4(x.to_string())).chain(V6.iter().map(|x| Name::V6(x.to_string()))).chain(["", "localhost", "x.", ".x", "MX.Example.ORG", "a_b", "1.2.3.4", "[1.2.3.4]", "xn--bcher-kva", " x ", "x\ty"].iter().map(|x| Name::Domain(x.to_string()))) { for mask in 0..16 {
                let mut s = base(vec![Op::Send(Some("a@b".into()), rcpts(2), Msg::Bytes(b"x".to_vec())), Op::Quit]);
                s.sets = vec![Set::Hello(n.clone())];
                if mask & 1 == 1 { s.sets.push(Set::NoGreeting); }
                if mask & 2 == 2 { s.sets.insert(0, Set::Pipe(false)); }
                if mask & 4 == 4 { s.sets.push(Set::Utf8(true)); }
                if mask & 8 == 8 { s.sets.insert(0, Set::Hello(Name::Domain("old".into()))); }
                s.server = (if mask & 1 == 1 { "" } else { "220 mx\r\n" }.to_string() + "250-mx a\r\n250-SMTPUTF8\r\n250 PIPELINING\r\n250 1\r\n250 2\r\n250 3\r\n354 4\r\n250 5\r\n221 6\r\n").into_bytes();
                f(s);
            } }
            let sets = [Set::Utf8(true), Set::Pipe(false), Set::Hello(Name::Domain("client.example".into())), Set::NoGreeting, Set::Hello(Name::V6("::1".into()))];
            let greets = ["220 mx\r\n", "220-a\r\n220 b\r\n", "354 x\r\n", "421 no\r\n", "554 no\r\n", "x\r\n", ""];
            let helos = ["250-mx a\r\n250-SMTPUTF8\r\n250 PIPELINING\r\n", "250 mx\r\n", "250 \r\n", "250\r\n", "250-\r\n250 PIPELINING\r\n", "550 no\r\n", "450 no\r\n", "354 odd\r\n", "250-a\r\n251 b\r\n", ""];
            for mask in 0..32usize { for rev in [false, true] { for g in greets { for h in helos {
                let mut v: Vec<Set> = sets.iter().enumerate().filter(|(k, _)| mask >> k & 1 == 1).map(|(_, x)| x.clone()).collect();
                if rev { v.reverse(); }
                let mut s = base(vec![Op::Send(Some("a@b".into()), rcpts(1), Msg::Bytes(b"x".to_vec()))]);
                let g2 = if v.contains(&Set::NoGreeting) { "" } else { g };
                s.sets = v;
                s.server = (g2.to_string() + h + "250 1\r\n250 2\r\n354 3\r\n250 4\r\n").into_bytes();
                f(s);
            } } } }
        }
        "C19" => {
            let sets = [greet(&CAPS), greet(&["8BITMIME", "AUTH LOGIN"]), greet(&["PIPELINING", "STARTTLS", "AUTH PLAIN"])];
            let auth = "334 VXNlcm5hbWU6\r\n334 UGFzc3dvcmQ6\r\n235 ok\r\n";
            let tx = "250 1\r\n250 2\r\n250-x\r\n250 3\r\n354 4\r\n250 5\r\n";
            let login = Op::Login(vec![Mech::Login, Mech::Plain], "u".into(), "p".into());
            for (caps, pipe) in sets.iter().flat_map(|c| [(c, true), (c, false)]) { for chunk in [1000, 5, 1] { for (a, b) in [
                (login.clone(), send(Msg::Bytes(b".second\r\n".to_vec()), 1)),
                (Op::Auth(Mech::Plain, "u".into(), "p".into()), login.clone()),
                (send(Msg::Bytes(b".a\r\n..\r\n\r".to_vec()), 2), send(Msg::Bytes(b".second\r\n".to_vec()), 1)),
                (send(Msg::Reader(b"\r\n.\r\n".to_vec(), 1, false), 2), Op::Quit),
                (send(Msg::Bytes(b"x".to_vec()), 1), Op::Starttls),
                (send(Msg::Reader(b"a\r\nb".to_vec(), 2, true), 1), login.clone()),
                (Op::Quit, send(Msg::Bytes(vec![]), 2)),
            ] {
                let replies = match a { Op::Login(..) => auth, Op::Auth(..) => "235 ok\r\n", Op::Quit => "221 bye\r\n", _ => tx };
                let mut s = base(vec![a.clone(), b.clone(), b, Op::Quit]);
                s.sets = vec![Set::Pipe(pipe), Set::Utf8(true)];
                s.server = (caps.clone() + replies + tx + "235 x\r\n" + tx + "221 bye\r\n").into_bytes();
                s.chunk = chunk;
                s.wchunk = chunk;
                for k in 1..if chunk == 1000 { 60 } else { 1200 / (1 + chunk) } { let mut t = s.clone(); t.faults.stop = Some(k); f(t); }
            } } }
        }
        "C12" | "C13" | "C02" | "C14" | "C21" => {
            let all = greet(&CAPS);
            let auth = "334 VXNlcm5hbWU6\r\n334 UGFzc3dvcmQ6\r\n235 ok\r\n";
            let tx = "250 1\r\n250 2\r\n250 3\r\n354 4\r\n250 5\r\n";
            for pipe in [true, false] { for tls in [false, true] { for m in [Msg::Bytes(b".a\r\n..\r\n\r".to_vec()), Msg::Failing(b"half".to_vec(), 2, 0), Msg::Bytes(vec![]), Msg::Reader(b"\r\n.\r\n".to_vec(), 1, true)] {
                let m2 = m.clone();
                let mut s = base(vec![Op::Login(vec![Mech::Login], "u".into(), "p".into()), Op::Auth(Mech::Plain, "u".into(), "p".into()), send(m, 2), if tls { Op::Starttls } else { Op::Quit }]);
                s.sets = vec![Set::Pipe(pipe), Set::Utf8(true)];
                s.server = (all.clone() + auth + "235 ok\r\n" + tx + "221 bye\r\n").into_bytes();
                f(s.clone());
                let total = 420;
                let kinds = crate::mock::KINDS.len();
                let all_kinds = thorough || (matches!(m2, Msg::Bytes(ref b) if !b.is_empty()) && !tls);
                for w in 0..total { for k in 0..kinds - 1 { if all_kinds || k == w % (kinds - 1) { let mut t = s.clone(); t.faults.write = Some(w); t.wchunk = 1 + w % 5; t.faults.kind = k; f(t); } } }
                for w in 0..24 { for k in 0..kinds { let mut t = s.clone(); t.faults.flush = Some(w); t.faults.kind = k; f(t); } }
                for n in 0..=s.server.len() { for k in 0..kinds { if all_kinds || k == n % (kinds - 1) || k == kinds - 1 { let mut t = s.clone(); t.server.truncate(n); t.faults.read = k < kinds - 1; t.faults.kind = k % (kinds - 1); f(t); } } }
                for chunk in [1, 2, 7] { let mut t = s.clone(); t.chunk = chunk; t.wchunk = chunk; t.pend = true; f(t); }
            } } }
        }
        _ => (),
    }
}
