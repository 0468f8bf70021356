//! Runs a session on the real client and compares it with the model.
use crate::mock::*;
use crate::model::*;
use async_smtp::authentication::Credentials;
use async_smtp::error::Error;
use async_smtp::extension::ClientId;
use async_smtp::response::Response;
use async_smtp::*;
use futures::executor::block_on;
use futures::FutureExt;
use std::future::Future;
use std::panic::AssertUnwindSafe;
use std::task::Poll;

pub fn reply_of(r: &Response) -> Reply {
    let t = r.code.to_string();
    let b = t.as_bytes();
    let d = |k: usize| b.get(k).map(|c| c.wrapping_sub(b'0')).unwrap_or(99);
    Reply { code: [r.code.severity as u8, r.code.category as u8, r.code.detail as u8].map(|x| x), lines: r.message.clone() }
        .same_as([d(0), d(1), d(2)])
}
impl Reply {
    fn same_as(mut self, t: [u8; 3]) -> Reply { if self.code != t { self.code = [98; 3]; } self }
}
fn err_of(e: &Error) -> Res {
    let _ = e.to_string();
    let _ = format!("{:?}", e);
    match e {
        Error::Transient(r) => if reply_of(r).code[0] == 4 { Res::Neg(reply_of(r)) } else { Res::Other },
        Error::Permanent(r) => if reply_of(r).code[0] == 5 { Res::Neg(reply_of(r)) } else { Res::Other },
        Error::Parsing(_) => Res::Parsing,
        Error::Io(_) => Res::Io,
        _ => Res::Other,
    }
}
pub fn creds(u: &str, p: &str) -> Credentials { Credentials::new(u.to_string(), p.to_string()) }
fn client(s: &Scn) -> SmtpClient {
    let mut c = SmtpClient::new();
    for x in &s.sets {
        c = match x {
            Set::Utf8(b) => c.smtp_utf8(*b),
            Set::Pipe(b) => c.pipelining(*b),
            Set::NoGreeting => c.without_greeting(),
            Set::Hello(Name::Domain(d)) => c.hello_name(ClientId::new(d.clone())),
            Set::Hello(Name::V4(d)) => c.hello_name(ClientId::Ipv4(d.parse().unwrap())),
            Set::Hello(Name::V6(d)) => c.hello_name(ClientId::Ipv6(d.parse().unwrap())),
        };
    }
    c
}
/// What one call did.
#[derive(Debug)]
pub struct Done { pub ev: Flat, pub res: Res, pub fired: bool, pub dirty: bool, /// given up here, with so much of the input consumed
    pub stopped: Option<usize> }

pub const GIVEN_UP: &str = "given up";
type Shared = std::sync::Arc<std::sync::Mutex<Sh>>;
/// Runs the call until it is done, or until the stream says that the caller gives up: then the future is dropped.
fn guard<T>(sh: &Shared, f: impl std::future::Future<Output = T>) -> Result<T, String> {
    let mut f = Box::pin(AssertUnwindSafe(f).catch_unwind());
    let r = block_on(std::future::poll_fn(|cx| match f.as_mut().poll(cx) {
        Poll::Ready(x) => Poll::Ready(Some(x)),
        Poll::Pending => if sh.lock().unwrap().stuck { Poll::Ready(None) } else { Poll::Pending },
    }));
    drop(f);
    let Some(r) = r else { sh.lock().unwrap().stuck = false; return Err(GIVEN_UP.into()) };
    match r {
        Ok(x) => Ok(x),
        Err(p) => Err(p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()),
    }
}
pub fn exec(s: &Scn) -> Vec<Done> {
    let (mock, sh) = Mock::new(s.server.clone(), s.chunk, s.wchunk, s.pend, s.faults.clone());
    let mut out = vec![];
    let mut from = 0;
    let mut dirty = 0;
    let mut done = |out: &mut Vec<Done>, res: Res| {
        let g = sh.lock().unwrap();
        let out_res = res.clone();
        out.push(Done { ev: g.ev[from..].to_vec(), res, fired: g.fired, dirty: g.dirty.len() > dirty, stopped: if matches!(&out_res, Res::Panic(p) if p == GIVEN_UP) { Some(g.consumed) } else { None } });
        from = g.ev.len();
        dirty = g.dirty.len();
    };
    let conv = |r: Result<Option<Reply>, Error>| match r { Ok(x) => Res::Ok(x), Err(e) => err_of(&e) };
    let c = client(s);
    let mut t = match guard(&sh, SmtpTransport::new(c, mock)) {
        Err(p) => { done(&mut out, Res::Panic(p)); return out; }
        Ok(Err(e)) => { done(&mut out, err_of(&e)); return out; }
        Ok(Ok(t)) => { done(&mut out, Res::Ok(None)); t }
    };
    for o in &s.ops {
        let r = match o {
            Op::Quit => guard(&sh, t.quit()).map(|r| conv(r.map(|_| None))),
            Op::Auth(m, u, p) => guard(&sh, t.auth(m.real(), &creds(u, p))).map(|r| conv(r.map(|x| Some(reply_of(&x))))),
            Op::Login(l, u, p) => { let l: Vec<_> = l.iter().map(|m| m.real()).collect(); guard(&sh, t.try_login(&creds(u, p), &l)).map(|r| conv(r.map(|_| None))) }
            Op::Starttls => {
                let r = guard(&sh, t.starttls());
                let r = match r { Ok(Ok(_s)) => Res::Ok(None), Ok(Err(e)) => err_of(&e), Err(p) => Res::Panic(p) };
                done(&mut out, r);
                return out;
            }
            Op::Send(f, to, m) => {
                let env = match envelope(f, to) {
                    Ok(env) => env,
                    Err(what) => { done(&mut out, Res::Panic(format!("{}{}", REJECTED, what))); return out; }
                };
                let e = match m {
                    Msg::Bytes(b) => SendableEmail::new(env, b.clone()),
                    Msg::Reader(b, c, p) => SendableEmail::new_with_reader(env, Box::new(Source { data: b.clone(), pos: 0, chunk: *c, fail: None, pend: *p, sh: Some(sh.clone()) })),
                    Msg::Failing(b, c, k) => SendableEmail::new_with_reader(env, Box::new(Source { data: b.clone(), pos: 0, chunk: *c, fail: Some(*k), pend: false, sh: Some(sh.clone()) })),
                };
                guard(&sh, t.send(e)).map(|r| conv(r.map(|x| Some(reply_of(&x)))))
            }
        };
        match r {
            Ok(r) => done(&mut out, r),
            Err(p) => { let go = p == GIVEN_UP; done(&mut out, Res::Panic(p)); if !go { return out; } }
        }
    }
    out
}

pub struct Found { pub props: Vec<&'static str>, pub what: String }

fn show(ev: &[(bool, u8)]) -> String {
    let mut s = String::new();
    let mut i = 0;
    while i < ev.len() {
        let e = ev[i..].iter().position(|x| x.0 != ev[i].0).map(|k| i + k).unwrap_or(ev.len());
        let b: Vec<u8> = ev[i..e].iter().map(|x| x.1).collect();
        s += &format!("{}{:?} ", if ev[i].0 { "C:" } else { "S:" }, String::from_utf8_lossy(&b));
        i = e;
    }
    if s.len() > 1500 { let mut k = 1500; while !s.is_char_boundary(k) { k -= 1; } s.truncate(k); s += "..."; }
    s
}
fn op_name(s: &Scn, k: usize) -> &'static str {
    if k == 0 { "connect" } else {
        match &s.ops[k - 1] { Op::Quit => "quit", Op::Auth(..) => "auth", Op::Login(..) => "login", Op::Starttls => "starttls", Op::Send(..) => "send" }
    }
}

/// Whether the session goes differently when the last setter of each kind is applied in another order.
fn order_matters(s: &Scn) -> bool {
    let mut last: Vec<Set> = vec![];
    for x in &s.sets {
        last.retain(|y| std::mem::discriminant(x) != std::mem::discriminant(y));
        last.push(x.clone());
    }
    if s.sets.len() < 2 { return false; }
    let show = |sets: Vec<Set>| { let mut t = s.clone(); t.sets = sets; exec(&t).iter().map(|d| (d.ev.clone(), format!("{:?}", d.res))).collect::<Vec<_>>() };
    let a = show(s.sets.clone());
    for _ in 0..last.len() {
        if show(last.clone()) != a { return true; }
        let mut rev = last.clone();
        rev.reverse();
        if show(rev) != a { return true; }
        last.rotate_left(1);
    }
    false
}

const REJECTED: &str = "rejected: ";
/// The envelope of addresses which are all well formed.
fn envelope(from: &Option<String>, to: &[String]) -> Result<Envelope, String> {
    let one = |a: &String| EmailAddress::new(a.clone()).map_err(|e| format!("the address {:?} is rejected: {}", a, e));
    let from = from.as_ref().map(one).transpose()?;
    let to = to.iter().map(one).collect::<Result<Vec<_>, _>>()?;
    Envelope::new(from.clone(), to.clone()).map_err(|e| format!("the envelope from {:?} to {:?} is rejected: {}", from, to, e))
}

/// Returns the violations and whether the known finding was met.
pub fn check(s: &Scn) -> (Vec<Found>, bool, Vec<Done>) {
    let mut m = Model::new(s);
    let runs = exec(s);
    let mut out = vec![];
    let mut known = false;
    let mut after = false;
    for (k, d) in runs.iter().enumerate() {
        let e = if k == 0 { m.connect() } else { m.op(&s.ops[k - 1]) };
        let name = op_name(s, k);
        let own: Vec<&'static str> = match name {
            "connect" => vec!["C17"], "auth" => vec!["C09"], "login" => vec!["C18", "C09"], "starttls" => vec!["C10"], "send" => vec!["C06"], _ => vec![],
        };
        if let Some(pos) = d.stopped {
            let sent = |v: &Flat| v.iter().filter(|x| x.0).map(|x| x.1).collect::<Vec<u8>>();
            let (a, b) = (sent(&d.ev), sent(&e.ev));
            if !b.starts_with(&a) { out.push(Found { props: vec!["C19"], what: format!("{}, given up, had sent what it would not have sent otherwise: {} instead of a prefix of {}", name, show(&d.ev), show(&e.ev)) }); }
            m.pos = pos;
            after = true;
            continue;
        }
        let own: Vec<&'static str> = if after { own.into_iter().chain(["C19"]).collect() } else { own };
        if let Res::Panic(p) = &d.res {
            if let Some(what) = p.strip_prefix(REJECTED) {
                out.push(Found { props: vec!["C03"], what: what.into() });
                return (out, known, runs);
            }
            if p == ENDLESS {
                let mut props = own;
                props.extend(["C05", "C07", "C21"]);
                if d.fired { props.push("C13"); }
                out.push(Found { props, what: format!("{} does not end", name) });
                return (out, known, runs);
            }
            out.push(Found { props: if after { vec!["C14", "C19"] } else { vec!["C14"] }, what: format!("{} panics: {}", name, p) });
            return (out, known, runs);
        }
        if d.dirty { out.push(Found { props: vec!["C12"], what: format!("{} waits for the server with unflushed output; events: {}", name, show(&d.ev)) }); }
        if d.fired {
            if d.res.is_ok() { out.push(Found { props: vec!["C13", "C07"], what: format!("{} succeeds although the stream failed", name) }); }
            let sent = |v: &Flat| v.iter().filter(|x| x.0).map(|x| x.1).collect::<Vec<u8>>();
            let (a, b) = (sent(&d.ev), sent(&e.ev));
            if !b.starts_with(&a) { out.push(Found { props: vec!["C13"], what: format!("{} sent, with a failing stream, what it would not have sent without the fault: {} instead of a prefix of {}", name, show(&d.ev), show(&e.ev)) }); }
            return (out, known, runs);
        }
        if d.ev != e.ev {
            let i = d.ev.iter().zip(e.ev.iter()).position(|(a, b)| a != b).unwrap_or(d.ev.len().min(e.ev.len()));
            let mut props = own.clone();
            // the step in which they differ
            let st = e.steps.iter().filter(|x| x.1 <= i).last();
            let extra = i == e.ev.len();
            let text = !extra && i < d.ev.len() && d.ev[i].0 && e.ev[i].0;
            match st {
                Some((Step::Send(kind), _)) if text => {
                    props.extend(match kind {
                        Kind::Content => vec!["C01"], Kind::Mail => vec!["C02", "C16"], Kind::Rcpt => vec!["C02", "C16"], Kind::Ehlo => vec!["C02", "C17"],
                        Kind::Auth | Kind::AuthResp => vec!["C02", "C09"], _ => vec!["C02"],
                    });
                }
                _ => {
                    if let Some((Step::Wait, _)) = st { props.extend(["C05", "C08"]); }
                    if let Some((Step::Send(Kind::Content), _)) = st { props.extend(["C01", "C13"]); }
                    let any = |k: Kind| e.steps.iter().any(|x| matches!(&x.0, Step::Send(j) if *j == k));
                    if any(Kind::Content) && e.steps.iter().any(|x| matches!(&x.0, Step::Send(Kind::Content)) && x.1 <= i) { props.push("C01"); }
                    if name == "send" { props.push("C07"); }
                    if name == "send" { if let Op::Send(_, _, Msg::Failing(..)) = &s.ops[k - 1] { props.push("C13"); } }
                    let waits = |v: &Flat| v.iter().filter(|x| !x.0).count();
                    let sends = |v: &Flat| v.iter().filter(|x| x.0).count();
                    if waits(&d.ev) != waits(&e.ev) || sends(&d.ev) != sends(&e.ev) { props.push("C08"); }
                    if sends(&d.ev) != sends(&e.ev) { props.push("C02"); }
                }
            }
            if order_matters(s) { props.push("C17"); }
            match (&e.res, &d.res) {
                (Res::Neg(_), Res::Ok(_)) => props.push("C07"),
                (Res::Neg(a), Res::Neg(b)) if a != b => props.push("C07"),
                (Res::Neg(_), Res::Io | Res::Parsing | Res::Other) => props.push("C07"),
                (Res::Io, Res::Ok(_)) => props.extend(["C07", "C13"]),
                (Res::Parsing, Res::Ok(_)) => props.extend(["C07", "C05"]),
                _ => (),
            }
            props.sort(); props.dedup();
            // after an early rejection more replies may be read
            if !(e.early && matches!(e.res, Res::Neg(_)) && d.ev.starts_with(&e.ev) && d.ev[e.ev.len()..].iter().all(|x| !x.0)) {
                out.push(Found { props, what: format!("{}: events differ at byte {}: got {} expected {}", name, i, show(&d.ev), show(&e.ev)) });
            }
            return (out, known, runs);
        }
        let same = match (&d.res, &e.res) { (_, Res::Any) => true, (r, Res::AnyErr) => !r.is_ok(), (Res::Ok(_), Res::Ok(None)) => true, (a, b) => a == b };
        if !same {
            let mut props = own;
            match (&d.res, &e.res) {
                (Res::Ok(_), Res::Ok(_)) => props.extend(["C07", "C05"]),
                (Res::Ok(_), Res::Neg(_)) => props.extend(["C07", "C05"]),
                (Res::Ok(_), _) => props.extend(["C07", "C05", "C13"]),
                (_, Res::Ok(_)) => props.extend(["C07", "C05"]),
                _ => props.extend(["C07", "C05"]),
            }
            if name == "connect" { props.push("C11"); }
            if order_matters(s) { props.push("C17"); }
            if let (true, Op::Send(_, _, Msg::Failing(..))) = (name == "send" && k > 0, s.ops.get(k.wrapping_sub(1)).unwrap_or(&Op::Quit)) { props.push("C13"); }
            out.push(Found { props, what: format!("{} returns {:?}, expected {:?}; events: {}", name, d.res, e.res, show(&d.ev)) });
            return (out, known, runs);
        }
        // C08: replies read match commands sent
        let determined = matches!(d.res, Res::Ok(_) | Res::Neg(_));
        if determined && e.surplus != 0 && !matches!(e.res, Res::Any) {
            if e.early && name == "send" { known = true; } else {
                out.push(Found { props: vec!["C08"], what: format!("{} leaves {} replies unread; events: {}", name, e.surplus, show(&d.ev)) });
            }
        }
        if e.early { return (out, known, runs); }
        if k == 0 && !d.res.is_ok() { return (out, known, runs); }
    }
    (out, known, runs)
}
