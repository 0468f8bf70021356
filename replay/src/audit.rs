//! The contracts that the proofs assume about the standard library, nom and base64 (spec/shim.rs),
//! tried on the real functions: for every char and byte where that is finite, and on a fixed and
//! a random choice of texts elsewhere.  This is a test of assumptions, not a proof.
use crate::gen::Rng;
use std::fmt::Write as _;

#[derive(Default)]
pub struct Report {
    pub tried: Vec<(String, u64, &'static str)>,
    pub failed: Vec<String>,
}
impl Report {
    fn group(&mut self, name: &str, how: &'static str, f: impl FnOnce(&mut dyn FnMut(bool, String))) {
        let mut n = 0u64;
        let mut bad: Vec<String> = vec![];
        f(&mut |ok, what| {
            n += 1;
            if !ok && bad.len() < 3 {
                bad.push(what);
            }
        });
        self.failed.extend(bad.into_iter().map(|b| format!("{name}: {b}")));
        self.tried.push((name.to_string(), n, how));
    }
}

// ---- the definitions of spec/shim.rs, executable
fn c_ws(c: char) -> bool {
    let n = c as u32;
    (9..=13).contains(&n) || n == 32 || n == 0x85 || n == 0xA0 || n == 0x1680 || (0x2000..=0x200A).contains(&n) || n == 0x2028 || n == 0x2029 || n == 0x202F || n == 0x205F || n == 0x3000
}
fn upper(c: char) -> char { if (97..=122).contains(&(c as u32)) { ((c as u32 - 32) as u8) as char } else { c } }
fn lower(c: char) -> char { if (65..=90).contains(&(c as u32)) { ((c as u32 + 32) as u8) as char } else { c } }
fn width(c: char) -> usize { match c as u32 { 0..=0x7F => 1, 0x80..=0x7FF => 2, 0x800..=0xFFFF => 3, _ => 4 } }
fn utf8(s: &[char]) -> Vec<u8> {
    let mut v = vec![];
    for &c in s {
        let n = c as u32;
        match width(c) {
            1 => v.push(n as u8),
            2 => v.extend([0xC0 | (n >> 6) as u8, 0x80 | (n & 0x3F) as u8]),
            3 => v.extend([0xE0 | (n >> 12) as u8, 0x80 | (n >> 6 & 0x3F) as u8, 0x80 | (n & 0x3F) as u8]),
            _ => v.extend([0xF0 | (n >> 18) as u8, 0x80 | (n >> 12 & 0x3F) as u8, 0x80 | (n >> 6 & 0x3F) as u8, 0x80 | (n & 0x3F) as u8]),
        }
    }
    v
}
fn blen(s: &[char]) -> usize { utf8(s).len() }
fn starts(s: &[char], p: &[char]) -> bool { p.len() <= s.len() && (0..p.len()).all(|k| s[k] == p[k]) }
fn ends(s: &[char], p: &[char]) -> bool { p.len() <= s.len() && s[s.len() - p.len()..] == *p }
fn words(s: &[char]) -> Vec<Vec<char>> {
    let (mut out, mut k) = (vec![], 0);
    loop {
        while k < s.len() && c_ws(s[k]) { k += 1; }
        if k >= s.len() { return out; }
        let a = k;
        while k < s.len() && !c_ws(s[k]) { k += 1; }
        out.push(s[a..k].to_vec());
    }
}
fn find_sub(s: &[char], t: &[char]) -> Option<usize> { (0..=s.len()).find(|&k| k + t.len() <= s.len() && s[k..k + t.len()] == *t) }
fn dec(n: u64) -> String { if n < 10 { ((48 + n as u8) as char).to_string() } else { format!("{}{}", dec(n / 10), (48 + (n % 10) as u8) as char) } }
fn hex_up(n: u8) -> char { if n < 10 { (48 + n) as char } else { (55 + n) as char } }
/// the grammar of UTF-8 (RFC 3629)
fn valid_utf8(b: &[u8]) -> Option<Vec<char>> {
    let (mut out, mut k) = (vec![], 0);
    while k < b.len() {
        let tail = |i: usize| b.get(k + i).filter(|x| **x & 0xC0 == 0x80).map(|x| (x & 0x3F) as u32);
        let x = b[k] as u32;
        let (n, w) = match x {
            0..=0x7F => (x, 1),
            0xC2..=0xDF => ((x & 0x1F) << 6 | tail(1)?, 2),
            0xE0..=0xEF => ((x & 0xF) << 12 | tail(1)? << 6 | tail(2)?, 3),
            0xF0..=0xF4 => ((x & 7) << 18 | tail(1)? << 12 | tail(2)? << 6 | tail(3)?, 4),
            _ => return None,
        };
        if w == 3 && (n < 0x800 || (0xD800..=0xDFFF).contains(&n)) || w == 4 && !(0x10000..=0x10FFFF).contains(&n) { return None; }
        out.push(char::from_u32(n)?);
        k += w;
    }
    Some(out)
}
/// RFC 4648 section 4
fn b64(b: &[u8]) -> String {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::new();
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for k in 0..4 {
            if k <= c.len() { s.push(A[(n >> (18 - 6 * k) & 63) as usize] as char) } else { s.push('=') }
        }
    }
    s
}

fn texts(r: &mut Rng, n: usize) -> Vec<String> {
    let mut out: Vec<String> = ["", " ", "a", "\r\n", "250-", "250 ok\r\n", "25", "2", "=", "a=b", "\u{e9}", "\u{2028}", "\u{10ffff}", "ab ab", "\t x\u{a0}y "].iter().map(|s| s.to_string()).collect();
    const ALPHA: &[char] = &['a', 'b', 'A', 'Z', 'z', '2', '5', '0', '-', ' ', '\t', '\r', '\n', '.', '=', '+', '\u{0}', '\u{7f}', '\u{80}', '\u{85}', '\u{a0}', '\u{e9}', '\u{7ff}', '\u{800}', '\u{2003}', '\u{3000}', '\u{ffff}', '\u{10000}', '\u{10ffff}'];
    for _ in 0..n {
        let (k, w) = (r.n(12), 1 + r.n(ALPHA.len()));
        let o = r.n(ALPHA.len());
        out.push((0..k).map(|_| ALPHA[(o + r.n(w)) % ALPHA.len()]).collect());
    }
    out
}

pub fn run(seed: u64) -> Report {
    let mut rep = Report::default();
    let r = &mut Rng(seed.max(1).wrapping_mul(0x9E3779B97F4A7C15));
    rep.group("char: classes, case and width", "every char", |t| {
        for c in '\0'..=char::MAX {
            let n = c as u32;
            let dig = (48..=57).contains(&n);
            let (up, lo) = ((65..=90).contains(&n), (97..=122).contains(&n));
            let graphic = (33..=126).contains(&n);
            let ok = c.is_ascii() == (n < 128)
                && c.is_ascii_control() == (n < 32 || n == 127)
                && c.is_ascii_whitespace() == matches!(n, 32 | 9 | 10 | 12 | 13)
                && c.is_ascii_graphic() == graphic
                && c.is_ascii_digit() == dig
                && c.is_ascii_uppercase() == up
                && c.is_ascii_lowercase() == lo
                && c.is_ascii_alphabetic() == (up || lo)
                && c.is_ascii_alphanumeric() == (up || lo || dig)
                && c.is_ascii_punctuation() == (graphic && !(up || lo || dig))
                && c.is_control() == (n < 32 || (127..=159).contains(&n))
                && c.is_whitespace() == c_ws(c)
                && c.len_utf8() == width(c)
                && c.to_ascii_uppercase() == upper(c)
                && c.to_ascii_lowercase() == lower(c)
                && c.eq_ignore_ascii_case(&'k') == (upper(c) == 'K')
                && c.eq_ignore_ascii_case(&'\u{212a}') == (upper(c) == '\u{212a}')
                && c.to_string().as_bytes() == &utf8(&[c])[..]
                && std::str::from_utf8(&utf8(&[c])).ok().and_then(|s| s.chars().next()) == Some(c)
                && u32::from(c) == n;
            t(ok, format!("{:?}", c));
        }
    });
    rep.group("u8: classes, conversions, decimal and hexadecimal digits", "every byte", |t| {
        for b in 0..=255u8 {
            let n = b as u32;
            let ok = b.is_ascii() == (n < 128) && b.is_ascii_control() == (n < 32 || n == 127) && b.is_ascii_whitespace() == matches!(n, 32 | 9 | 10 | 12 | 13)
                && b.is_ascii_graphic() == (33..=126).contains(&n) && b.is_ascii_digit() == (48..=57).contains(&n)
                && char::from(b) as u32 == n && u16::from(b) as u32 == n && usize::from(b) == b as usize
                && b.to_string() == dec(b as u64)
                && format!("{:02X}", b) == [hex_up(b / 16), hex_up(b % 16)].iter().collect::<String>()
                && format!("{:X}", b) == if b < 16 { hex_up(b).to_string() } else { [hex_up(b / 16), hex_up(b % 16)].iter().collect::<String>() };
            t(ok, format!("{b}"));
        }
        for b in [false, true] {
            t(u8::from(b) == b as u8 && usize::from(b) == b as usize && b.then_some(7) == if b { Some(7) } else { None }, format!("{b}"));
        }
    });
    rep.group("u16, u32, u64, usize: decimal digits", "every u16, some others", |t| {
        for n in 0..=u16::MAX { t(n.to_string() == dec(n as u64), format!("{n}")); }
        for k in 0..64 { for d in [0, 1, 2] { let n = (1u64 << k).wrapping_sub(d); t(n.to_string() == dec(n) && (n as usize).to_string() == dec(n) && (n as u32).to_string() == dec(n as u32 as u64), format!("{n}")); } }
    });
    rep.group("str and String: length, characters, words, search, prefixes, slices, case", "random texts", |t| {
        let ts = texts(r, 1500);
        let ps = texts(r, 12);
        for s in &ts {
            let c: Vec<char> = s.chars().collect();
            let mut ok = s.len() == blen(&c) && s.is_empty() == c.is_empty() && s.as_bytes() == &utf8(&c)[..] && s.bytes().collect::<Vec<_>>() == utf8(&c)
                && s.char_indices().collect::<Vec<_>>() == (0..c.len()).map(|k| (blen(&c[..k]), c[k])).collect::<Vec<_>>()
                && s.split_whitespace().map(|w| w.chars().collect::<Vec<_>>()).collect::<Vec<_>>() == words(&c)
                && s.to_ascii_uppercase().chars().collect::<Vec<_>>() == c.iter().map(|x| upper(*x)).collect::<Vec<_>>()
                && s.to_ascii_lowercase().chars().collect::<Vec<_>>() == c.iter().map(|x| lower(*x)).collect::<Vec<_>>()
                && s.is_ascii() == c.iter().all(|x| (*x as u32) < 128)
                && s.to_owned() == *s && String::from(s.as_str()) == *s && s.to_string() == *s && format!("{}", &&s) == *s;
            let mut w = String::new();
            w.write_str(s).unwrap();
            for x in &c { w.write_char(*x).unwrap(); }
            ok &= w.chars().collect::<Vec<_>>() == [&c[..], &c[..]].concat();
            for (k, _) in c.iter().enumerate() {
                let b = blen(&c[..k]);
                ok &= s[b..].chars().collect::<Vec<_>>() == c[k..] && s[..b].chars().collect::<Vec<_>>() == c[..k] && s.split_at(b).0 == &s[..b] && s.split_at(b).1 == &s[b..];
                ok &= s.is_char_boundary(b) && (1..width(c[k])).all(|d| !s.is_char_boundary(b + d));
                let mut it = s.chars();
                for _ in 0..k { it.next(); }
                ok &= it.as_str().chars().collect::<Vec<_>>() == c[k..];
            }
            t(ok, format!("{:?}", s));
            for f in [c_ws as fn(char) -> bool, |x| x == 'a', |x| x as u32 >= 128] {
                let first = c.iter().position(|x| f(*x));
                let ok = s.find(f) == first.map(|k| blen(&c[..k])) && s.contains(f) == first.is_some()
                    && s.starts_with(f) == c.first().map_or(false, |x| f(*x)) && s.ends_with(f) == c.last().map_or(false, |x| f(*x))
                    && s.strip_prefix(f).map(|x| x.chars().collect::<Vec<_>>()) == c.first().filter(|x| f(**x)).map(|_| c[1..].to_vec())
                    && s.strip_suffix(f).map(|x| x.chars().collect::<Vec<_>>()) == c.last().filter(|x| f(**x)).map(|_| c[..c.len() - 1].to_vec());
                t(ok, format!("{:?} with a closure", s));
                let last = c.iter().rposition(|x| f(*x));
                let (a, b) = (c.iter().take_while(|x| f(**x)).count(), c.len() - c.iter().rev().take_while(|x| f(**x)).count());
                let v = |x: &str| x.chars().collect::<Vec<_>>();
                let ok = s.rfind(f) == last.map(|k| blen(&c[..k])) && v(s.trim_start_matches(f)) == c[a..] && v(s.trim_end_matches(f)) == c[..b] && v(s.trim_matches(f)) == c[a.min(b)..b]
                    && s.split_once(f).map(|(x, y)| (v(x), v(y))) == first.map(|k| (c[..k].to_vec(), c[k + 1..].to_vec()))
                    && s.rsplit_once(f).map(|(x, y)| (v(x), v(y))) == last.map(|k| (c[..k].to_vec(), c[k + 1..].to_vec()))
                    && s.trim() == s.trim_matches(c_ws) && s.trim_start() == s.trim_start_matches(c_ws) && s.trim_end() == s.trim_end_matches(c_ws);
                t(ok, format!("{:?} cut with a closure", s));
            }
            for x in ['a', '\r', '\u{e9}', '='] {
                let first = c.iter().position(|y| *y == x);
                let y = [x, '\n'];
                let two = c.iter().position(|z| y.contains(z));
                let ok = s.find(x) == first.map(|k| blen(&c[..k])) && s.contains(x) == first.is_some() && s.starts_with(x) == (c.first() == Some(&x)) && s.ends_with(x) == (c.last() == Some(&x))
                    && s.find(y) == two.map(|k| blen(&c[..k])) && s.contains(&y[..]) == two.is_some() && s.starts_with(&y[..]) == c.first().map_or(false, |z| y.contains(z)) && s.ends_with(y) == c.last().map_or(false, |z| y.contains(z))
                    && s.strip_prefix(x).map(|q| q.chars().count()) == c.first().filter(|z| **z == x).map(|_| c.len() - 1);
                t(ok, format!("{:?} with {:?}", s, x));
            }
            let cut: Vec<String> = (0..c.len().min(4)).flat_map(|k| [c[..k].iter().collect::<String>(), c[k..].iter().collect(), c[k..c.len().min(k + 2)].iter().collect()]).collect();
            for p in ps.iter().chain(&cut) {
                let q: Vec<char> = p.chars().collect();
                let ok = s.starts_with(p.as_str()) == starts(&c, &q) && s.ends_with(p.as_str()) == ends(&c, &q)
                    && s.strip_prefix(p.as_str()).map(|x| x.chars().collect::<Vec<_>>()) == Some(()).filter(|_| starts(&c, &q)).map(|_| c[q.len()..].to_vec())
                    && s.strip_suffix(p.as_str()).map(|x| x.chars().collect::<Vec<_>>()) == Some(()).filter(|_| ends(&c, &q)).map(|_| c[..c.len() - q.len()].to_vec())
                    && s.split_once(p.as_str()).map(|(x, y)| (x.chars().collect::<Vec<_>>(), y.chars().collect::<Vec<_>>())) == find_sub(&c, &q).map(|k| (c[..k].to_vec(), c[k + q.len()..].to_vec()))
                    && s.rfind(p.as_str()) == (0..=c.len()).rev().find(|k| starts(&c[*k..], &q)).map(|k| blen(&c[..k])) && s.rsplit_once(p.as_str()).is_some() == find_sub(&c, &q).is_some()
                    && s.find(p.as_str()) == find_sub(&c, &q).map(|k| blen(&c[..k])) && s.contains(p) == find_sub(&c, &q).is_some()
                    && (s == p) == (c == q) && s.eq_ignore_ascii_case(p) == (c.iter().map(|x| upper(*x)).collect::<Vec<_>>() == q.iter().map(|x| upper(*x)).collect::<Vec<_>>());
                t(ok, format!("{:?} with {:?}", s, p));
            }
        }
    });
    rep.group("nom: tag and take_until, complete and streaming", "random texts", |t| {
        use nom::bytes::{complete, streaming};
        type E<'a> = nom::error::Error<&'a str>;
        let ts = texts(r, 1500);
        for s in &ts {
            let c: Vec<char> = s.chars().collect();
            let cut: Vec<String> = (0..c.len().min(5)).flat_map(|k| [c[..=k].iter().collect::<String>(), c[k..].iter().collect(), c[k..=k].iter().collect()]).collect();
            for p in cut.iter().map(|x| x.as_str()).chain(["250", "\r\n", " ", "-", "\u{e9}", "25\u{e9}"]) {
                let q: Vec<char> = p.chars().collect();
                let hit = Ok((&s[p.len().min(s.len()) * (starts(&c, &q) as usize)..], p));
                let a: nom::IResult<&str, &str, E> = complete::tag(p)(s.as_str());
                let b: nom::IResult<&str, &str, E> = streaming::tag(p)(s.as_str());
                let mut ok = if starts(&c, &q) { a == hit && b == hit } else { matches!(a, Err(nom::Err::Error(_))) && if starts(&q, &c) { matches!(b, Err(nom::Err::Incomplete(_))) } else { matches!(b, Err(nom::Err::Error(_))) } };
                if !p.is_empty() {
                    let a: nom::IResult<&str, &str, E> = complete::take_until(p)(s.as_str());
                    let b: nom::IResult<&str, &str, E> = streaming::take_until(p)(s.as_str());
                    ok &= match find_sub(&c, &q) {
                        Some(k) => { let hit = Ok((&s[blen(&c[..k])..], &s[..blen(&c[..k])])); a == hit && b == hit }
                        None => matches!(a, Err(nom::Err::Error(_))) && matches!(b, Err(nom::Err::Incomplete(_))),
                    };
                }
                t(ok, format!("{:?} with {:?}", s, p));
            }
        }
    });
    rep.group("base64: encode and decode", "every text of up to 2 bytes, random texts of bytes", |t| {
        let one = |b: &[u8], t: &mut dyn FnMut(bool, String)| {
            let e = b64(b);
            let ok = base64::encode(b) == e && base64::encode_config(b, base64::STANDARD) == e && base64::decode(&e).as_deref() == Ok(b) && base64::decode_config(&e, base64::STANDARD).as_deref() == Ok(b)
                && e.chars().all(|c| c.is_ascii_alphanumeric() || "+/=".contains(c));
            t(ok, format!("{:?}", b));
        };
        one(&[], t);
        for a in 0..=255u8 { one(&[a], t); for b in 0..=255u8 { one(&[a, b], t); } }
        for _ in 0..20_000 { let n = r.n(40); let v: Vec<u8> = (0..n).map(|_| r.n(256) as u8).collect(); one(&v, t); }
    });
    rep.group("String::from_utf8 accepts UTF-8 and nothing else", "every text of up to 2 bytes, random texts of bytes", |t| {
        let one = |b: &[u8], t: &mut dyn FnMut(bool, String)| {
            let m = valid_utf8(b);
            let x = String::from_utf8(b.to_vec()).ok();
            t(x.as_ref().map(|s| s.chars().collect::<Vec<_>>()) == m && x.map_or(true, |s| s.as_bytes() == b), format!("{:?}", b));
        };
        one(&[], t);
        for a in 0..=255u8 { one(&[a], t); for b in 0..=255u8 { one(&[a, b], t); } }
        const HOT: &[u8] = &[0x00, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xFF];
        for _ in 0..60_000 { let n = 1 + r.n(7); let v: Vec<u8> = (0..n).map(|_| HOT[r.n(HOT.len())]).collect(); one(&v, t); }
    });
    rep.group("slices, vectors and iterators", "random sequences", |t| {
        for _ in 0..3000 {
            let n = r.n(8);
            let v: Vec<u8> = (0..n).map(|_| r.n(4) as u8).collect();
            let p = r.n(n + 1);
            let x = r.n(4) as u8;
            let f = |b: &u8| *b == x;
            let at = |v: &[u8]| (0..v.len()).find(|k| v[*k] == x);
            let mut ok = v.first() == v.get(0) && v.last() == if n == 0 { None } else { Some(&v[n - 1]) } && v.get(n).is_none() && v.contains(&x) == at(&v).is_some();
            ok &= v.split_first().map(|(a, b)| (*a, b.to_vec())) == if n == 0 { None } else { Some((v[0], v[1..].to_vec())) };
            ok &= v.split_last().map(|(a, b)| (*a, b.to_vec())) == if n == 0 { None } else { Some((v[n - 1], v[..n - 1].to_vec())) };
            let mut rest = &v[..];
            let mut ch: Vec<&[u8]> = vec![];
            while !rest.is_empty() { let k = rest.len().min(p + 1); ch.push(&rest[..k]); rest = &rest[k..]; }
            ok &= v.chunks(p + 1).collect::<Vec<_>>() == ch;
            ok &= v.split_at(p) == (&v[..p], &v[p..]);
            let it = || { let mut i = v.iter(); for _ in 0..p { i.next(); } i };
            let rest = &v[p..];
            ok &= it().any(f) == at(rest).is_some() && it().position(f) == at(rest) && it().find(|b| f(b)).copied() == at(rest).map(|k| rest[k]);
            ok &= it().all(|b| !f(b)) == at(rest).is_none() && it().find_map(|b| if f(b) { Some(b + 1) } else { None }) == at(rest).map(|_| x + 1);
            let to = at(rest).unwrap_or(rest.len());
            ok &= it().take_while(|b| !f(b)).copied().collect::<Vec<_>>() == rest[..to] && it().skip_while(|b| !f(b)).cloned().collect::<Vec<_>>() == rest[to..];
            ok &= it().map(|b| b + 1).collect::<Vec<_>>() == (0..rest.len()).map(|k| rest[k] + 1).collect::<Vec<_>>();
            ok &= it().enumerate().all(|(k, b)| *b == rest[k]) && it().rev().copied().collect::<Vec<_>>() == (0..rest.len()).map(|k| rest[rest.len() - 1 - k]).collect::<Vec<_>>();
            let m = r.n(9);
            ok &= it().skip(m).copied().collect::<Vec<_>>() == rest[m.min(rest.len())..] && it().take(m).copied().collect::<Vec<_>>() == rest[..m.min(rest.len())];
            ok &= it().count() == rest.len() && it().len() == rest.len() && it().last() == rest.last() && it().nth(m) == rest.get(m);
            ok &= it().zip(&v).map(|(a, b)| (*a, *b)).collect::<Vec<_>>() == (0..rest.len()).map(|k| (rest[k], v[k])).collect::<Vec<_>>();
            ok &= it().chain(&v).copied().collect::<Vec<_>>() == [rest, &v].concat();
            ok &= std::iter::once(x).chain(std::iter::empty()).collect::<Vec<_>>() == [x] && Some(x).into_iter().collect::<Vec<_>>() == [x];
            let mut w = v.clone();
            w.extend(rest);
            w.extend(rest.iter().map(|b| *b));
            ok &= w == [&v, rest, rest].concat() && vec![x; m].iter().all(f) && vec![x; m].len() == m;
            let mut s = String::from("x");
            s.extend(v.iter().map(|b| *b as char));
            ok &= s.as_bytes() == [&b"x"[..], &v].concat();
            let mut h = std::collections::HashSet::new();
            for (k, b) in v.iter().enumerate() { ok &= h.insert(*b) == !v[..k].contains(b); }
            ok &= h.contains(&x) == v.contains(&x) && h.get(&x).is_some() == v.contains(&x) && h.is_empty() == (n == 0);
            ok &= h.remove(&x) == v.contains(&x) && !h.contains(&x);
            t(ok, format!("{:?} from {p}, {x}, {m}", v));
        }
    });
    rep.group("Option, Result, mem", "every combination", |t| {
        for a in [None, Some(1u8)] { for b in [None, Some(2u8)] {
            let ok = a.or(b) == if a.is_some() { a } else { b } && a.xor(b) == match (a, b) { (Some(_), None) => a, (None, Some(_)) => b, _ => None } && a.zip(b) == match (a, b) { (Some(x), Some(y)) => Some((x, y)), _ => None };
            let mut c = a;
            let ok = ok && c.replace(7) == a && c == Some(7) && a.as_ref().copied() == a && Some(a).flatten() == a;
            let mut c = a;
            let ok = ok && std::mem::replace(&mut c, b) == a && c == b;
            t(ok, format!("{:?} {:?}", a, b));
        } }
        for a in [None, Some(Ok(1u8)), Some(Err(2u8))] {
            t(a.transpose() == match a { None => Ok(None), Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e) }, format!("{:?}", a));
        }
        t(None::<String>.unwrap_or_default().is_empty() && Some("a".to_string()).as_deref() == Some("a"), "String".into());
    });
    rep.group("Ipv4Addr, Ipv6Addr: what is written", "random addresses", |t| {
        for _ in 0..5000 {
            let b: Vec<u8> = (0..4).map(|_| r.n(256) as u8).collect();
            let s = std::net::Ipv4Addr::new(b[0], b[1], b[2], b[3]).to_string();
            t(s == format!("{}.{}.{}.{}", dec(b[0] as u64), dec(b[1] as u64), dec(b[2] as u64), dec(b[3] as u64)), s);
            let g: [u16; 8] = std::array::from_fn(|_| if r.n(2) == 0 { 0 } else { r.n(65536) as u16 });
            let s = std::net::Ipv6Addr::from(g).to_string();
            t(s.chars().all(|c| c.is_ascii_hexdigit() || c == ':' || c == '.'), s);
        }
    });
    readers(&mut rep, r);
    rep
}

#[cfg(feature = "rt-tokio")]
fn readers(rep: &mut Report, r: &mut Rng) {
    use futures::executor::block_on;
    use std::pin::Pin;
    use std::task::{Context, Poll};
    use tokio::io::*;
    struct Src { data: Vec<u8>, at: usize, step: usize, fail: bool, pend: bool }
    impl AsyncRead for Src {
        fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<Result<()>> {
            self.pend = !self.pend;
            if self.pend { cx.waker().wake_by_ref(); return Poll::Pending; }
            let n = self.step.min(self.data.len() - self.at).min(buf.remaining());
            if n == 0 && self.fail && self.at == self.data.len() { return Poll::Ready(Err(Error::new(ErrorKind::Other, "x"))); }
            let a = self.at;
            self.at += n;
            buf.put_slice(&self.data[a..a + n]);
            Poll::Ready(Ok(()))
        }
    }
    rep.group("BufReader: read, read_to_end, read_line; Cursor", "random sources", |t| {
        for _ in 0..1500 {
            let n = r.n(30);
            let data: Vec<u8> = (0..n).map(|_| [b'a', b'\r', b'\n', 0xC3, 0xA9, b'z'][r.n(6)]).collect();
            let fail = r.n(2) == 0;
            let (step, cap, room) = (1 + r.n(5), 1 + r.n(9), 1 + r.n(9));
            let src = || BufReader::with_capacity(cap, Src { data: data.clone(), at: 0, step, fail, pend: false });
            let mut got = vec![9];
            let x = block_on(src().read_to_end(&mut got));
            let mut ok = x.is_ok() == !fail && (fail || got == [&[9], &data[..]].concat() && x.unwrap() == data.len());
            let (mut b, mut at) = (src(), 0);
            loop {
                let mut buf = vec![0u8; room];
                match block_on(b.read(&mut buf)) {
                    Ok(k) => {
                        ok &= at + k <= data.len() && buf[..k] == data[at..at + k] && buf.len() == room;
                        at += k;
                        if k == 0 { ok &= at == data.len() && !fail; break; }
                    }
                    Err(_) => { ok &= fail; break; }
                }
            }
            let (mut b, mut at) = (src(), 0);
            loop {
                let mut line = String::from("+");
                let end = data[at..].iter().position(|c| *c == b'\n').map(|k| at + k + 1);
                let l = &data[at..end.unwrap_or(data.len())];
                match block_on(b.read_line(&mut line)) {
                    Ok(k) => {
                        ok &= k == l.len() && line.as_bytes() == [&b"+"[..], l].concat() && valid_utf8(l).is_some() && (end.is_some() || !fail);
                        at += k;
                        if k == 0 { break; }
                    }
                    Err(_) => { ok &= valid_utf8(l).is_none() || end.is_none() && fail; break; }
                }
            }
            let mut got = vec![];
            ok &= block_on(BufReader::new(std::io::Cursor::new(data.clone())).read_to_end(&mut got)).is_ok() && got == data;
            t(ok, format!("{:?} {fail} {step} {cap} {room}", data));
        }
    });
}
#[cfg(not(feature = "rt-tokio"))]
fn readers(_: &mut Report, _: &mut Rng) {}
