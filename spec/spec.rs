//! The meaning of the properties: mathematical definitions and lemmas, independent of the code.
//! Nothing here is assumed: every lemma is proved.
#![allow(unused_imports, unused_variables, dead_code)]
use vstd::prelude::*;
use crate::shim::*;
pub use crate::shim::{snd, rcv, Ev, Wire, utf8, blen, dec, hex2, upper, words, line_len, at_off, starts};
use crate::shim::nom::find_sub;
use crate::response::{Category, Code, Detail, Response, Severity};
use crate::error::Error;
use crate::authentication::Mechanism;
use crate::extension::{ClientId, MailParameter, MailBodyParameter, RcptParameter, Extension};
use crate::types::EmailAddress;
use crate::shim::std::fmt::Display;

verus! {

// ================================================================= mail data (C01)

/// The state after a byte: 0 inside a line, 1 after CR, 2 at the beginning of a line.
pub open spec fn cstep(s: int, b: u8) -> int { if b == 13 { 1 } else if s == 1 && b == 10 { 2 } else { 0 } }
pub open spec fn cst(s0: int, p: Seq<u8>) -> int
    decreases p.len()
{ if p.len() == 0 { s0 } else { cstep(cst(s0, p.drop_last()), p.last()) } }
/// The dot-stuffed form of p.
pub open spec fn stuff(s0: int, p: Seq<u8>) -> Seq<u8>
    decreases p.len()
{
    if p.len() == 0 { Seq::empty() }
    else { stuff(s0, p.drop_last()) + (if cst(s0, p.drop_last()) == 2 && p.last() == 46 { seq![46u8, 46u8] } else { seq![p.last()] }) }
}
pub open spec fn term(s: int) -> Seq<u8> {
    if s == 0 { seq![13u8, 10, 46, 13, 10] } else if s == 1 { seq![10u8, 46, 13, 10] } else { seq![46u8, 13, 10] }
}
/// What is sent for the message m.
pub open spec fn wire(m: Seq<u8>) -> Seq<u8> { stuff(2, m) + term(cst(2, m)) }
/// The message with the CRLF it lacks at its end.
pub open spec fn complete(m: Seq<u8>) -> Seq<u8> {
    m + (if cst(2, m) == 0 { seq![13u8, 10] } else if cst(2, m) == 1 { seq![10u8] } else { Seq::empty() })
}
/// The receiver of RFC 5321 4.5.2, written from the point of view of the server: at the beginning
/// of a line, a dot followed by CRLF ends the data, any other first dot is removed.
/// Result: the decoded message and what follows the data; None if the data has no end.
pub open spec fn recv(s: int, w: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>)>
    decreases w.len()
{
    if w.len() == 0 { None }
    else if s == 2 && w[0] == 46 {
        if w.len() >= 3 && w[1] == 13 && w[2] == 10 { Some((Seq::empty(), w.skip(3))) }
        else if w.len() < 2 { None }
        else {
            match recv(cstep(0, w[1]), w.skip(2)) { None => None, Some((d, r)) => Some((seq![w[1]] + d, r)) }
        }
    } else {
        match recv(cstep(s, w[0]), w.skip(1)) { None => None, Some((d, r)) => Some((seq![w[0]] + d, r)) }
    }
}

// forward forms
pub open spec fn fstuff(s: int, p: Seq<u8>) -> Seq<u8>
    decreases p.len()
{
    if p.len() == 0 { term(s) }
    else { (if s == 2 && p[0] == 46 { seq![46u8, 46u8] } else { seq![p[0]] }) + fstuff(cstep(s, p[0]), p.skip(1)) }
}
pub open spec fn fst_(s: int, p: Seq<u8>) -> int
    decreases p.len()
{ if p.len() == 0 { s } else { fst_(cstep(s, p[0]), p.skip(1)) } }

proof fn lem_cst_front(s: int, p: Seq<u8>)
    requires p.len() > 0,
    ensures
        cst(s, p) == cst(cstep(s, p[0]), p.skip(1)),
        stuff(s, p) == (if s == 2 && p[0] == 46 { seq![46u8, 46u8] } else { seq![p[0]] }) + stuff(cstep(s, p[0]), p.skip(1)),
    decreases p.len()
{
    let h = if s == 2 && p[0] == 46 { seq![46u8, 46u8] } else { seq![p[0]] };
    if p.len() == 1 {
        assert(p.drop_last().len() == 0 && p.skip(1).len() == 0);
        assert(cst(s, p.drop_last()) == s);
        assert(p.last() == p[0]);
        assert(stuff(s, p.drop_last()) =~= Seq::empty());
        assert(stuff(cstep(s, p[0]), p.skip(1)) =~= Seq::empty());
        assert(stuff(s, p) == Seq::<u8>::empty() + h);
        assert(stuff(s, p) =~= h + stuff(cstep(s, p[0]), p.skip(1)));
    } else {
        let q = p.drop_last();
        lem_cst_front(s, q);
        assert(q.skip(1) =~= p.skip(1).drop_last());
        assert(p.skip(1).last() == p.last());
        assert(q[0] == p[0]);
        let c = if cst(s, q) == 2 && p.last() == 46 { seq![46u8, 46u8] } else { seq![p.last()] };
        assert(stuff(s, p) == stuff(s, q) + c);
        assert((h + stuff(cstep(s, p[0]), q.skip(1))) + c =~= h + (stuff(cstep(s, p[0]), q.skip(1)) + c));
    }
}
proof fn lem_fstuff(s: int, p: Seq<u8>)
    ensures fstuff(s, p) == stuff(s, p) + term(cst(s, p)),
    decreases p.len()
{
    if p.len() == 0 {
        assert(stuff(s, p) + term(cst(s, p)) =~= term(s));
    } else {
        lem_cst_front(s, p);
        lem_fstuff(cstep(s, p[0]), p.skip(1));
        let h = if s == 2 && p[0] == 46 { seq![46u8, 46u8] } else { seq![p[0]] };
        let s1 = cstep(s, p[0]);
        assert(h + (stuff(s1, p.skip(1)) + term(cst(s1, p.skip(1)))) =~= (h + stuff(s1, p.skip(1))) + term(cst(s1, p.skip(1))));
    }
}
pub open spec fn tail_of(s: int) -> Seq<u8> { if s == 0 { seq![13u8, 10] } else if s == 1 { seq![10u8] } else { Seq::empty() } }

#[verifier::rlimit(50)]
proof fn lem_recv(s: int, p: Seq<u8>, rest: Seq<u8>)
    requires 0 <= s <= 2,
    ensures recv(s, fstuff(s, p) + rest) == Some((p + tail_of(cst(s, p)), rest)),
    decreases p.len()
{
    let w = fstuff(s, p) + rest;
    if p.len() == 0 {
        let t = term(s);
        assert(fstuff(s, p) == t);
        if s == 0 {
            assert(w[0] == 13 && w[1] == 10 && w[2] == 46 && w[3] == 13 && w[4] == 10);
            let w1 = w.skip(1); let w2 = w1.skip(1);
            assert(w2[0] == 46 && w2[1] == 13 && w2[2] == 10);
            assert(w2.skip(3) =~= rest);
            assert(recv(2, w2) == Some((Seq::<u8>::empty(), rest)));
            assert(recv(1, w1) == Some((seq![10u8] + Seq::<u8>::empty(), rest)));
            assert(recv(0, w) == Some((seq![13u8] + (seq![10u8] + Seq::<u8>::empty()), rest)));
            assert(seq![13u8] + (seq![10u8] + Seq::<u8>::empty()) =~= p + tail_of(cst(s, p)));
        } else if s == 1 {
            assert(w[0] == 10 && w[1] == 46 && w[2] == 13 && w[3] == 10);
            let w1 = w.skip(1);
            assert(w1[0] == 46 && w1[1] == 13 && w1[2] == 10);
            assert(w1.skip(3) =~= rest);
            assert(recv(2, w1) == Some((Seq::<u8>::empty(), rest)));
            assert(recv(1, w) == Some((seq![10u8] + Seq::<u8>::empty(), rest)));
            assert(seq![10u8] + Seq::<u8>::empty() =~= p + tail_of(cst(s, p)));
        } else {
            assert(w[0] == 46 && w[1] == 13 && w[2] == 10);
            assert(w.skip(3) =~= rest);
            assert(recv(2, w) == Some((Seq::<u8>::empty(), rest)));
            assert(Seq::<u8>::empty() =~= p + tail_of(cst(s, p)));
        }
    } else {
        let s1 = cstep(s, p[0]);
        let q = p.skip(1);
        lem_recv(s1, q, rest);
        lem_cst_front(s, p);
        let d = q + tail_of(cst(s1, q));
        assert(seq![p[0]] + d =~= p + tail_of(cst(s, p)));
        if s == 2 && p[0] == 46 {
            assert(w[0] == 46 && w[1] == 46);
            assert(w.skip(2) =~= fstuff(s1, q) + rest);
            assert(cstep(0, 46) == s1);
            assert(recv(2, w) == Some((seq![46u8] + d, rest)));
        } else {
            assert(w[0] == p[0]);
            assert(w.skip(1) =~= fstuff(s1, q) + rest);
            assert(recv(s, w) == Some((seq![p[0]] + d, rest)));
        }
    }
}
pub proof fn lem_cst_range(s: int, p: Seq<u8>)
    requires 0 <= s <= 2,
    ensures 0 <= cst(s, p) <= 2,
    decreases p.len()
{ if p.len() > 0 { lem_cst_range(s, p.drop_last()); } }

/// C01: the server decodes exactly the (completed) message, and stops exactly at the end of what
/// was sent: whatever follows is left over.
pub proof fn c01_transparency(m: Seq<u8>, rest: Seq<u8>)
    ensures recv(2, wire(m) + rest) == Some((complete(m), rest)), // [C01]
{
    lem_fstuff(2, m);
    lem_recv(2, m, rest);
    lem_cst_range(2, m);
    assert(complete(m) =~= m + tail_of(cst(2, m)));
}
pub open spec fn cut(o: Seq<Ev>, n: Seq<Ev>, full: Seq<Ev>) -> bool {
    exists|k: int| 0 <= k <= full.len() && n == o + #[trigger] full.take(k)
}
pub proof fn lem_snd_cat(a: Seq<u8>, b: Seq<u8>)
    ensures snd(a + b) == snd(a) + snd(b),
{ assert(snd(a + b) =~= snd(a) + snd(b)); }
/// a part p of full has been written at position d, or only some of it
pub proof fn lem_write(o: Seq<Ev>, m: Seq<Ev>, n: Seq<Ev>, full: Seq<u8>, d: int, p: Seq<u8>)
    ensures
        (0 <= d && d + p.len() <= full.len() && m == o + snd(full.take(d)) && full.subrange(d, d + p.len()) =~= p) ==> {
            &&& (n == m + snd(p) ==> n == o + snd(full.take(d + p.len())))
            &&& ((exists|k: int| 0 <= k <= p.len() && n == m + #[trigger] snd(p.take(k))) ==> cut(o, n, snd(full)))
        },
{
    if 0 <= d && d + p.len() <= full.len() && m == o + snd(full.take(d)) && full.subrange(d, d + p.len()) == p {
        assert(full.take(d + p.len()) =~= full.take(d) + p);
        lem_snd_cat(full.take(d), p);
        if n == m + snd(p) { assert(n =~= o + snd(full.take(d + p.len()))); }
        if exists|k: int| 0 <= k <= p.len() && n == m + #[trigger] snd(p.take(k)) {
            let k = choose|k: int| 0 <= k <= p.len() && n == m + #[trigger] snd(p.take(k));
            assert(n =~= o + snd(full).take(d + k));
        }
    }
}
proof fn lem_stuff_prefix(s: int, p: Seq<u8>, k: int)
    requires 0 <= k <= p.len(),
    ensures stuff(s, p.take(k)).len() <= stuff(s, p).len(), stuff(s, p).take(stuff(s, p.take(k)).len() as int) == stuff(s, p.take(k)),
    decreases p.len()
{
    if k == p.len() {
        assert(p.take(k) =~= p);
        assert(stuff(s, p).take(stuff(s, p).len() as int) =~= stuff(s, p));
    } else {
        lem_stuff_prefix(s, p.drop_last(), k);
        assert(p.drop_last().take(k) =~= p.take(k));
        let n = stuff(s, p.take(k)).len() as int;
        assert(stuff(s, p).take(n) =~= stuff(s, p.drop_last()).take(n));
    }
}
/// one more byte
pub proof fn lem_stuff_push(s: int, p: Seq<u8>, k: int)
    requires 0 <= k < p.len(), 0 <= s <= 2,
    ensures
        cst(s, p.take(k + 1)) == cstep(cst(s, p.take(k)), p[k]),
        0 <= cst(s, p.take(k)) <= 2,
        stuff(s, p.take(k + 1)) == stuff(s, p.take(k)) + (if cst(s, p.take(k)) == 2 && p[k] == 46 { seq![46u8, 46u8] } else { seq![p[k]] }),
{
    assert(p.take(k + 1).drop_last() =~= p.take(k));
    lem_cst_range(s, p.take(k));
}

/// done bytes of the stuffed form of p have been written, p[start..k] is still to be copied
pub open spec fn enc(s: int, p: Seq<u8>, start: int, k: int, done: int) -> bool {
    &&& 0 <= s <= 2 && 0 <= start <= k <= p.len() && 0 <= done
    &&& done + (k - start) == stuff(s, p.take(k)).len()
    &&& done + (k - start) <= stuff(s, p).len()
    &&& stuff(s, p).subrange(done, done + (k - start)) == p.subrange(start, k)
}
pub proof fn lem_enc_init(s: int, p: Seq<u8>)
    ensures 0 <= s <= 2 ==> enc(s, p, 0, 0, 0), cst(s, p.take(0)) == s,
{
    assert(p.take(0).len() == 0);
    assert(stuff(s, p).subrange(0, 0) =~= p.subrange(0, 0));
}
pub proof fn lem_enc_end(s: int, p: Seq<u8>, start: int, done: int)
    ensures enc(s, p, start, p.len() as int, done) ==> {
        &&& done + (p.len() - start) == stuff(s, p).len()
        &&& stuff(s, p).subrange(done, done + (p.len() - start)) == p.subrange(start, p.len() as int)
        &&& p.take(p.len() as int) == p
    },
{ assert(p.take(p.len() as int) =~= p); }
/// the facts the loop of encode needs for byte k
pub proof fn lem_encode_step(s: int, p: Seq<u8>, start: int, k: int, done: int)
    ensures enc(s, p, start, k, done) && k < p.len() ==> {
        let st = cst(s, p.take(k));
        &&& 0 <= st <= 2
        &&& cst(s, p.take(k + 1)) == cstep(st, p[k])
        &&& if st == 2 && p[k] == 46 {
                &&& stuff(s, p).len() >= done + (k - start) + 1
                &&& stuff(s, p).subrange(done + (k - start), done + (k - start) + 1) == seq![46u8]
                &&& enc(s, p, k, k + 1, done + (k - start) + 1)
            } else { enc(s, p, start, k + 1, done) }
    },
{
    if enc(s, p, start, k, done) && k < p.len() {
        lem_stuff_push(s, p, k);
        lem_stuff_prefix(s, p, k);
        lem_stuff_prefix(s, p, k + 1);
        let st = cst(s, p.take(k));
        let f = stuff(s, p);
        let a = stuff(s, p.take(k));
        let b = stuff(s, p.take(k + 1));
        assert(f.take(b.len() as int) == b);
        if st == 2 && p[k] == 46 {
            assert(b == a + seq![46u8, 46u8]);
            assert(f[a.len() as int] == b[a.len() as int] && f[a.len() as int + 1] == b[a.len() as int + 1]) by {
                assert(f.take(b.len() as int)[a.len() as int] == f[a.len() as int]);
                assert(f.take(b.len() as int)[a.len() as int + 1] == f[a.len() as int + 1]);
            }
            assert(f.subrange(done + (k - start), done + (k - start) + 1) =~= seq![46u8]);
            assert(f.subrange(a.len() as int + 1, a.len() as int + 2) =~= p.subrange(k, k + 1));
        } else {
            assert(b == a + seq![p[k]]);
            assert(f[a.len() as int] == p[k]) by {
                assert(f.take(b.len() as int)[a.len() as int] == f[a.len() as int]);
            }
            assert(f.subrange(done, done + (k + 1 - start)) =~= f.subrange(done, done + (k - start)).push(f[a.len() as int]));
            assert(p.subrange(start, k + 1) =~= p.subrange(start, k).push(p[k]));
        }
    }
}


// ================================================================= replies (C04)

/// A reply: its code and the texts of its lines.
pub ghost struct Resp { pub code: Code, pub lines: Seq<Seq<char>> }
pub open spec fn texts(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|x: String| x@) }
pub open spec fn rv(r: Response) -> Resp { Resp { code: r.code, lines: texts(r.message@) } }
pub open spec fn says(r: Response, x: Resp) -> bool { r.code == x.code && texts(r.message@) =~= x.lines }
pub open spec fn sev_of(c: char) -> Option<Severity> {
    if c == '2' { Some(Severity::PositiveCompletion) } else if c == '3' { Some(Severity::PositiveIntermediate) }
    else if c == '4' { Some(Severity::TransientNegativeCompletion) } else if c == '5' { Some(Severity::PermanentNegativeCompletion) }
    else { None }
}
pub open spec fn cat_of(c: char) -> Option<Category> {
    if c == '0' { Some(Category::Syntax) } else if c == '1' { Some(Category::Information) } else if c == '2' { Some(Category::Connections) }
    else if c == '3' { Some(Category::Unspecified3) } else if c == '4' { Some(Category::Unspecified4) } else if c == '5' { Some(Category::MailSystem) }
    else { None }
}
pub open spec fn det_of(c: char) -> Option<Detail> {
    if c == '0' { Some(Detail::Zero) } else if c == '1' { Some(Detail::One) } else if c == '2' { Some(Detail::Two) }
    else if c == '3' { Some(Detail::Three) } else if c == '4' { Some(Detail::Four) } else if c == '5' { Some(Detail::Five) }
    else if c == '6' { Some(Detail::Six) } else if c == '7' { Some(Detail::Seven) } else if c == '8' { Some(Detail::Eight) }
    else if c == '9' { Some(Detail::Nine) } else { None }
}
pub open spec fn sev_char(s: Severity) -> char {
    match s { Severity::PositiveCompletion => '2', Severity::PositiveIntermediate => '3', Severity::TransientNegativeCompletion => '4', Severity::PermanentNegativeCompletion => '5' }
}
pub open spec fn cat_char(c: Category) -> char {
    match c { Category::Syntax => '0', Category::Information => '1', Category::Connections => '2', Category::Unspecified3 => '3', Category::Unspecified4 => '4', Category::MailSystem => '5' }
}
pub open spec fn det_char(d: Detail) -> char {
    match d {
        Detail::Zero => '0', Detail::One => '1', Detail::Two => '2', Detail::Three => '3', Detail::Four => '4',
        Detail::Five => '5', Detail::Six => '6', Detail::Seven => '7', Detail::Eight => '8', Detail::Nine => '9',
    }
}
pub open spec fn code_text(c: Code) -> Seq<char> { seq![sev_char(c.severity), cat_char(c.category), det_char(c.detail)] }
pub open spec fn crlf() -> Seq<char> { seq!['\r', '\n'] }
pub open spec fn sev_num(s: Severity) -> int {
    match s { Severity::PositiveCompletion => 2, Severity::PositiveIntermediate => 3, Severity::TransientNegativeCompletion => 4, Severity::PermanentNegativeCompletion => 5 }
}
pub open spec fn cat_num(c: Category) -> int {
    match c { Category::Syntax => 0, Category::Information => 1, Category::Connections => 2, Category::Unspecified3 => 3, Category::Unspecified4 => 4, Category::MailSystem => 5 }
}
pub open spec fn det_num(d: Detail) -> int {
    match d {
        Detail::Zero => 0, Detail::One => 1, Detail::Two => 2, Detail::Three => 3, Detail::Four => 4,
        Detail::Five => 5, Detail::Six => 6, Detail::Seven => 7, Detail::Eight => 8, Detail::Nine => 9,
    }
}
/// a code as a number
pub proof fn lem_code_num(c: Code, n: int)
    ensures
        2 <= sev_num(c.severity) <= 5, 0 <= cat_num(c.category) <= 5, 0 <= det_num(c.detail) <= 9,
        0 <= n ==> ((code_text(c) == dec(n)) == (n == 100 * sev_num(c.severity) + 10 * cat_num(c.category) + det_num(c.detail))),
{
    let (x, y, z) = (sev_num(c.severity), cat_num(c.category), det_num(c.detail));
    let m = 100 * x + 10 * y + z;
    lem_dec3(x, y, z);
    assert(dec(m) =~= code_text(c));
    if 0 <= n && dec(n) == code_text(c) { lem_dec_inj(n, m); }
}
proof fn lem_dec3(x: int, y: int, z: int)
    requires 1 <= x <= 9, 0 <= y <= 9, 0 <= z <= 9,
    ensures dec(100 * x + 10 * y + z) == seq![crate::shim::digit(x), crate::shim::digit(y), crate::shim::digit(z)],
{
    let m = 100 * x + 10 * y + z;
    assert(m / 10 == 10 * x + y && m % 10 == z);
    assert((10 * x + y) / 10 == x && (10 * x + y) % 10 == y);
    assert(dec(x) =~= seq![crate::shim::digit(x)]);
    assert(dec(10 * x + y) == dec(x).push(crate::shim::digit(y)));
    assert(dec(m) =~= seq![crate::shim::digit(x), crate::shim::digit(y), crate::shim::digit(z)]);
}
proof fn lem_dec_inj(a: int, b: int)
    requires 0 <= a, 0 <= b, dec(a) == dec(b),
    ensures a == b,
    decreases a,
{
    if a < 10 && b < 10 {
        assert(dec(a) == seq![crate::shim::digit(a)] && dec(b) == seq![crate::shim::digit(b)]);
        assert(seq![crate::shim::digit(a)][0] == seq![crate::shim::digit(b)][0]);
        assert(crate::shim::digit(a) as int == 48 + a && crate::shim::digit(b) as int == 48 + b);
    }
    else if a < 10 { lem_dec_len(b / 10); assert(dec(b).len() > 1); }
    else if b < 10 { lem_dec_len(a / 10); assert(dec(a).len() > 1); }
    else {
        assert(dec(a).last() == crate::shim::digit(a % 10) && dec(b).last() == crate::shim::digit(b % 10));
        assert(dec(a).drop_last() =~= dec(a / 10));
        assert(dec(b).drop_last() =~= dec(b / 10));
        lem_dec_inj(a / 10, b / 10);
    }
}
proof fn lem_dec_len(a: int)
    ensures dec(a).len() >= 1,
    decreases a,
{ if a >= 10 { lem_dec_len(a / 10); } }

/// The outcome of reading a piece of a reply: more text needed, not such a piece, or the value
/// and the number of characters it takes.
#[verifier::reject_recursive_types(T)]
pub ghost enum Pr<T> { More, No, Got(T, int) }

pub open spec fn p_sev(s: Seq<char>) -> Pr<Severity> {
    if s.len() == 0 { Pr::More } else { match sev_of(s[0]) { Some(x) => Pr::Got(x, 1), None => Pr::No } }
}
pub open spec fn p_cat(s: Seq<char>) -> Pr<Category> {
    if s.len() == 0 { Pr::More } else { match cat_of(s[0]) { Some(x) => Pr::Got(x, 1), None => Pr::No } }
}
pub open spec fn p_det(s: Seq<char>) -> Pr<Detail> {
    if s.len() == 0 { Pr::More } else { match det_of(s[0]) { Some(x) => Pr::Got(x, 1), None => Pr::No } }
}
pub open spec fn p_code(s: Seq<char>) -> Pr<Code> {
    match p_sev(s) {
        Pr::More => Pr::More, Pr::No => Pr::No,
        Pr::Got(a, _) => match p_cat(s.skip(1)) {
            Pr::More => Pr::More, Pr::No => Pr::No,
            Pr::Got(b, _) => match p_det(s.skip(1).skip(1)) {
                Pr::More => Pr::More, Pr::No => Pr::No,
                Pr::Got(c, _) => Pr::Got(Code { severity: a, category: b, detail: c }, 3),
            }
        }
    }
}
/// A line that is not the last one: code, hyphen, text, CRLF.
pub open spec fn p_cont(s: Seq<char>) -> Pr<(Code, Seq<char>)> {
    match p_code(s) {
        Pr::More => Pr::More, Pr::No => Pr::No,
        Pr::Got(c, _) =>
            if s.len() == 3 { Pr::More } else if s[3] != '-' { Pr::No } else {
                let k = find_sub(s.skip(4), crlf(), 0);
                if k < 0 { Pr::More } else { Pr::Got((c, s.skip(4).take(k)), 4 + k + 2) }
            }
    }
}
/// The last line: code, then CRLF or space, text, CRLF.
pub open spec fn p_last(s: Seq<char>) -> Pr<(Code, Seq<char>)> {
    match p_code(s) {
        Pr::More => Pr::More, Pr::No => Pr::No,
        Pr::Got(c, _) =>
            if s.len() == 3 { Pr::More }
            else if s[3] == ' ' {
                let k = find_sub(s.skip(4), crlf(), 0);
                if k < 0 { Pr::More } else { Pr::Got((c, s.skip(4).take(k)), 4 + k + 2) }
            }
            else if s[3] == '\r' { if s.len() == 4 { Pr::More } else if s[4] == '\n' { Pr::Got((c, Seq::empty()), 5) } else { Pr::No } }
            else { Pr::No }
    }
}
/// All lines, after those in acc.
pub closed spec fn p_lines(s: Seq<char>, acc: Seq<(Code, Seq<char>)>) -> Pr<Seq<(Code, Seq<char>)>>
    decreases s.len()
{
    match p_cont(s) {
        Pr::More => Pr::More,
        Pr::No => match p_last(s) { Pr::More => Pr::More, Pr::No => Pr::No, Pr::Got(l, n) => Pr::Got(acc.push(l), n) },
        Pr::Got(l, n) => if !(0 < n <= s.len()) { Pr::No } else {
            match p_lines(s.skip(n), acc.push(l)) { Pr::More => Pr::More, Pr::No => Pr::No, Pr::Got(r, m) => Pr::Got(r, n + m) }
        }
    }
}
pub closed spec fn same_code(l: Seq<(Code, Seq<char>)>) -> bool { forall|k: int| 0 <= k < l.len() ==> (#[trigger] l[k]).0 == l.last().0 }
/// The reply at the start of s.
pub closed spec fn p_resp(s: Seq<char>) -> Pr<Resp> {
    match p_lines(s, Seq::empty()) {
        Pr::More => Pr::More, Pr::No => Pr::No,
        Pr::Got(l, n) => if same_code(l) { Pr::Got(Resp { code: l.last().0, lines: l.map_values(|x: (Code, Seq<char>)| x.1) }, n) } else { Pr::No },
    }
}

pub open spec fn nom_ok<'a, T>(i: Seq<char>, p: Pr<T>, r: crate::shim::nom::IResult<&'a str, T>) -> bool {
    match p {
        Pr::More => r is Err && r->Err_0 is Incomplete,
        Pr::No => r is Err && r->Err_0 is Error,
        Pr::Got(v, n) => r is Ok && (r->Ok_0).1 == v && (r->Ok_0).0@ == i.skip(n),
    }
}


pub open spec fn shift<T>(k: int, p: Pr<T>) -> Pr<T> { match p { Pr::Got(v, n) => Pr::Got(v, k + n), q => q } }
pub open spec fn accv(a: Seq<(Code, &str, &str)>) -> Seq<(Code, Seq<char>)> { a.map_values(|x: (Code, &str, &str)| (x.0, x.1@)) }
pub broadcast proof fn accv_at(x: Seq<(Code, &str, &str)>, k: int)
    requires 0 <= k < x.len(),
    ensures #![trigger accv(x), x[k]] #![trigger accv(x)[k]] accv(x)[k] == (x[k].0, x[k].1@),
{}
/// the lines read so far are acc, rest is what follows
pub closed spec fn in_lines(i0: Seq<char>, rest: Seq<char>, acc: Seq<(Code, Seq<char>)>) -> bool {
    &&& rest.len() <= i0.len()
    &&& rest == i0.skip(i0.len() - rest.len())
    &&& p_lines(i0, Seq::empty()) == shift(i0.len() - rest.len(), p_lines(rest, acc))
}
pub proof fn lem_in_lines_init(i0: Seq<char>)
    ensures in_lines(i0, i0, Seq::empty()),
{
    assert(i0.skip(0) =~= i0);
    match p_lines(i0, Seq::empty()) { Pr::Got(v, n) => { assert(shift(0, p_lines(i0, Seq::empty())) == p_lines(i0, Seq::empty())); } _ => {} }
}
pub proof fn lem_find_sub(s: Seq<char>, t: Seq<char>, k: int)
    requires 0 <= k,
    ensures ({
        let f = find_sub(s, t, k);
        &&& f < 0 ==> forall|j: int| k <= j && j + t.len() <= s.len() ==> #[trigger] s.subrange(j, j + t.len()) != t
        &&& f >= 0 ==> k <= f && f + t.len() <= s.len() && s.subrange(f, f + t.len()) == t
            && forall|j: int| k <= j < f ==> #[trigger] s.subrange(j, j + t.len()) != t
    }),
    decreases s.len() + 1 - k
{
    if k + t.len() > s.len() { } else if s.subrange(k, k + t.len()) == t { } else { lem_find_sub(s, t, k + 1); }
}
/// where the text of a line ends
pub proof fn lem_text(s: Seq<char>)
    ensures
        s.len() > 4 && find_sub(s.skip(4), crlf(), 0) >= 0 ==> {
            let k = find_sub(s.skip(4), crlf(), 0);
            &&& 4 + k + 2 <= s.len()
            &&& s.skip(4).skip(k) == s.skip(4 + k)
            &&& s[4 + k] == '\r' && s[5 + k] == '\n'
            &&& s.skip(4 + k).skip(2) == s.skip(4 + k + 2)
        },
{
    if s.len() > 4 && find_sub(s.skip(4), crlf(), 0) >= 0 {
        let t = s.skip(4);
        lem_find_sub(t, crlf(), 0);
        let k = find_sub(t, crlf(), 0);
        assert(t.subrange(k, k + 2)[0] == '\r' && t.subrange(k, k + 2)[1] == '\n');
        assert(s.skip(4).skip(k) =~= s.skip(4 + k));
        assert(s.skip(4 + k).skip(2) =~= s.skip(4 + k + 2));
    }
}
pub proof fn lem_in_lines_step(i0: Seq<char>, rest: Seq<char>, acc: Seq<(Code, Seq<char>)>)
    ensures
        in_lines(i0, rest, acc) ==> match p_cont(rest) {
            Pr::Got(l, n) => 0 < n <= rest.len() && in_lines(i0, rest.skip(n), acc.push(l)) && blen(rest.skip(n)) < blen(rest),
            Pr::More => p_resp(i0) is More,
            Pr::No => match p_last(rest) {
                Pr::More => p_resp(i0) is More,
                Pr::No => p_resp(i0) is No,
                Pr::Got(l, n) => {
                    &&& rest.skip(n) == i0.skip(i0.len() - rest.len() + n)
                    &&& if forall|k: int| 0 <= k < acc.len() ==> (#[trigger] acc[k]).0 == l.0 {
                            p_resp(i0) == Pr::Got(Resp { code: l.0, lines: acc.map_values(|x: (Code, Seq<char>)| x.1).push(l.1) }, i0.len() - rest.len() + n)
                        } else { p_resp(i0) is No }
                },
            },
        },
{
    if in_lines(i0, rest, acc) {
        match p_cont(rest) {
            Pr::Got(l, n) => {
                if rest.len() > 4 { lem_text(rest); } else { lem_find_sub(rest.skip(4), crlf(), 0); }
                blen_skip(rest, n);
                assert(rest.skip(n) =~= i0.skip(i0.len() - rest.skip(n).len()));
            }
            Pr::No => {
                match p_last(rest) {
                    Pr::Got(l, n) => {
                        lem_codes(acc, l);
                        if rest.len() > 4 { lem_text(rest); } else { lem_find_sub(rest.skip(4), crlf(), 0); }
                        assert(rest.skip(n) =~= i0.skip(i0.len() - rest.len() + n));
                    }
                    _ => {}
                }
            }
            _ => {}
        }
    }
}
proof fn lem_codes(a: Seq<(Code, Seq<char>)>, l: (Code, Seq<char>))
    ensures
        same_code(a.push(l)) == (forall|k: int| 0 <= k < a.len() ==> (#[trigger] a[k]).0 == l.0),
        a.push(l).last() == l,
        a.push(l).map_values(|x: (Code, Seq<char>)| x.1) == a.map_values(|x: (Code, Seq<char>)| x.1).push(l.1),
{
    assert(a.push(l).map_values(|x: (Code, Seq<char>)| x.1) =~= a.map_values(|x: (Code, Seq<char>)| x.1).push(l.1));
    if forall|k: int| 0 <= k < a.len() ==> (#[trigger] a[k]).0 == l.0 {
    } else {
        let k = choose|k: int| 0 <= k < a.len() && (#[trigger] a[k]).0 != l.0;
        assert(a.push(l)[k].0 != l.0);
    }
    if same_code(a.push(l)) {
        assert forall|k: int| 0 <= k < a.len() implies (#[trigger] a[k]).0 == l.0 by { assert(a.push(l)[k].0 == l.0); }
    }
}

/// 2yz and 3yz
pub open spec fn positive(c: Code) -> bool { c.severity is PositiveCompletion || c.severity is PositiveIntermediate }
pub open spec fn resp_error(r: Response) -> Error {
    match r.code.severity {
        Severity::TransientNegativeCompletion => Error::Transient(r),
        Severity::PermanentNegativeCompletion => Error::Permanent(r),
        _ => Error::Client("Unknown error code"),
    }
}
pub open spec fn first_word(lines: Seq<Seq<char>>) -> Option<Seq<char>> {
    if lines.len() > 0 && words(lines[0]).len() > 0 { Some(words(lines[0])[0]) } else { None }
}

// ================================================================= addresses (C03)

/// printable ASCII without space and angle brackets
pub open spec fn addr_char(c: char) -> bool { 33 <= c as u32 <= 126 && c != '<' && c != '>' }
pub open spec fn addr_ok(s: Seq<char>) -> bool { forall|k: int| 0 <= k < s.len() ==> addr_char(#[trigger] s[k]) }

/// a mechanism, possibly behind references
pub trait MechRef { spec fn m(self) -> Mechanism; }
impl MechRef for Mechanism { open spec fn m(self) -> Mechanism { self } }
impl<'a> MechRef for &'a Mechanism { open spec fn m(self) -> Mechanism { *self } }
/// The piece of an address that a loop over its characters or its bytes looks at is fine.
pub trait AddrPiece { spec fn piece_ok(self) -> bool; }
impl AddrPiece for char { open spec fn piece_ok(self) -> bool { addr_char(self) } }
impl AddrPiece for u8 { open spec fn piece_ok(self) -> bool { 33 <= self <= 126 && self != 60 && self != 62 } }
impl<T> AddrPiece for (T, char) { open spec fn piece_ok(self) -> bool { addr_char(self.1) } }
impl<T> AddrPiece for (T, u8) { open spec fn piece_ok(self) -> bool { self.1.piece_ok() } }
impl AddrPiece for &u8 { open spec fn piece_ok(self) -> bool { (*self).piece_ok() } }
pub open spec fn stands(c: char, b: u8) -> bool { if (c as u32) < 128 { b as u32 == c as u32 } else { b >= 128 } }
pub proof fn scalar_bytes(c: char)
    ensures
        vstd::utf8::encode_scalar(c as u32).len() > 0,
        forall|k: int| 0 <= k < vstd::utf8::encode_scalar(c as u32).len() ==> stands(c, #[trigger] vstd::utf8::encode_scalar(c as u32)[k]),
{
    let x = c as u32;
    assert(forall|y: u8| #![trigger 0xC0u8 | y] (0xC0u8 | y) >= 128u8) by (bit_vector);
    assert(forall|y: u8| #![trigger 0xE0u8 | y] (0xE0u8 | y) >= 128u8) by (bit_vector);
    assert(forall|y: u8| #![trigger 0xF0u8 | y] (0xF0u8 | y) >= 128u8) by (bit_vector);
    assert(forall|y: u8| #![trigger 0x80u8 | y] (0x80u8 | y) >= 128u8) by (bit_vector);
    assert(x < 128 ==> (x & 0x7F) == x) by (bit_vector);
}
/// An ASCII character takes one byte
pub proof fn lem_ascii_width(s: Seq<char>)
    ensures s.len() > 0 && (s[0] as u32) < 128 ==> blen(s.take(1)) == 1,
{ lem_ascii_first(s); }
/// and it is that byte
pub proof fn lem_ascii_first(s: Seq<char>)
    ensures s.len() > 0 && (s[0] as u32) < 128 ==> blen(s.take(1)) == 1 && utf8(s).len() > 0 && utf8(s)[0] == s[0] as u8,
{
    if s.len() > 0 && (s[0] as u32) < 128 {
        let t = s.take(1);
        assert(t.drop_first() =~= Seq::<char>::empty());
        assert(utf8(t) =~= vstd::utf8::encode_scalar(t[0] as u32) + utf8(t.drop_first()));
        assert(utf8(s) =~= vstd::utf8::encode_scalar(s[0] as u32) + utf8(s.drop_first()));
        scalar_bytes(s[0]);
        assert(vstd::utf8::encode_scalar(s[0] as u32).len() == 1);
        assert(stands(s[0], vstd::utf8::encode_scalar(s[0] as u32)[0]));
        assert(vstd::utf8::encode_scalar(s[0] as u32).len() == 1 && vstd::utf8::encode_scalar(s[0] as u32)[0] == s[0] as u8);
        assert(utf8(t.drop_first()).len() == 0);
    }
}
/// Every byte stands for a character and every character has a byte.
pub open spec fn from_char(s: Seq<char>, x: u8) -> bool { exists|i: int| 0 <= i < s.len() && stands(#[trigger] s[i], x) }
pub open spec fn has_byte(c: char, b: Seq<u8>) -> bool { exists|k: int| 0 <= k < b.len() && stands(c, #[trigger] b[k]) }
spec fn stand_in(s: Seq<char>, b: Seq<u8>) -> bool {
    &&& forall|k: int| 0 <= k < b.len() ==> from_char(s, #[trigger] b[k])
    &&& forall|i: int| 0 <= i < s.len() ==> has_byte(#[trigger] s[i], b)
}
proof fn lem_stand_in(s: Seq<char>, e: Seq<u8>, c: Seq<u8>)
    requires
        s.len() > 0, e.len() > 0,
        forall|k: int| 0 <= k < e.len() ==> stands(s[0], #[trigger] e[k]),
        stand_in(s.drop_first(), c),
    ensures stand_in(s, e + c),
{
    hide(stands);
    let t = s.drop_first();
    let b = e + c;
    assert forall|k: int| 0 <= k < b.len() implies from_char(s, #[trigger] b[k]) by {
        if k < e.len() { assert(stands(s[0], e[k])); }
        else { let j = k - e.len(); assert(from_char(t, c[j])); let i = choose|i: int| 0 <= i < t.len() && stands(#[trigger] t[i], c[j]); assert(stands(s[i + 1], b[k])); }
    }
    assert forall|i: int| 0 <= i < s.len() implies has_byte(#[trigger] s[i], b) by {
        if i == 0 { assert(stands(s[0], e[0])); assert(b[0] == e[0]); }
        else { let j = i - 1; assert(t[j] == s[i]); assert(has_byte(t[j], c)); let k = choose|k: int| 0 <= k < c.len() && stands(t[j], #[trigger] c[k]); assert(b[k + e.len()] == c[k]); }
    }
}
/// Every byte of the text in UTF-8 stands for one of its characters, and every character has such a byte.
pub proof fn lem_utf8_bytes(s: Seq<char>)
    ensures
        forall|k: int| 0 <= k < utf8(s).len() ==> from_char(s, #[trigger] utf8(s)[k]),
        forall|i: int| 0 <= i < s.len() ==> has_byte(#[trigger] s[i], utf8(s)),
{ lem_utf8_stand(s); }
proof fn lem_utf8_stand(s: Seq<char>)
    ensures stand_in(s, utf8(s)),
    decreases s.len(),
{
    hide(stand_in);
    if s.len() > 0 {
        lem_utf8_stand(s.drop_first());
        scalar_bytes(s[0]);
        lem_stand_in(s, vstd::utf8::encode_scalar(s[0] as u32), utf8(s.drop_first()));
        assert(utf8(s) == vstd::utf8::encode_scalar(s[0] as u32) + utf8(s.drop_first()));
    } else { lem_none_stand(s); assert(utf8(s) =~= Seq::empty()); }
}
proof fn lem_none_stand(s: Seq<char>) ensures s.len() == 0 ==> stand_in(s, Seq::empty()) { }

// ================================================================= xtext (C15)

/// the characters RFC 3461 encodes
pub open spec fn xneeds(c: char) -> bool { (c as u32) <= 32 || c == '+' || c == '=' || c as u32 == 127 }
pub open spec fn xchar(c: char) -> Seq<char> { if xneeds(c) { seq!['+'] + hex2(c as u8) } else { seq![c] } }
pub open spec fn xt(s: Seq<char>) -> Seq<char>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { xt(s.drop_last()) + xchar(s.last()) } }
pub open spec fn hexd(c: char) -> bool { ('0' <= c <= '9') || ('A' <= c <= 'F') }
pub open spec fn unhex(c: char) -> int { if c <= '9' { c as int - 48 } else { c as int - 55 } }
/// no control character, space or equals sign, and every plus sign starts a plus and two digits
pub open spec fn xtext(t: Seq<char>) -> bool
    decreases t.len()
{
    if t.len() == 0 { true }
    else if t[0] == '+' { t.len() >= 3 && hexd(t[1]) && hexd(t[2]) && xtext(t.skip(3)) }
    else { !xneeds(t[0]) && xtext(t.skip(1)) }
}
pub open spec fn xdec(t: Seq<char>) -> Seq<char>
    decreases t.len()
{
    if t.len() == 0 { Seq::empty() }
    else if t[0] == '+' && t.len() >= 3 { seq![((unhex(t[1]) * 16 + unhex(t[2])) as u8) as char] + xdec(t.skip(3)) }
    else { seq![t[0]] + xdec(t.skip(1)) }
}
pub proof fn lem_xt_push(s: Seq<char>, k: int)
    ensures 0 <= k < s.len() ==> xt(s.take(k + 1)) == xt(s.take(k)) + xchar(s[k]),
{ if 0 <= k < s.len() { assert(s.take(k + 1).drop_last() =~= s.take(k)); } }
pub proof fn lem_xt_plain(s: Seq<char>, p: int, k: int)
    ensures
        0 <= p && 0 <= k && p + k <= s.len() && (forall|j: int| 0 <= j < k ==> !xneeds(#[trigger] s.skip(p)[j]))
            ==> xt(s.take(p + k)) == xt(s.take(p)) + s.skip(p).take(k),
    decreases k
{
    if 0 <= p && 0 <= k && p + k <= s.len() && (forall|j: int| 0 <= j < k ==> !xneeds(#[trigger] s.skip(p)[j])) {
        if k == 0 {
            assert(xt(s.take(p)) + s.skip(p).take(0) =~= xt(s.take(p)));
        } else {
            lem_xt_plain(s, p, k - 1);
            lem_xt_push(s, p + k - 1);
            assert(!xneeds(s.skip(p)[k - 1]));
            assert(s.skip(p).take(k) =~= s.skip(p).take(k - 1) + seq![s[p + k - 1]]);
            assert(xt(s.take(p + k)) =~= xt(s.take(p)) + s.skip(p).take(k));
        }
    }
}
proof fn lem_hex(b: u8)
    ensures hexd(hex2(b)[0]), hexd(hex2(b)[1]), unhex(hex2(b)[0]) * 16 + unhex(hex2(b)[1]) == b,
{
    let h = b as int / 16; let l = b as int % 16;
    assert(0 <= h < 16 && 0 <= l < 16 && h * 16 + l == b);
}
proof fn lem_xt_front(s: Seq<char>)
    requires s.len() > 0,
    ensures xt(s) == xchar(s[0]) + xt(s.skip(1)),
    decreases s.len()
{
    if s.len() == 1 {
        assert(s.drop_last() =~= Seq::<char>::empty());
        assert(s.skip(1) =~= Seq::<char>::empty());
        assert(xt(s) =~= xchar(s[0]) + xt(s.skip(1)));
    } else {
        lem_xt_front(s.drop_last());
        assert(s.drop_last().skip(1) =~= s.skip(1).drop_last());
        assert(xt(s) =~= xchar(s[0]) + xt(s.skip(1)));
    }
}
pub proof fn lem_xt_ok(s: Seq<char>)
    ensures
        xtext(xt(s)), // [C15] valid
        xdec(xt(s)) == s, // [C15] decodes to the value
    decreases s.len()
{
    if s.len() > 0 {
        lem_xt_front(s);
        lem_xt_ok(s.skip(1));
        let c = s[0];
        let t = xt(s);
        let r = xt(s.skip(1));
        if xneeds(c) {
            lem_hex(c as u8);
            assert(c as u32 <= 127);
            assert(((c as u8) as char) == c);
            assert(t =~= seq!['+', hex2(c as u8)[0], hex2(c as u8)[1]] + r);
            assert(t.skip(3) =~= r);
            assert(xdec(t) =~= seq![c] + s.skip(1));
        } else {
            assert(t =~= seq![c] + r);
            assert(t.skip(1) =~= r);
            assert(xdec(t) =~= seq![c] + s.skip(1));
        }
        assert(seq![c] + s.skip(1) =~= s);
    }
}


// ================================================================= commands (C02, C09)

pub open spec fn opt_s(o: Option<&str>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
pub open spec fn mech_name(m: Mechanism) -> Seq<char> {
    match m { Mechanism::Plain => "PLAIN"@, Mechanism::Login => "LOGIN"@, Mechanism::Xoauth2 => "XOAUTH2"@ }
}
/// the mechanism sends an initial response with the command
pub open spec fn initial(m: Mechanism) -> bool { !(m is Login) }
pub open spec fn asks_user(c: Seq<char>) -> bool { c == "User Name"@ || c == "Username:"@ || c == "Username"@ }
pub open spec fn asks_secret(c: Seq<char>) -> bool { c == "Password"@ || c == "Password:"@ }
/// What the mechanism sends for the (decoded) challenge, None meaning at the start.
pub open spec fn sasl(m: Mechanism, user: Seq<char>, secret: Seq<char>, ch: Option<Seq<char>>) -> Option<Seq<char>> {
    match m {
        Mechanism::Plain => if ch is None { Some("\0"@ + user + "\0"@ + secret) } else { None },
        Mechanism::Xoauth2 => if ch is None { Some("user="@ + user + "\u{1}auth=Bearer "@ + secret + "\u{1}\u{1}"@) } else { None },
        Mechanism::Login => match ch {
            None => None,
            Some(c) => if asks_user(c) { Some(user) } else if asks_secret(c) { Some(secret) } else { None },
        },
    }
}
pub open spec fn b64_text(r: Option<Seq<char>>) -> Seq<char> { match r { Some(r) => crate::shim::base64::b64(utf8(r)), None => Seq::empty() } }
pub open spec fn auth_text(m: Mechanism, r: Option<Seq<char>>) -> Seq<char> {
    if initial(m) { "AUTH "@ + mech_name(m) + " "@ + b64_text(r) + "\r\n"@ }
    else if r is Some { b64_text(r) + "\r\n"@ }
    else { "AUTH "@ + mech_name(m) + "\r\n"@ }
}
pub open spec fn client_text(c: ClientId) -> Seq<char> {
    match c {
        ClientId::Domain(d) => d@,
        ClientId::Ipv4(a) => "["@ + a.ip_text() + "]"@,
        ClientId::Ipv6(a) => "[IPv6:"@ + a.ip_text() + "]"@,
    }
}
pub open spec fn other_text(k: String, v: Option<String>) -> Seq<char> { match v { Some(v) => k@ + "="@ + xt(v@), None => k@ } }
pub open spec fn mailp(p: MailParameter) -> Seq<char> {
    match p {
        MailParameter::Body(b) => "BODY="@ + b.text(),
        MailParameter::Size(n) => "SIZE="@ + dec(n as int),
        MailParameter::SmtpUtfEight => "SMTPUTF8"@,
        MailParameter::Other { keyword, value } => other_text(keyword, value),
    }
}
/// the parameters in the given order, each after a space
pub open spec fn ptext<T: Display>(ps: Seq<T>) -> Seq<char>
    decreases ps.len()
{ if ps.len() == 0 { Seq::empty() } else { ptext(ps.drop_last()) + (" "@ + ps.last().text()) } }
pub open spec fn sender_text(s: Option<EmailAddress>) -> Seq<char> { match s { Some(a) => a.a(), None => Seq::empty() } }
pub open spec fn mail_text(s: Option<EmailAddress>, ps: Seq<MailParameter>) -> Seq<char> {
    "MAIL FROM:<"@ + sender_text(s) + ">"@ + ptext(ps) + "\r\n"@
}
pub open spec fn rcpt_text(r: EmailAddress, ps: Seq<RcptParameter>) -> Seq<char> {
    "RCPT TO:<"@ + r.a() + ">"@ + ptext(ps) + "\r\n"@
}
pub proof fn lem_ptext<T: Display>(ps: Seq<T>, k: int)
    ensures
        0 <= k < ps.len() ==> ptext(ps.take(k + 1)) == ptext(ps.take(k)) + (" "@ + ps[k].text()),
        ptext(ps.take(0)) == Seq::<char>::empty(),
{ if 0 <= k < ps.len() { assert(ps.take(k + 1).drop_last() =~= ps.take(k)); } }


/// no CR and no LF
pub open spec fn clean(s: Seq<char>) -> bool { forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] != '\r' && s[k] != '\n' }
/// one line: a CRLF at the very end and no other CR or LF
pub open spec fn one_line(t: Seq<char>) -> bool { t.len() >= 2 && t.skip(t.len() - 2) == crlf() && clean(t.take(t.len() - 2)) }
pub proof fn lem_clean_cat(a: Seq<char>, b: Seq<char>)
    ensures clean(a) && clean(b) ==> clean(a + b),
{}
pub proof fn lem_line(s: Seq<char>)
    ensures clean(s) ==> one_line(s + "\r\n"@), // [C02]
{
    reveal_strlit("\r\n");
    assert("\r\n"@ =~= crlf());
    let t = s + "\r\n"@;
    assert(t.skip(t.len() - 2) =~= crlf());
    assert(t.take(t.len() - 2) =~= s);
}
pub proof fn lem_clean_addr(s: Seq<char>)
    ensures addr_ok(s) ==> clean(s), // [C02] an accepted address has no line break
{
    if addr_ok(s) { assert forall|k: int| 0 <= k < s.len() implies #[trigger] s[k] != '\r' && s[k] != '\n' by { assert(addr_char(s[k])); } }
}
pub proof fn lem_clean_xt(s: Seq<char>)
    ensures clean(xt(s)), // [C02] an encoded value has no line break
    decreases s.len()
{
    if s.len() > 0 {
        lem_clean_xt(s.drop_last());
        let c = s.last();
        assert(clean(xchar(c))) by { lem_hex(c as u8); }
        lem_clean_cat(xt(s.drop_last()), xchar(c));
    }
}
pub proof fn lem_clean_b64(r: Option<Seq<char>>)
    ensures clean(b64_text(r)), // [C02] a base64 response has no line break
{
    broadcast use crate::shim::base64::b64_alphabet;
    let t = b64_text(r);
    assert forall|k: int| 0 <= k < t.len() implies #[trigger] t[k] != '\r' && t[k] != '\n' by {
        assert(crate::shim::base64::b64_char(t[k]));
    }
}
pub proof fn lem_clean_dec(n: int)
    requires n >= 0,
    ensures clean(dec(n)),
    decreases n
{ if n >= 10 { lem_clean_dec(n / 10); } }
/// a parameter whose keyword has no line break (values are encoded)
pub open spec fn key_ok(k: String, v: Option<String>) -> bool { clean(k@) }
pub open spec fn mailp_ok(p: MailParameter) -> bool { match p { MailParameter::Other { keyword, value } => clean(keyword@), _ => true } }
pub open spec fn rcptp_ok(p: RcptParameter) -> bool { match p { RcptParameter::Other { keyword, value } => clean(keyword@) } }
proof fn lem_clean_other(k: String, v: Option<String>)
    ensures clean(k@) ==> clean(other_text(k, v)),
{
    reveal_strlit("=");
    if v is Some { lem_clean_xt(v->0@); lem_clean_cat(k@, "="@); lem_clean_cat(k@ + "="@, xt(v->0@)); }
}
pub proof fn lem_clean_mailp(p: MailParameter)
    ensures mailp_ok(p) ==> clean(mailp(p)),
{
    reveal_strlit("BODY="); reveal_strlit("SIZE="); reveal_strlit("SMTPUTF8"); reveal_strlit("7BIT"); reveal_strlit("8BITMIME");
    match p {
        MailParameter::Body(b) => { lem_clean_cat("BODY="@, b.text()); }
        MailParameter::Size(n) => { lem_clean_dec(n as int); lem_clean_cat("SIZE="@, dec(n as int)); }
        MailParameter::SmtpUtfEight => {}
        MailParameter::Other { keyword, value } => { lem_clean_other(keyword, value); }
    }
}
pub proof fn lem_clean_ptext<T: Display>(ps: Seq<T>)
    ensures (forall|k: int| 0 <= k < ps.len() ==> clean(#[trigger] ps[k].text())) ==> clean(ptext(ps)),
    decreases ps.len()
{
    reveal_strlit(" ");
    if ps.len() > 0 && (forall|k: int| 0 <= k < ps.len() ==> clean(#[trigger] ps[k].text())) {
        let q = ps.drop_last();
        assert forall|k: int| 0 <= k < q.len() implies clean(#[trigger] q[k].text()) by { assert(q[k] == ps[k]); assert(clean(ps[k].text())); }
        lem_clean_ptext(q);
        assert(ps.last() == ps[ps.len() - 1]);
        lem_clean_cat(" "@, ps.last().text());
        lem_clean_cat(ptext(q), " "@ + ps.last().text());
    }
}
pub proof fn lem_mail_line(s: Option<EmailAddress>, ps: Seq<MailParameter>)
    ensures addr_ok(sender_text(s)) && (forall|k: int| 0 <= k < ps.len() ==> mailp_ok(#[trigger] ps[k])) ==> one_line(mail_text(s, ps)), // [C02]
{
    reveal_strlit("MAIL FROM:<"); reveal_strlit(">");
    if addr_ok(sender_text(s)) && (forall|k: int| 0 <= k < ps.len() ==> mailp_ok(#[trigger] ps[k])) {
        assert forall|k: int| 0 <= k < ps.len() implies clean(#[trigger] ps[k].text()) by { lem_clean_mailp(ps[k]); }
        lem_clean_ptext(ps);
        lem_clean_addr(sender_text(s));
        lem_clean_cat("MAIL FROM:<"@, sender_text(s));
        lem_clean_cat("MAIL FROM:<"@ + sender_text(s), ">"@);
        lem_clean_cat("MAIL FROM:<"@ + sender_text(s) + ">"@, ptext(ps));
        lem_line("MAIL FROM:<"@ + sender_text(s) + ">"@ + ptext(ps));
    }
}
pub proof fn lem_rcpt_line(r: EmailAddress, ps: Seq<RcptParameter>)
    ensures addr_ok(r.a()) && (forall|k: int| 0 <= k < ps.len() ==> rcptp_ok(#[trigger] ps[k])) ==> one_line(rcpt_text(r, ps)), // [C02]
{
    reveal_strlit("RCPT TO:<"); reveal_strlit(">");
    if addr_ok(r.a()) && (forall|k: int| 0 <= k < ps.len() ==> rcptp_ok(#[trigger] ps[k])) {
        assert forall|k: int| 0 <= k < ps.len() implies clean(#[trigger] ps[k].text()) by {
            let RcptParameter::Other { keyword, value } = ps[k];
            lem_clean_other(keyword, value);
        }
        lem_clean_ptext(ps);
        lem_clean_addr(r.a());
        lem_clean_cat("RCPT TO:<"@, r.a());
        lem_clean_cat("RCPT TO:<"@ + r.a(), ">"@);
        lem_clean_cat("RCPT TO:<"@ + r.a() + ">"@, ptext(ps));
        lem_line("RCPT TO:<"@ + r.a() + ">"@ + ptext(ps));
    }
}
pub proof fn lem_auth_line(m: Mechanism, r: Option<Seq<char>>)
    ensures one_line(auth_text(m, r)), // [C02] no credential can break the line
{
    reveal_strlit("AUTH "); reveal_strlit(" "); reveal_strlit("PLAIN"); reveal_strlit("LOGIN"); reveal_strlit("XOAUTH2");
    lem_clean_b64(r);
    let a = "AUTH "@ + mech_name(m);
    lem_clean_cat("AUTH "@, mech_name(m));
    lem_clean_cat(a, " "@);
    lem_clean_cat(a + " "@, b64_text(r));
    lem_line(a + " "@ + b64_text(r));
    lem_line(b64_text(r));
    lem_line(a);
}
pub proof fn lem_ehlo_line(c: ClientId)
    ensures clean(client_text(c)) ==> one_line("EHLO "@ + client_text(c) + "\r\n"@), // [C02]
{
    reveal_strlit("EHLO ");
    lem_clean_cat("EHLO "@, client_text(c));
    lem_line("EHLO "@ + client_text(c));
}
pub proof fn lem_arg_line(k: Seq<char>, a: Seq<char>)
    ensures clean(k) && clean(a) ==> one_line(k + a + "\r\n"@), // [C02]
{ lem_clean_cat(k, a); lem_line(k + a); }


pub open spec fn opt_string(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
pub open spec fn utf8_text(b: Seq<u8>) -> Option<Seq<char>> { if vstd::utf8::valid_utf8(b) { Some(vstd::utf8::decode_utf8(b)) } else { None } }
/// The decoded challenge of a 334 reply.
pub open spec fn challenge(r: Resp) -> Option<Seq<char>> {
    if code_text(r.code) == dec(334) {
        match first_word(r.lines) {
            None => None,
            Some(w) => match crate::shim::base64::b64_dec(utf8(w)) { None => None, Some(b) => utf8_text(b) },
        }
    } else { None }
}


// ================================================================= capabilities (C11, C16)

pub open spec fn mech_of(w: Seq<char>) -> Option<Mechanism> {
    if w == "PLAIN"@ { Some(Mechanism::Plain) } else if w == "LOGIN"@ { Some(Mechanism::Login) } else if w == "XOAUTH2"@ { Some(Mechanism::Xoauth2) } else { None }
}
pub open spec fn mech_cap(w: Seq<char>) -> Set<Extension> {
    match mech_of(w) { Some(m) => Set::empty().insert(Extension::Authentication(m)), None => Set::empty() }
}
pub open spec fn mech_caps(ws: Seq<Seq<char>>) -> Set<Extension>
    decreases ws.len()
{ if ws.len() == 0 { Set::empty() } else { mech_caps(ws.drop_last()).union(mech_cap(ws.last())) } }
/// what one line of the EHLO reply advertises
pub open spec fn line_caps(l: Seq<char>) -> Set<Extension> {
    let w = words(l);
    if w.len() == 0 { Set::empty() } else {
        let k = crate::shim::upper_seq(w[0]);
        if k == "PIPELINING"@ { Set::empty().insert(Extension::Pipelining) }
        else if k == "8BITMIME"@ { Set::empty().insert(Extension::EightBitMime) }
        else if k == "SMTPUTF8"@ { Set::empty().insert(Extension::SmtpUtfEight) }
        else if k == "STARTTLS"@ { Set::empty().insert(Extension::StartTls) }
        else if k == "AUTH"@ { mech_caps(w.skip(1)) }
        else { Set::empty() }
    }
}
/// the lines after the first
pub open spec fn caps(ls: Seq<Seq<char>>) -> Set<Extension>
    decreases ls.len()
{ if ls.len() <= 1 { Set::empty() } else { caps(ls.drop_last()).union(line_caps(ls.last())) } }
/// The same, said without recursion: which extension the line advertises.
pub open spec fn advertises(l: Seq<char>, e: Extension) -> bool {
    let w = words(l);
    w.len() > 0 && ({
        let k = crate::shim::upper_seq(w[0]);
        match e {
            Extension::Pipelining => k == "PIPELINING"@,
            Extension::EightBitMime => k == "8BITMIME"@,
            Extension::SmtpUtfEight => k == "SMTPUTF8"@,
            Extension::StartTls => k == "STARTTLS"@,
            Extension::Authentication(m) => k == "AUTH"@ && exists|j: int| 1 <= j < w.len() && #[trigger] w[j] == mech_name(m),
        }
    })
}
proof fn lem_mech_caps(ws: Seq<Seq<char>>, m: Mechanism)
    ensures mech_caps(ws).contains(Extension::Authentication(m)) == exists|j: int| 0 <= j < ws.len() && #[trigger] ws[j] == mech_name(m),
    decreases ws.len()
{
    reveal_strlit("PLAIN"); reveal_strlit("LOGIN"); reveal_strlit("XOAUTH2");
    if ws.len() > 0 {
        let q = ws.drop_last();
        lem_mech_caps(q, m);
        assert("PLAIN"@[0] != "LOGIN"@[0] && "PLAIN"@[0] != "XOAUTH2"@[0] && "LOGIN"@[0] != "XOAUTH2"@[0]);
        let a = exists|j: int| 0 <= j < ws.len() && #[trigger] ws[j] == mech_name(m);
        let b = exists|j: int| 0 <= j < q.len() && #[trigger] q[j] == mech_name(m);
        if b { let j = choose|j: int| 0 <= j < q.len() && #[trigger] q[j] == mech_name(m); assert(ws[j] == q[j]); }
        if a { let j = choose|j: int| 0 <= j < ws.len() && #[trigger] ws[j] == mech_name(m); if j < q.len() { assert(q[j] == ws[j]); } }
        if ws.last() == mech_name(m) { assert(ws[ws.len() - 1] == mech_name(m)); }
    }
}
proof fn lem_mech_only(ws: Seq<Seq<char>>, e: Extension)
    ensures mech_caps(ws).contains(e) ==> e is Authentication,
    decreases ws.len()
{ if ws.len() > 0 { lem_mech_only(ws.drop_last(), e); } }
proof fn lem_line_caps(l: Seq<char>, e: Extension)
    ensures line_caps(l).contains(e) == advertises(l, e), // [C11] what a line advertises
{
    reveal_strlit("PIPELINING"); reveal_strlit("8BITMIME"); reveal_strlit("SMTPUTF8"); reveal_strlit("STARTTLS"); reveal_strlit("AUTH");
    assert("PIPELINING"@[0] == 'P' && "8BITMIME"@[0] == '8' && "SMTPUTF8"@[1] == 'M' && "STARTTLS"@[1] == 'T' && "AUTH"@[0] == 'A' && "SMTPUTF8"@[0] == 'S' && "STARTTLS"@[0] == 'S');
    let w = words(l);
    if w.len() > 0 {
        let t = w.skip(1);
        lem_mech_only(t, e);
        if let Extension::Authentication(m) = e {
            lem_mech_caps(t, m);
            if exists|j: int| 0 <= j < t.len() && #[trigger] t[j] == mech_name(m) {
                let j = choose|j: int| 0 <= j < t.len() && #[trigger] t[j] == mech_name(m);
                assert(w[j + 1] == mech_name(m));
            }
            if exists|j: int| 1 <= j < w.len() && #[trigger] w[j] == mech_name(m) {
                let j = choose|j: int| 1 <= j < w.len() && #[trigger] w[j] == mech_name(m);
                assert(t[j - 1] == mech_name(m));
            }
        }
    }
}
pub proof fn lem_caps(ls: Seq<Seq<char>>, e: Extension)
    ensures caps(ls).contains(e) == exists|k: int| 1 <= k < ls.len() && advertises(#[trigger] ls[k], e), // [C11] exactly what the reply advertises
    decreases ls.len()
{
    if ls.len() > 1 {
        let q = ls.drop_last();
        lem_caps(q, e);
        lem_line_caps(ls.last(), e);
        if exists|k: int| 1 <= k < q.len() && advertises(#[trigger] q[k], e) {
            let k = choose|k: int| 1 <= k < q.len() && advertises(#[trigger] q[k], e); assert(advertises(ls[k], e));
        }
        if exists|k: int| 1 <= k < ls.len() && advertises(#[trigger] ls[k], e) {
            let k = choose|k: int| 1 <= k < ls.len() && advertises(#[trigger] ls[k], e);
            if k < q.len() { assert(q[k] == ls[k]); } else { assert(ls[k] == ls.last()); }
        }
        if advertises(ls.last(), e) { assert(advertises(ls[ls.len() - 1], e)); }
    }
}
pub proof fn lem_caps_step(ls: Seq<Seq<char>>, k: int)
    ensures
        1 <= k < ls.len() ==> caps(ls.take(k + 1)) == caps(ls.take(k)).union(line_caps(ls[k])),
        ls.len() >= 1 ==> caps(ls.take(1)) == Set::<Extension>::empty(),
        ls.take(ls.len() as int) == ls,
{
    assert(ls.take(ls.len() as int) =~= ls);
    if 1 <= k < ls.len() { assert(ls.take(k + 1).drop_last() =~= ls.take(k)); assert(ls.take(k + 1).last() == ls[k]); }
}
pub proof fn lem_mech_step(ws: Seq<Seq<char>>, k: int)
    ensures
        0 <= k < ws.len() ==> mech_caps(ws.take(k + 1)) == mech_caps(ws.take(k)).union(mech_cap(ws[k])),
        mech_caps(ws.take(0)) == Set::<Extension>::empty(),
        ws.take(ws.len() as int) == ws,
{
    assert(ws.take(ws.len() as int) =~= ws);
    if 0 <= k < ws.len() { assert(ws.take(k + 1).drop_last() =~= ws.take(k)); assert(ws.take(k + 1).last() == ws[k]); }
}
pub proof fn lem_no_words(l: Seq<char>)
    ensures l.len() == 0 ==> words(l).len() == 0,
{ if l.len() == 0 { } }


// ================================================================= a reply and what follows it (C04, C05)

proof fn lem_find_ext(a: Seq<char>, b: Seq<char>, t: Seq<char>, k: int)
    ensures 0 <= k && find_sub(a, t, k) >= 0 ==> find_sub(a + b, t, k) == find_sub(a, t, k),
    decreases a.len() + 1 - k
{
    if 0 <= k && k + t.len() <= a.len() {
        assert((a + b).subrange(k, k + t.len()) =~= a.subrange(k, k + t.len()));
        if a.subrange(k, k + t.len()) != t { lem_find_ext(a, b, t, k + 1); }
    }
}
pub open spec fn ext<T>(x: Pr<T>, y: Pr<T>) -> bool { x is More || x == y }
proof fn lem_code_ext(a: Seq<char>, b: Seq<char>)
    ensures ext(p_code(a), p_code(a + b)), p_code(a) is Got ==> a.len() >= 3,
{
    let s = a + b;
    if a.len() >= 1 { assert(s[0] == a[0]); assert(s.skip(1) =~= a.skip(1) + b); }
    if a.len() >= 2 { assert(a.skip(1)[0] == a[1]); assert(s.skip(1)[0] == a[1]); assert(s.skip(1).skip(1) =~= a.skip(1).skip(1) + b); }
    if a.len() >= 3 { assert(a.skip(1).skip(1)[0] == a[2]); assert(s.skip(1).skip(1)[0] == a[2]); }
}
proof fn lem_line_ext(a: Seq<char>, b: Seq<char>)
    ensures
        ext(p_cont(a), p_cont(a + b)), ext(p_last(a), p_last(a + b)),
        p_cont(a) matches Pr::Got(l, n) ==> 5 <= n <= a.len() && a[n - 1] == '\n',
        p_last(a) matches Pr::Got(l, n) ==> 5 <= n <= a.len() && a[n - 1] == '\n',
{
    let s = a + b;
    lem_code_ext(a, b);
    lem_text(a);
    if a.len() >= 4 {
        assert(s[3] == a[3]);
        assert(s.skip(4) =~= a.skip(4) + b);
        lem_find_ext(a.skip(4), b, crlf(), 0);
        lem_find_sub(a.skip(4), crlf(), 0);
        let k = find_sub(a.skip(4), crlf(), 0);
        if k >= 0 { assert(s.skip(4).take(k) =~= a.skip(4).take(k)); }
        if a.len() >= 5 { assert(s[4] == a[4]); }
    }
}
proof fn lem_lines_ext(a: Seq<char>, b: Seq<char>, acc: Seq<(Code, Seq<char>)>)
    ensures
        ext(p_lines(a, acc), p_lines(a + b, acc)),
        p_lines(a, acc) matches Pr::Got(l, n) ==> 5 <= n <= a.len() && a[n - 1] == '\n',
    decreases a.len()
{
    lem_line_ext(a, b);
    match p_cont(a) {
        Pr::Got(l, n) => {
            lem_lines_ext(a.skip(n), b, acc.push(l));
            assert((a + b).skip(n) =~= a.skip(n) + b);
            if let Pr::Got(r, m) = p_lines(a.skip(n), acc.push(l)) { assert(a.skip(n)[m - 1] == a[n + m - 1]); }
        }
        _ => {}
    }
}
/// What follows a reply, or a text that cannot become one, does not matter.
pub proof fn lem_resp_ext(a: Seq<char>, b: Seq<char>)
    ensures
        ext(p_resp(a), p_resp(a + b)), // [C04] [C05]
        p_resp(a) matches Pr::Got(r, n) ==> 5 <= n <= a.len() && a[n - 1] == '\n', // [C05] a reply ends with a line end
{ lem_lines_ext(a, b, Seq::empty()); }
pub proof fn lem_resp_prefix(s: Seq<char>, k: int)
    ensures p_resp(s) matches Pr::Got(r, n) ==> (0 <= k < n ==> p_resp(s.take(k)) is More) && (n <= k <= s.len() ==> p_resp(s.take(k)) == p_resp(s)), // [C04] every strict prefix of a reply is incomplete
{
    if p_resp(s) is Got {
        let n = p_resp(s)->Got_1;
        lem_resp_ext(s, Seq::empty());
        if 0 <= k <= s.len() {
            assert(s =~= s.take(k) + s.skip(k));
            lem_resp_ext(s.take(k), s.skip(k));
            if n <= k { lem_lines_cut(s, k, Seq::empty()); }
        }
    }
}
proof fn lem_find_cut(s: Seq<char>, m: int, t: Seq<char>, k: int)
    ensures 0 <= k && 0 <= find_sub(s, t, k) && find_sub(s, t, k) + t.len() <= m <= s.len() ==> find_sub(s.take(m), t, k) == find_sub(s, t, k),
    decreases s.len() + 1 - k
{
    if 0 <= k && 0 <= find_sub(s, t, k) && find_sub(s, t, k) + t.len() <= m <= s.len() {
        lem_find_sub(s, t, k);
        assert(s.take(m).subrange(k, k + t.len()) =~= s.subrange(k, k + t.len()));
        if s.subrange(k, k + t.len()) != t { lem_find_cut(s, m, t, k + 1); }
    }
}
/// nothing after the reply is needed
proof fn lem_lines_cut(s: Seq<char>, k: int, acc: Seq<(Code, Seq<char>)>)
    ensures p_lines(s, acc) matches Pr::Got(l, n) ==> (n <= k <= s.len() ==> p_lines(s.take(k), acc) == p_lines(s, acc)),
    decreases s.len()
{
    if let Pr::Got(v, n) = p_lines(s, acc) {
        lem_lines_ext(s, Seq::empty(), acc);
        if n <= k <= s.len() {
            let t = s.take(k);
            assert(s =~= t + s.skip(k));
            lem_line_ext(t, s.skip(k));
            lem_line_ext(s, Seq::empty());
            lem_text(s);
            lem_code_ext(t, s.skip(k));
            assert(t.len() >= 5);
            assert(t[0] == s[0] && t.skip(1)[0] == s.skip(1)[0] && t.skip(1).skip(1)[0] == s.skip(1).skip(1)[0]);
            assert(p_code(t) == p_code(s));
            assert(t[3] == s[3] && t[4] == s[4]);
            assert(t.skip(4) =~= s.skip(4).take(k - 4));
            lem_find_cut(s.skip(4), k - 4, crlf(), 0);
            match p_cont(s) {
                Pr::Got(l, m) => {
                    lem_lines_cut(s.skip(m), k - m, acc.push(l));
                    lem_lines_ext(s.skip(m), Seq::empty(), acc.push(l));
                    assert(p_cont(t) == p_cont(s)) by { assert(t.skip(4).take(m - 6) =~= s.skip(4).take(m - 6)); }
                    assert(t.skip(m) =~= s.skip(m).take(k - m));
                }
                Pr::No => {
                    assert(p_cont(t) is No);
                    match p_last(s) { Pr::Got(l, m) => { assert(s[3] == ' ' ==> t.skip(4).take(m - 6) =~= s.skip(4).take(m - 6)); assert(p_last(t) == p_last(s)); } _ => {} }
                }
                _ => {}
            }
        }
    }
}

/// What the client has read last.
pub ghost enum Rep { Nothing, Pos(Resp), Neg(Resp), Bad, Eof }
pub open spec fn rep_of(r: Resp) -> Rep { if positive(r.code) { Rep::Pos(r) } else { Rep::Neg(r) } }
/// Waiting for a reply when buf has been read and inp is still to come: how many characters
/// are read, and the outcome.
pub closed spec fn rr(buf: Seq<char>, inp: Seq<char>) -> (int, Rep)
    decreases inp.len()
{
    if inp.len() == 0 { (0, Rep::Eof) } else {
        let l = line_len(inp);
        let b = buf + inp.take(l);
        match p_resp(b) {
            Pr::Got(r, _) => (l, rep_of(r)),
            Pr::No => (l, Rep::Bad),
            Pr::More => if 0 < l <= inp.len() { let x = rr(b, inp.skip(l)); (l + x.0, x.1) } else { (0, Rep::Eof) },
        }
    }
}
pub open spec fn wait(inp: Seq<char>) -> (int, Rep) { rr(Seq::empty(), inp) }
pub proof fn lem_line_end(s: Seq<char>, k: int)
    ensures
        0 <= k < s.len() ==> k < line_end(s, k) <= s.len(),
        0 <= k <= s.len() ==> k <= line_end(s, k) <= s.len(),
        0 <= k <= s.len() ==> forall|j: int| k <= j < s.len() && s[j] == '\n' ==> line_end(s, k) <= #[trigger] (j + 1),
    decreases s.len() - k
{ if 0 <= k < s.len() && s[k] != '\n' { lem_line_end(s, k + 1); } }
proof fn lem_rr_cut(s: Seq<char>, m: int, l: int)
    requires 0 <= m < s.len(), p_resp(s.take(m)) is More, l == line_len(s.skip(m)),
    ensures
        0 < l <= s.len() - m,
        s.take(m) + s.skip(m).take(l) == s.take(m + l),
        s.skip(m).skip(l) == s.skip(m + l),
        p_resp(s.take(m + l)) matches Pr::Got(r, n) ==> p_resp(s) == p_resp(s.take(m + l)) && n == m + l,
        p_resp(s.take(m + l)) is No ==> p_resp(s) is No,
{
    let inp = s.skip(m);
    lem_line_end(inp, 0);
    let b = s.take(m + l);
    assert(s.take(m) + inp.take(l) =~= b);
    assert(inp.skip(l) =~= s.skip(m + l));
    assert(s =~= b + s.skip(m + l));
    lem_resp_ext(b, s.skip(m + l));
    if let Pr::Got(r, n) = p_resp(b) {
        assert(b =~= s.take(m + l));
        lem_resp_ext(s, Seq::empty());
        lem_resp_prefix(s, m);
        assert(m < n);
        assert(inp[n - 1 - m] == s[n - 1]);
        assert(l <= (n - 1 - m) + 1);
        lem_resp_ext(b, Seq::empty());
        assert(b + Seq::<char>::empty() =~= b);
    }
}
proof fn lem_rr(s: Seq<char>, m: int)
    requires 0 <= m <= s.len(), p_resp(s.take(m)) is More,
    ensures
        p_resp(s) matches Pr::Got(r, n) ==> rr(s.take(m), s.skip(m)) == (n - m, rep_of(r)),
        p_resp(s) is More ==> rr(s.take(m), s.skip(m)) == (s.len() - m, Rep::Eof),
        p_resp(s) is No ==> rr(s.take(m), s.skip(m)).1 == Rep::Bad,
    decreases s.len() - m
{
    if m < s.len() {
        let l = line_len(s.skip(m));
        lem_rr_cut(s, m, l);
        if p_resp(s.take(m + l)) is More { lem_rr(s, m + l); }
    } else {
        assert(s.take(m) =~= s);
    }
}
/// Waiting consumes exactly the text of one reply, whatever follows it, and classifies it by its code.
pub proof fn lem_wait(inp: Seq<char>)
    ensures
        p_resp(inp) matches Pr::Got(r, n) ==> wait(inp) == (n, rep_of(r)), // [C05] exactly one reply
        p_resp(inp) is More ==> wait(inp) == (inp.len() as int, Rep::Eof), // [C05] the stream ends before the reply is complete
        p_resp(inp) is No ==> wait(inp).1 == Rep::Bad, // [C05] malformed
{
    assert(p_resp(inp.take(0)) is More) by {
        assert(p_cont(inp.take(0)) is More);
        assert(p_lines(inp.take(0), Seq::empty()) is More);
    }
    assert(inp.take(0) =~= Seq::<char>::empty());
    assert(inp.skip(0) =~= inp);
    lem_rr(inp, 0);
}
/// the state of the loop that reads lines until they are a reply
pub closed spec fn reading(inp0: Seq<char>, m: int, buf: Seq<char>, inp: Seq<char>) -> bool {
    &&& 0 <= m <= inp0.len()
    &&& inp == inp0.skip(m)
    &&& wait(inp0) == (m + rr(buf, inp).0, rr(buf, inp).1)
}
pub proof fn lem_reading_init(inp0: Seq<char>)
    ensures reading(inp0, 0, Seq::empty(), inp0), rcv(inp0.take(0)) == Seq::<Ev>::empty(),
{ assert(inp0.skip(0) =~= inp0); assert(rcv(inp0.take(0)) =~= Seq::<Ev>::empty()); }
pub proof fn lem_reading_step(inp0: Seq<char>, m: int, buf: Seq<char>, inp: Seq<char>)
    ensures
        reading(inp0, m, buf, inp) ==> ({
            let l = line_len(inp);
            let b = buf + inp.take(l);
            &&& 0 <= l <= inp.len()
            &&& inp.len() == inp0.len() - m
            &&& inp.skip(l) == inp0.skip(m + l)
            &&& rcv(inp0.take(m + l)) == rcv(inp0.take(m)) + rcv(inp.take(l))
            &&& (inp.len() > 0 ==> blen(inp.take(l)) > 0)
            &&& (inp.len() == 0 ==> l == 0 && blen(inp.take(l)) == 0 && wait(inp0) == (m, Rep::Eof))
            &&& (inp.len() > 0 ==> match p_resp(b) {
                    Pr::Got(r, _) => wait(inp0) == (m + l, rep_of(r)),
                    Pr::No => wait(inp0) == (m + l, Rep::Bad),
                    Pr::More => reading(inp0, m + l, b, inp.skip(l)),
                })
            &&& 0 <= wait(inp0).0 <= inp0.len()
            &&& forall|k: int| 0 <= k <= l ==> m + k <= wait(inp0).0 && rcv(inp0.take(m)) + #[trigger] rcv(inp.take(k)) == rcv(inp0.take(m + k))
        }),
{
    if reading(inp0, m, buf, inp) {
        let l = line_len(inp);
        lem_line_end(inp, 0);
        lem_rr_bound(buf, inp);
        assert(inp.skip(l) =~= inp0.skip(m + l));
        assert forall|k: int| 0 <= k <= l implies rcv(inp0.take(m)) + #[trigger] rcv(inp.take(k)) == rcv(inp0.take(m + k)) by {
            assert(rcv(inp0.take(m)) + rcv(inp.take(k)) =~= rcv(inp0.take(m + k)));
        }
        assert(rcv(inp0.take(m)) + rcv(inp.take(l)) == rcv(inp0.take(m + l)));
        if inp.len() > 0 { utf8_len(inp.take(l)); } else { assert(inp.take(l) =~= Seq::<char>::empty()); }
        lem_rr_bound(buf + inp.take(l), inp.skip(l));
    }
}
proof fn lem_rr_bound(buf: Seq<char>, inp: Seq<char>)
    ensures 0 <= rr(buf, inp).0 <= inp.len(), inp.len() > 0 ==> rr(buf, inp).0 >= line_len(inp), rr(buf, inp).1 != Rep::Nothing,
    decreases inp.len()
{
    lem_line_end(inp, 0);
    if inp.len() > 0 { lem_rr_bound(buf + inp.take(line_len(inp)), inp.skip(line_len(inp))); }
}

// ================================================================= conversations (C05-C10, C13, C16-C18)

/// What a call does on the stream is described by a plan: what to send, and when to wait for a reply.
pub ghost enum Step { Send(Seq<u8>), Wait }
/// The effect of a plan: what is sent and received, what is left to read, the last reply, and how
/// many things were sent and replies read.
pub ghost struct Run { pub log: Seq<Ev>, pub inp: Seq<char>, pub last: Rep, pub sent: int, pub got: int }
/// After such an outcome nothing more is done.
pub open spec fn stops(r: Rep) -> bool { r is Neg || r is Bad || r is Eof }
pub open spec fn step(r: Run, s: Step) -> Run {
    if stops(r.last) { r } else {
        match s {
            Step::Send(b) => Run { log: r.log + snd(b), inp: r.inp, last: r.last, sent: r.sent + 1, got: r.got },
            Step::Wait => {
                let w = wait(r.inp);
                Run { log: r.log + rcv(r.inp.take(w.0)), inp: r.inp.skip(w.0), last: w.1, sent: r.sent, got: r.got + 1 }
            },
        }
    }
}
pub closed spec fn run(p: Seq<Step>, inp: Seq<char>) -> Run
    decreases p.len()
{ if p.len() == 0 { Run { log: Seq::empty(), inp: inp, last: Rep::Nothing, sent: 0, got: 0 } } else { step(run(p.drop_last(), inp), p.last()) } }

pub proof fn lem_run_one(b: Seq<u8>, inp: Seq<char>)
    ensures
        run(Seq::empty(), inp) == (Run { log: Seq::empty(), inp: inp, last: Rep::Nothing, sent: 0, got: 0 }),
        run(seq![Step::Send(b)], inp) == (Run { log: snd(b), inp: inp, last: Rep::Nothing, sent: 1, got: 0 }),
        run(seq![Step::Wait], inp) == (Run { log: rcv(inp.take(wait(inp).0)), inp: inp.skip(wait(inp).0), last: wait(inp).1, sent: 0, got: 1 }),
        !(wait(inp).1 is Nothing),
        0 <= wait(inp).0 <= inp.len(),
{
    lem_rr_bound(Seq::empty(), inp);
    assert(seq![Step::Send(b)].drop_last() =~= Seq::<Step>::empty());
    assert(seq![Step::Wait].drop_last() =~= Seq::<Step>::empty());
    assert(Seq::<Ev>::empty() + snd(b) =~= snd(b));
    assert(Seq::<Ev>::empty() + rcv(inp.take(wait(inp).0)) =~= rcv(inp.take(wait(inp).0)));
}
/// a plan in two parts
spec fn join(x: Run, y: Run) -> Run {
    Run { log: x.log + y.log, inp: y.inp, last: if y.last is Nothing { x.last } else { y.last }, sent: x.sent + y.sent, got: x.got + y.got }
}
proof fn lem_step_join(x: Run, y: Run, s: Step)
    ensures !stops(x.last) ==> step(join(x, y), s) == join(x, step(y, s)),
{
    lem_run_one(Seq::empty(), y.inp);
    match s {
        Step::Send(b) => { assert((x.log + y.log) + snd(b) =~= x.log + (y.log + snd(b))); },
        Step::Wait => { let z = rcv(y.inp.take(wait(y.inp).0)); assert((x.log + y.log) + z =~= x.log + (y.log + z)); },
    }
}
proof fn lem_run_cat(a: Seq<Step>, q: Seq<Step>, inp: Seq<char>)
    ensures
        stops(run(a, inp).last) ==> run(a + q, inp) == run(a, inp),
        !stops(run(a, inp).last) ==> run(a + q, inp) == join(run(a, inp), run(q, run(a, inp).inp)),
    decreases q.len()
{
    let x = run(a, inp);
    if q.len() == 0 {
        assert(a + q =~= a);
        assert(x.log + Seq::<Ev>::empty() =~= x.log);
    } else {
        lem_run_cat(a, q.drop_last(), inp);
        assert((a + q).drop_last() =~= a + q.drop_last());
        assert((a + q).last() == q.last());
        lem_step_join(x, run(q.drop_last(), x.inp), q.last());
    }
}
/// what a longer plan sends and receives starts with what the shorter does
proof fn lem_run_log(a: Seq<Step>, q: Seq<Step>, inp: Seq<char>)
    ensures run(a, inp).log.len() <= run(a + q, inp).log.len(), run(a + q, inp).log.take(run(a, inp).log.len() as int) =~= run(a, inp).log,
{
    lem_run_cat(a, q, inp);
    let x = run(a, inp);
    if !stops(x.last) { assert((x.log + run(q, x.inp).log).take(x.log.len() as int) =~= x.log); }
    else { assert(x.log.take(x.log.len() as int) =~= x.log); }
}

/// The plan p was carried out between the states o and n of the stream.
pub open spec fn moved(o: Wire, n: Wire, p: Seq<Step>) -> bool { carried(o, n, p) && n.broken() == o.broken() }
pub closed spec fn carried(o: Wire, n: Wire, p: Seq<Step>) -> bool {
    let r = run(p, o.inp());
    n.log() == o.log() + r.log && n.inp() == r.inp
}
/// The stream failed while the plan was carried out.
pub closed spec fn lost(o: Wire, n: Wire, p: Seq<Step>) -> bool {
    n.broken() && cut(o.log(), n.log(), run(p, o.inp()).log)
}
/// If the stream broke on the way, the events up to there are a prefix of those of the plan. An operation on the stream that
/// is given up between two polls leaves what one that fails there leaves: these are the events of a call that is cancelled.
pub open spec fn broke(o: Wire, n: Wire, p: Seq<Step>) -> bool { n.broken() != o.broken() ==> lost(o, n, p) }
/// the last reply read
pub closed spec fn last(o: Wire, p: Seq<Step>) -> Rep { run(p, o.inp()).last }
/// The error reports this outcome.
pub open spec fn err_is(e: Error, r: Rep) -> bool {
    match r {
        Rep::Neg(x) => match e {
            Error::Transient(y) => says(y, x) && x.code.severity is TransientNegativeCompletion,
            Error::Permanent(y) => says(y, x) && x.code.severity is PermanentNegativeCompletion,
            _ => false,
        },
        Rep::Bad => e is Parsing,
        Rep::Eof => e is Io,
        _ => false,
    }
}
/// The plan was carried out up to a negative reply or the like, which e reports.
pub open spec fn refused(o: Wire, n: Wire, p: Seq<Step>, e: Error) -> bool {
    moved(o, n, p) && stops(last(o, p)) && err_is(e, last(o, p))
}
/// The plan was carried out to its end, with positive replies only; r is the last one.
pub open spec fn granted(o: Wire, n: Wire, p: Seq<Step>, r: Response) -> bool {
    moved(o, n, p) && last(o, p) is Pos && says(r, last(o, p)->Pos_0)
}
/// The first k steps were carried out, and the next one is due.
pub closed spec fn at(o: Wire, n: Wire, p: Seq<Step>, k: int) -> bool {
    0 <= k <= p.len() && moved(o, n, p.take(k)) && !stops(last(o, p.take(k)))
}
pub open spec fn sent(b: Seq<u8>) -> Seq<Step> { seq![Step::Send(b)] }
pub open spec fn waited() -> Seq<Step> { seq![Step::Wait] }
pub open spec fn told(b: Seq<u8>) -> Seq<Step> { seq![Step::Send(b), Step::Wait] }

pub proof fn lem_at(o: Wire, p: Seq<Step>)
    ensures at(o, o, p, 0), moved(o, o, Seq::empty()),
{
    assert(p.take(0) =~= Seq::<Step>::empty());
    lem_run_one(Seq::empty(), o.inp());
    assert(o.log() + Seq::<Ev>::empty() =~= o.log());
}
pub proof fn lem_end(o: Wire, n: Wire, p: Seq<Step>)
    ensures at(o, n, p, p.len() as int) ==> moved(o, n, p) && !stops(last(o, p)), p.take(p.len() as int) == p,
{ assert(p.take(p.len() as int) =~= p); }
/// The part q of the plan p has been tried at position k, from m to n.
pub proof fn lem_part(o: Wire, m: Wire, n: Wire, p: Seq<Step>, k: int, q: Seq<Step>)
    ensures
        at(o, m, p, k) && k + q.len() <= p.len() && p.subrange(k, k + q.len()) == q ==> {
            &&& (moved(m, n, q) && !stops(last(m, q)) ==> at(o, n, p, k + q.len())
                    && last(o, p.take(k + q.len())) == (if last(m, q) is Nothing { last(o, p.take(k)) } else { last(m, q) }))
            &&& (moved(m, n, q) && stops(last(m, q)) ==> moved(o, n, p) && last(o, p) == last(m, q))
            &&& (lost(m, n, q) ==> lost(o, n, p))
        },
{
    hide(run); hide(cut);
    if at(o, m, p, k) && k + q.len() <= p.len() && p.subrange(k, k + q.len()) == q {
        let a = p.take(k);
        let z = p.skip(k + q.len());
        assert(p.take(k + q.len()) =~= a + q);
        assert(p =~= a + q + z);
        if moved(m, n, q) {
            lem_part_moved(o, m, n, a, q, z);
        }
        if lost(m, n, q) { lem_part_lost(o, m, n, a, q, z); }
    }
}
proof fn lem_part_moved(o: Wire, m: Wire, n: Wire, a: Seq<Step>, q: Seq<Step>, z: Seq<Step>)
    requires moved(o, m, a), !stops(last(o, a)), moved(m, n, q),
    ensures
        !stops(last(m, q)) ==> moved(o, n, a + q) && !stops(last(o, a + q)) && last(o, a + q) == (if last(m, q) is Nothing { last(o, a) } else { last(m, q) }),
        stops(last(m, q)) ==> moved(o, n, a + q + z) && last(o, a + q + z) == last(m, q),
{
    hide(run);
    lem_run_cat(a, q, o.inp());
    lem_run_cat(a + q, z, o.inp());
    let x = run(a, o.inp());
    let y = run(q, m.inp());
    assert(o.log() + x.log + y.log =~= o.log() + (x.log + y.log));
}
proof fn lem_part_lost(o: Wire, m: Wire, n: Wire, a: Seq<Step>, q: Seq<Step>, z: Seq<Step>)
    requires moved(o, m, a), !stops(last(o, a)), lost(m, n, q),
    ensures lost(o, n, a + q + z),
{
    hide(run);
    let x = run(a, o.inp());
    let y = run(q, m.inp());
    lem_run_cat(a, q, o.inp());
    lem_run_log(a + q, z, o.inp());
    let j = choose|j: int| 0 <= j <= y.log.len() && n.log() == m.log() + #[trigger] y.log.take(j);
    let full = run(a + q + z, o.inp()).log;
    assert(run(a + q, o.inp()).log == x.log + y.log);
    assert(full.take(x.log.len() + j) =~= full.take((x.log + y.log).len() as int).take(x.log.len() + j));
    assert(full.take(x.log.len() + j) =~= x.log + y.log.take(j));
    assert(o.log() + full.take(x.log.len() + j) =~= m.log() + y.log.take(j));
}
pub proof fn lem_sent(o: Wire, b: Seq<u8>)
    ensures last(o, sent(b)) is Nothing,
{ lem_run_one(b, o.inp()); }
/// a failed stream in terms of the events
pub proof fn lem_lost(o: Wire, n: Wire, p: Seq<Step>, b: Seq<u8>)
    ensures
        n.broken() && cut(o.log(), n.log(), snd(b)) ==> lost(o, n, sent(b)),
        n.broken() && (exists|k: int| 0 <= k <= b.len() && n.log() == o.log() + #[trigger] snd(b.take(k))) ==> lost(o, n, sent(b)),
        n.broken() && n.log() == o.log() + snd(b) ==> lost(o, n, sent(b)),
        n.broken() == o.broken() && n.log() == o.log() + snd(b) && n.inp() == o.inp() ==> moved(o, n, sent(b)) && last(o, sent(b)) is Nothing,
{
    lem_run_one(b, o.inp());
    if n.broken() && (exists|k: int| 0 <= k <= b.len() && n.log() == o.log() + #[trigger] snd(b.take(k))) {
        let k = choose|k: int| 0 <= k <= b.len() && n.log() == o.log() + #[trigger] snd(b.take(k));
        assert(snd(b.take(k)) =~= snd(b).take(k));
    }
    assert(snd(b).take(b.len() as int) =~= snd(b));
}
/// waiting in terms of the events: the first m characters have been read and the outcome is known,
/// or the stream failed after k of them
pub proof fn lem_waited(o: Wire, n: Wire)
    ensures
        n.inp() == o.inp().skip(wait(o.inp()).0) && n.log() == o.log() + rcv(o.inp().take(wait(o.inp()).0)) && n.broken() == o.broken()
            ==> moved(o, n, waited()),
        n.broken() && (exists|k: int| 0 <= k <= wait(o.inp()).0 && n.log() == o.log() + #[trigger] rcv(o.inp().take(k))) ==> lost(o, n, waited()),
        last(o, waited()) == wait(o.inp()).1,
{
    lem_run_one(Seq::empty(), o.inp());
    if exists|k: int| 0 <= k <= wait(o.inp()).0 && n.log() == o.log() + #[trigger] rcv(o.inp().take(k)) {
        let k = choose|k: int| 0 <= k <= wait(o.inp()).0 && n.log() == o.log() + #[trigger] rcv(o.inp().take(k));
        assert(rcv(o.inp().take(k)) =~= rcv(o.inp().take(wait(o.inp()).0)).take(k));
    }
}
pub proof fn lem_tell(o: Wire, m: Wire, n: Wire, b: Seq<u8>)
    ensures
        lost(o, m, sent(b)) ==> lost(o, m, told(b)),
        moved(o, m, sent(b)) && lost(m, n, waited()) ==> lost(o, n, told(b)),
        moved(o, m, sent(b)) && moved(m, n, waited()) ==> moved(o, n, told(b)) && last(o, told(b)) == last(m, waited()),
{
    let p = told(b);
    lem_at(o, p);
    assert(p.subrange(0, 1) =~= sent(b));
    assert(p.subrange(1, 2) =~= waited());
    assert(p.take(2) =~= p);
    lem_run_one(b, o.inp());
    lem_part(o, o, m, p, 0, sent(b));
    lem_part(o, m, n, p, 1, waited());
    lem_run_one(b, m.inp());
}
/// the stream fails while a line is read
pub proof fn lem_read_cut(o: Wire, m: Wire, n: Wire, k0: int, buf: Seq<char>)
    ensures
        reading(o.inp(), k0, buf, m.inp()) && m.log() == o.log() + rcv(o.inp().take(k0)) && n.broken()
            && (exists|k: int| 0 <= k <= line_len(m.inp()) && n.log() == m.log() + #[trigger] rcv(m.inp().take(k))) ==> lost(o, n, waited()),
        reading(o.inp(), k0, buf, m.inp()) && m.log() == o.log() + rcv(o.inp().take(k0)) && n.log() == m.log() + rcv(m.inp().take(line_len(m.inp())))
            ==> n.log() == o.log() + rcv(o.inp().take(k0 + line_len(m.inp()))),
{
    if reading(o.inp(), k0, buf, m.inp()) && m.log() == o.log() + rcv(o.inp().take(k0)) && n.log() == m.log() + rcv(m.inp().take(line_len(m.inp()))) {
        lem_reading_step(o.inp(), k0, buf, m.inp());
        assert(n.log() =~= o.log() + rcv(o.inp().take(k0 + line_len(m.inp()))));
    }
    if reading(o.inp(), k0, buf, m.inp()) && m.log() == o.log() + rcv(o.inp().take(k0)) && n.broken()
            && (exists|k: int| 0 <= k <= line_len(m.inp()) && n.log() == m.log() + #[trigger] rcv(m.inp().take(k))) {
        let k = choose|k: int| 0 <= k <= line_len(m.inp()) && n.log() == m.log() + #[trigger] rcv(m.inp().take(k));
        lem_reading_step(o.inp(), k0, buf, m.inp());
        assert(rcv(o.inp().take(k0)) + rcv(m.inp().take(k)) == rcv(o.inp().take(k0 + k)));
        assert(n.log() =~= o.log() + rcv(o.inp().take(k0 + k)));
        lem_waited(o, n);
    }
}
/// the content is sent in pieces: d bytes of it are out, and p is next
pub proof fn lem_piece(o: Wire, m: Wire, n: Wire, full: Seq<u8>, d: int, p: Seq<u8>)
    ensures
        0 <= d && d + p.len() <= full.len() && full.subrange(d, d + p.len()) == p && m.log() == o.log() + snd(full.take(d)) ==> {
            &&& (n.log() == m.log() + snd(p) ==> n.log() == o.log() + snd(full.take(d + p.len())))
            &&& (n.broken() && cut(m.log(), n.log(), snd(p)) ==> lost(o, n, sent(full)) && lost(o, n, told(full)))
        },
{
    if 0 <= d && d + p.len() <= full.len() && full.subrange(d, d + p.len()) == p && m.log() == o.log() + snd(full.take(d)) {
        assert(full.take(d + p.len()) =~= full.take(d) + p);
        lem_snd_cat(full.take(d), p);
        if n.log() == m.log() + snd(p) { assert(n.log() =~= o.log() + snd(full.take(d + p.len()))); }
        if n.broken() && cut(m.log(), n.log(), snd(p)) {
            let k = choose|k: int| 0 <= k <= snd(p).len() && n.log() == m.log() + #[trigger] snd(p).take(k);
            assert(n.log() =~= o.log() + snd(full.take(d + k)));
            lem_lost(o, n, Seq::empty(), full);
            lem_tell(o, n, n, full);
        }
    }
}
/// the two pieces of the content
pub proof fn lem_pieces(o: Wire, w: Seq<u8>)
    ensures
        w.len() > 0 ==> wire(w).subrange(0, stuff(2, w).len() as int) == stuff(2, w),
        wire(w).len() == stuff(2, w).len() + term(cst(2, w)).len(),
        wire(w).subrange(stuff(2, w).len() as int, wire(w).len() as int) == term(cst(2, w)),
        wire(w).take(wire(w).len() as int) == wire(w),
        w.len() == 0 ==> cst(2, w) == 2 && stuff(2, w).len() == 0,
        o.log() == o.log() + snd(wire(w).take(0)),
{
    assert(wire(w).subrange(0, stuff(2, w).len() as int) =~= stuff(2, w));
    assert(wire(w).subrange(stuff(2, w).len() as int, wire(w).len() as int) =~= term(cst(2, w)));
    assert(wire(w).take(wire(w).len() as int) =~= wire(w));
    assert(o.log() =~= o.log() + snd(wire(w).take(0)));
}

// ----------------------------------------------------------------- the plan of each call

/// what is sent for the message, None if it cannot be read
pub open spec fn content(m: crate::types::Message) -> Option<Seq<u8>> {
    if crate::shim::Source::fails(&m) { None } else { Some(wire(crate::shim::Source::data(&m))) }
}
/// the parameters of MAIL
pub open spec fn mail_params(f: Set<Extension>, utf8: bool) -> Seq<MailParameter> {
    (if f.contains(Extension::EightBitMime) { seq![MailParameter::Body(MailBodyParameter::EightBitMime)] } else { Seq::empty() })
        + (if f.contains(Extension::SmtpUtfEight) && utf8 { seq![MailParameter::SmtpUtfEight] } else { Seq::empty() })
}
/// the commands of a transaction, in order
pub closed spec fn cmds(mail: Seq<char>, rcpts: Seq<EmailAddress>, k: int) -> Seq<u8> {
    if k <= 0 { utf8(mail) } else if k <= rcpts.len() { utf8(rcpt_text(rcpts[k - 1], Seq::empty())) } else { utf8("DATA\r\n"@) }
}
/// the transaction without the content: n recipients, n + 2 commands
pub closed spec fn talk(pipelined: bool, mail: Seq<char>, rcpts: Seq<EmailAddress>) -> Seq<Step> {
    let n = rcpts.len();
    if pipelined {
        Seq::new((2 * (n + 2)) as nat, |i: int| if i < n + 2 { Step::Send(cmds(mail, rcpts, i)) } else { Step::Wait })
    } else {
        Seq::new((2 * (n + 2)) as nat, |i: int| if i % 2 == 0 { Step::Send(cmds(mail, rcpts, i / 2)) } else { Step::Wait })
    }
}
/// content: what is sent for the message, None if it cannot be read
pub open spec fn mail_plan(pipelined: bool, mail: Seq<char>, rcpts: Seq<EmailAddress>, content: Option<Seq<u8>>) -> Seq<Step> {
    talk(pipelined, mail, rcpts) + (match content { Some(c) => told(c), None => Seq::empty() })
}
/// the k-th command of a plan that waits after every command; the k-th of a pipelined one; the waits
pub proof fn lem_talk(mail: Seq<char>, rcpts: Seq<EmailAddress>, content: Option<Seq<u8>>, k: int)
    ensures
        ({
            let n = rcpts.len() as int;
            let p = mail_plan(false, mail, rcpts, content);
            let q = mail_plan(true, mail, rcpts, content);
            &&& p.len() == 2 * n + (if content is Some { 6int } else { 4 }) && q.len() == p.len()
            &&& talk(false, mail, rcpts).len() == 2 * n + 4 && talk(true, mail, rcpts).len() == 2 * n + 4
            &&& (0 <= k <= n + 1 ==> p.subrange(2 * k, 2 * k + 2) == told(cmds(mail, rcpts, k)))
            &&& (0 <= k <= n + 1 ==> q.subrange(k, k + 1) == sent(cmds(mail, rcpts, k)))
            &&& (n + 2 <= k < 2 * n + 4 ==> q.subrange(k, k + 1) == waited())
            &&& (content is Some ==> p.subrange(2 * n + 4, 2 * n + 6) == told(content->0) && q.subrange(2 * n + 4, 2 * n + 6) == told(content->0))
            &&& p.take(2 * n + 4) == talk(false, mail, rcpts)
            &&& q.take(2 * n + 4) == talk(true, mail, rcpts)
            &&& cmds(mail, rcpts, 0) == utf8(mail)
            &&& (1 <= k <= n ==> cmds(mail, rcpts, k) == utf8(rcpt_text(rcpts[k - 1], Seq::empty())))
            &&& cmds(mail, rcpts, n + 1) == utf8("DATA\r\n"@)
        }),
{
    let n = rcpts.len() as int;
    let p = mail_plan(false, mail, rcpts, content);
    let q = mail_plan(true, mail, rcpts, content);
    if 0 <= k <= n + 1 {
        assert((2 * k) % 2 == 0 && (2 * k + 1) % 2 == 1 && (2 * k) / 2 == k);
        assert(p.subrange(2 * k, 2 * k + 2) =~= told(cmds(mail, rcpts, k)));
        assert(q.subrange(k, k + 1) =~= sent(cmds(mail, rcpts, k)));
    }
    if n + 2 <= k < 2 * n + 4 { assert(q.subrange(k, k + 1) =~= waited()); }
    if content is Some {
        assert(p.subrange(2 * n + 4, 2 * n + 6) =~= told(content->0));
        assert(q.subrange(2 * n + 4, 2 * n + 6) =~= told(content->0));
    }
    assert(p.take(2 * n + 4) =~= talk(false, mail, rcpts));
    assert(q.take(2 * n + 4) =~= talk(true, mail, rcpts));
}

/// what is sent first
pub open spec fn auth_first(m: Mechanism, user: Seq<char>, secret: Seq<char>) -> Seq<char> {
    auth_text(m, if initial(m) { sasl(m, user, secret, None) } else { None })
}
/// the answer to a reply, if it is a challenge that has one
pub open spec fn auth_answer(m: Mechanism, user: Seq<char>, secret: Seq<char>, r: Rep) -> Option<Seq<char>> {
    match r {
        Rep::Pos(x) => if code_text(x.code) == dec(334) && challenge(x) is Some { sasl(m, user, secret, challenge(x)) } else { None },
        _ => None,
    }
}
/// the exchange when at most k challenges are answered
pub closed spec fn auth_plan(m: Mechanism, user: Seq<char>, secret: Seq<char>, inp: Seq<char>, k: int) -> Seq<Step>
    decreases k
{
    if k <= 0 { told(utf8(auth_first(m, user, secret))) } else {
        let p = auth_plan(m, user, secret, inp, k - 1);
        match auth_answer(m, user, secret, run(p, inp).last) { Some(a) => p + told(utf8(auth_text(m, Some(a)))), None => p }
    }
}
/// nothing happened from m to n
pub proof fn lem_same(o: Wire, m: Wire, n: Wire, p: Seq<Step>, k: int)
    ensures at(o, m, p, k) && n.log() == m.log() && n.inp() == m.inp() && n.broken() == m.broken() ==> at(o, n, p, k),
{}

pub proof fn lem_auth_init(o: Wire, n: Wire, m: Mechanism, user: Seq<char>, secret: Seq<char>)
    ensures
        auth_plan(m, user, secret, o.inp(), 0) == told(utf8(auth_first(m, user, secret))),
        moved(o, n, auth_plan(m, user, secret, o.inp(), 0)) && stops(last(o, auth_plan(m, user, secret, o.inp(), 0))) ==> auth_plan(m, user, secret, o.inp(), 10) == auth_plan(m, user, secret, o.inp(), 0),
        lost(o, n, auth_plan(m, user, secret, o.inp(), 0)) ==> lost(o, n, auth_plan(m, user, secret, o.inp(), 10)),
{
    lem_auth_stay(m, user, secret, o.inp(), 0, 10);
    lem_auth_lost(o, n, m, user, secret, 0, 10);
}
proof fn lem_auth_stay(m: Mechanism, user: Seq<char>, secret: Seq<char>, inp: Seq<char>, j: int, k: int)
    ensures
        0 <= j <= k && auth_answer(m, user, secret, run(auth_plan(m, user, secret, inp, j), inp).last) is None ==> auth_plan(m, user, secret, inp, k) == auth_plan(m, user, secret, inp, j),
    decreases k
{ if 0 <= j < k { lem_auth_stay(m, user, secret, inp, j, k - 1); } }
proof fn lem_auth_lost(o: Wire, n: Wire, m: Mechanism, user: Seq<char>, secret: Seq<char>, j: int, k: int)
    ensures 0 <= j <= k && lost(o, n, auth_plan(m, user, secret, o.inp(), j)) ==> lost(o, n, auth_plan(m, user, secret, o.inp(), k)),
    decreases k
{
    let inp = o.inp();
    if 0 <= j < k && lost(o, n, auth_plan(m, user, secret, inp, j)) {
        lem_auth_lost(o, n, m, user, secret, j, k - 1);
        let p = auth_plan(m, user, secret, inp, k - 1);
        if let Some(a) = auth_answer(m, user, secret, run(p, inp).last) { lem_lost_more(o, n, p, told(utf8(auth_text(m, Some(a))))); }
    }
}
proof fn lem_lost_more(o: Wire, n: Wire, p: Seq<Step>, q: Seq<Step>)
    ensures lost(o, n, p) ==> lost(o, n, p + q),
{
    if lost(o, n, p) {
        lem_run_log(p, q, o.inp());
        let x = run(p, o.inp()).log;
        let y = run(p + q, o.inp()).log;
        let j = choose|j: int| 0 <= j <= x.len() && n.log() == o.log() + #[trigger] x.take(j);
        assert(y.take(j) =~= y.take(x.len() as int).take(j));
    }
}
/// one step of the exchange: j challenges have been answered, and one more is (from m to n)
pub proof fn lem_auth_step(o: Wire, w: Wire, n: Wire, m: Mechanism, user: Seq<char>, secret: Seq<char>, j: int)
    ensures
        ({
            let p = auth_plan(m, user, secret, o.inp(), j);
            let p1 = auth_plan(m, user, secret, o.inp(), j + 1);
            let full = auth_plan(m, user, secret, o.inp(), 10);
            let a = auth_answer(m, user, secret, last(o, p));
            let b = told(utf8(auth_text(m, a)));
            0 <= j < 10 && moved(o, w, p) && !stops(last(o, p)) ==> {
                &&& (a is None ==> full == p && p1 == p)
                &&& (a is Some && moved(w, n, b) && last(w, b) is Pos ==> moved(o, n, p1) && last(o, p1) == last(w, b))
                &&& (a is Some && moved(w, n, b) && stops(last(w, b)) ==> moved(o, n, full) && last(o, full) == last(w, b))
                &&& (a is Some && lost(w, n, b) ==> lost(o, n, full))
                &&& p1.len() == p.len() + (if a is Some { 2int } else { 0 })
            }
        }),
{
    let inp = o.inp();
    let p = auth_plan(m, user, secret, inp, j);
    let p1 = auth_plan(m, user, secret, inp, j + 1);
    let a = auth_answer(m, user, secret, last(o, p));
    let b = told(utf8(auth_text(m, a)));
    if 0 <= j < 10 && moved(o, w, p) && !stops(last(o, p)) {
        lem_auth_stay(m, user, secret, inp, j, 10);
        if a is Some {
            assert(p1 == p + b);
            assert(p1.take(p.len() as int) =~= p);
            assert(p1.subrange(p.len() as int, p.len() as int + 2) =~= b);
            lem_part(o, w, n, p1, p.len() as int, b);
            lem_end(o, n, p1);
            assert(at(o, w, p1, p.len() as int));
            lem_auth_stay(m, user, secret, inp, j + 1, 10);
            lem_auth_lost(o, n, m, user, secret, j + 1, 10);
        }
    }
}
/// the exchange succeeded with this reply
pub open spec fn authed(o: Wire, n: Wire, m: Mechanism, user: Seq<char>, secret: Seq<char>) -> bool {
    let p = auth_plan(m, user, secret, o.inp(), 10);
    moved(o, n, p) && last(o, p) is Pos && code_text(last(o, p)->Pos_0.code) != dec(334)
}
/// the exchange failed with this error: a negative reply or the like, a failed stream, a challenge
/// that has no answer, or ten answers have been given
pub open spec fn unauthed(o: Wire, n: Wire, m: Mechanism, user: Seq<char>, secret: Seq<char>, e: Error) -> bool {
    let p = auth_plan(m, user, secret, o.inp(), 10);
    ||| refused(o, n, p, e)
    ||| lost(o, n, p)
    ||| (moved(o, n, p) && last(o, p) is Pos && (code_text(last(o, p)->Pos_0.code) == dec(334) || p.len() == 22)
            && !(e is Transient) && !(e is Permanent))
}
pub proof fn lem_mechs_skip(f: Set<Extension>, l: Seq<Mechanism>, k: int)
    ensures
        l.skip(0) == l,
        0 <= k < l.len() ==> first_mech(f, l.skip(k)) == if f.contains(Extension::Authentication(l[k])) { Some(l[k]) } else { first_mech(f, l.skip(k + 1)) },
        k == l.len() ==> first_mech(f, l.skip(k)) is None,
{
    assert(l.skip(0) =~= l);
    if 0 <= k < l.len() { assert(l.skip(k).skip(1) =~= l.skip(k + 1)); }
}
/// the first mechanism of the list that the server advertises
pub closed spec fn first_mech(f: Set<Extension>, l: Seq<Mechanism>) -> Option<Mechanism>
    decreases l.len()
{
    if l.len() == 0 { None } else if f.contains(Extension::Authentication(l[0])) { Some(l[0]) } else { first_mech(f, l.skip(1)) }
}
pub proof fn lem_first_mech(f: Set<Extension>, l: Seq<Mechanism>, k: int)
    ensures
        0 <= k < l.len() && f.contains(Extension::Authentication(l[k])) && (forall|j: int| 0 <= j < k ==> !f.contains(Extension::Authentication(#[trigger] l[j])))
            ==> first_mech(f, l) == Some(l[k]), // [C18] the first of the list
        k == l.len() && (forall|j: int| 0 <= j < k ==> !f.contains(Extension::Authentication(#[trigger] l[j]))) ==> first_mech(f, l) is None, // [C18]
    decreases l.len()
{
    if 0 < l.len() && 0 < k <= l.len() && (forall|j: int| 0 <= j < k ==> !f.contains(Extension::Authentication(#[trigger] l[j]))) {
        let t = l.skip(1);
        assert(!f.contains(Extension::Authentication(l[0])));
        assert forall|j: int| 0 <= j < k - 1 implies !f.contains(Extension::Authentication(#[trigger] t[j])) by { assert(t[j] == l[j + 1]); }
        lem_first_mech(f, t, k - 1);
    }
}
/// the start of a session
pub open spec fn hello_plan(greeting: bool, id: ClientId) -> Seq<Step> {
    (if greeting { waited() } else { Seq::empty() }) + told(utf8("EHLO "@ + client_text(id) + "\r\n"@))
}
pub proof fn lem_hello(greeting: bool, id: ClientId)
    ensures ({
        let p = hello_plan(greeting, id);
        let k = if greeting { 1int } else { 0 };
        &&& p.len() == k + 2
        &&& (greeting ==> p.subrange(0, 1) == waited())
        &&& p.subrange(k, k + 2) == told(utf8("EHLO "@ + client_text(id) + "\r\n"@))
    }),
{
    let p = hello_plan(greeting, id);
    let k = if greeting { 1int } else { 0 };
    if greeting { assert(p.subrange(0, 1) =~= waited()); }
    assert(p.subrange(k, k + 2) =~= told(utf8("EHLO "@ + client_text(id) + "\r\n"@)));
}

// ----------------------------------------------------------------- what the plans mean

/// Once a reply is not positive, nothing more happens.
proof fn lem_stopped(p: Seq<Step>, k: int, inp: Seq<char>)
    requires 0 <= k <= p.len(), stops(run(p.take(k), inp).last),
    ensures run(p, inp) == run(p.take(k), inp),
{
    assert(p =~= p.take(k) + p.skip(k));
    lem_run_cat(p.take(k), p.skip(k), inp);
}
pub open spec fn waits(p: Seq<Step>) -> int
    decreases p.len()
{ if p.len() == 0 { 0 } else { waits(p.drop_last()) + (if p.last() is Wait { 1int } else { 0 }) } }
pub open spec fn sends(p: Seq<Step>) -> int { p.len() - waits(p) }
/// A plan that ends well has had a positive reply for each of its waits, and has sent everything.
proof fn lem_well(p: Seq<Step>, inp: Seq<char>)
    ensures
        !stops(run(p, inp).last) ==> run(p, inp).got == waits(p) && run(p, inp).sent == sends(p),
        !stops(run(p, inp).last) ==> forall|k: int| 0 <= k <= p.len() ==> !stops(#[trigger] run(p.take(k), inp).last),
    decreases p.len()
{
    if p.len() > 0 {
        let d = p.drop_last();
        lem_well(d, inp);
        if !stops(run(p, inp).last) {
            assert forall|k: int| 0 <= k <= p.len() implies !stops(#[trigger] run(p.take(k), inp).last) by {
                if k == p.len() { assert(p.take(k) =~= p); } else { assert(p.take(k) =~= d.take(k)); }
            }
        }
    }
}
/// a send and a wait, again and again
pub open spec fn pairs(p: Seq<Step>) -> bool {
    p.len() % 2 == 0 && forall|k: int| 0 <= k < p.len() ==> (#[trigger] p[k] is Wait <==> k % 2 == 1)
}
proof fn lem_pairs(p: Seq<Step>, inp: Seq<char>)
    requires pairs(p),
    ensures run(p, inp).got == run(p, inp).sent,
    decreases p.len()
{
    if p.len() > 0 {
        let q = p.take(p.len() - 2);
        let t = p.skip(p.len() - 2);
        assert(pairs(q)) by { assert forall|k: int| 0 <= k < q.len() implies (#[trigger] q[k] is Wait <==> k % 2 == 1) by { assert(q[k] == p[k]); } }
        lem_pairs(q, inp);
        assert(p =~= q + t);
        lem_run_cat(q, t, inp);
        assert(p[p.len() - 2] is Send && p[p.len() - 1] is Wait);
        let b = p[p.len() - 2]->Send_0;
        let x = run(q, inp).inp;
        assert(t.drop_last() =~= sent(b));
        lem_run_one(b, x);
        assert(run(t, x).sent == 1 && run(t, x).got == 1);
    }
}
/// The content is sent only after MAIL, every RCPT and DATA have been answered positively.
pub proof fn c06_content(pl: bool, mail: Seq<char>, rcpts: Seq<EmailAddress>, c: Option<Seq<u8>>, inp: Seq<char>)
    ensures
        stops(run(talk(pl, mail, rcpts), inp).last) ==> run(mail_plan(pl, mail, rcpts, c), inp) == run(talk(pl, mail, rcpts), inp), // [C06] no content after a refusal
        !stops(run(talk(pl, mail, rcpts), inp).last) ==> run(talk(pl, mail, rcpts), inp).got == rcpts.len() + 2 && run(talk(pl, mail, rcpts), inp).sent == rcpts.len() + 2, // [C06] every command has its positive reply
{
    let t = talk(pl, mail, rcpts);
    let p = mail_plan(pl, mail, rcpts, c);
    lem_talk(mail, rcpts, c, 0);
    if stops(run(t, inp).last) { lem_stopped(p, t.len() as int, inp); }
    lem_well(t, inp);
    lem_talk_waits(pl, mail, rcpts, t.len() as int);
    assert(t.take(t.len() as int) =~= t);
}
proof fn lem_talk_waits(pl: bool, mail: Seq<char>, rcpts: Seq<EmailAddress>, k: int)
    requires 0 <= k <= 2 * rcpts.len() + 4,
    ensures
        pl ==> waits(talk(pl, mail, rcpts).take(k)) == (if k <= rcpts.len() + 2 { 0int } else { k - rcpts.len() - 2 }),
        !pl ==> waits(talk(pl, mail, rcpts).take(k)) == k / 2,
    decreases k
{
    let t = talk(pl, mail, rcpts);
    if k > 0 {
        lem_talk_waits(pl, mail, rcpts, k - 1);
        assert(t.take(k).drop_last() =~= t.take(k - 1));
        assert(t.take(k).last() == t[k - 1]);
    }
}
/// Without pipelining each command is sent after the positive reply to the one before: k commands
/// are out only if k - 1 replies have been positive, and nothing follows a refusal.
pub proof fn c06_lockstep(mail: Seq<char>, rcpts: Seq<EmailAddress>, c: Option<Seq<u8>>, inp: Seq<char>, k: int)
    requires 0 <= k <= rcpts.len() + 2,
    ensures
        ({
            let p = mail_plan(false, mail, rcpts, c);
            &&& (stops(run(p.take(2 * k), inp).last) ==> run(p, inp) == run(p.take(2 * k), inp)) // [C06]
            &&& (!stops(run(p.take(2 * k), inp).last) ==> run(p.take(2 * k), inp).sent == k && run(p.take(2 * k), inp).got == k) // [C06]
        }),
{
    let p = mail_plan(false, mail, rcpts, c);
    lem_talk(mail, rcpts, c, 0);
    if stops(run(p.take(2 * k), inp).last) { lem_stopped(p, 2 * k, inp); }
    lem_well(p.take(2 * k), inp);
    lem_talk_waits(false, mail, rcpts, 2 * k);
    assert(p.take(2 * k) =~= talk(false, mail, rcpts).take(2 * k));
}
/// Sending succeeds only if every command was accepted; the reply returned is the one to the content.
pub proof fn c07_send(pl: bool, mail: Seq<char>, rcpts: Seq<EmailAddress>, c: Seq<u8>, inp: Seq<char>)
    ensures
        ({
            let p = mail_plan(pl, mail, rcpts, Some(c));
            let x = run(talk(pl, mail, rcpts), inp);
            run(p, inp).last is Pos ==> !stops(x.last) && x.got == rcpts.len() + 2 && run(p, inp).last == wait(x.inp).1 && run(p, inp).got == rcpts.len() + 3 && run(p, inp).sent == rcpts.len() + 3
        }), // [C07] the reply to the content
{
    let t = talk(pl, mail, rcpts);
    let p = mail_plan(pl, mail, rcpts, Some(c));
    lem_run_cat(t, told(c), inp);
    c06_content(pl, mail, rcpts, Some(c), inp);
    let x = run(t, inp);
    lem_run_one(c, x.inp);
    assert(told(c).drop_last() =~= sent(c));
    assert(run(told(c), x.inp).last == wait(x.inp).1);
}
/// The failure is the first reply that is not positive.
pub proof fn c07_first(p: Seq<Step>, k: int, inp: Seq<char>)
    requires 0 <= k <= p.len(),
    ensures stops(run(p.take(k), inp).last) ==> run(p, inp).last == run(p.take(k), inp).last, // [C07] the first negative reply
{ if stops(run(p.take(k), inp).last) { lem_stopped(p, k, inp); } }
/// Every reply has been read for what has been sent, whatever the replies are.
pub proof fn c08_matched(mail: Seq<char>, rcpts: Seq<EmailAddress>, c: Option<Seq<u8>>, b: Seq<u8>, m: Mechanism, user: Seq<char>, secret: Seq<char>, inp: Seq<char>, k: int)
    requires 0 <= k,
    ensures
        run(told(b), inp).got == run(told(b), inp).sent, // [C08] one command
        run(mail_plan(false, mail, rcpts, c), inp).got == run(mail_plan(false, mail, rcpts, c), inp).sent, // [C08] a transaction
        !stops(run(talk(true, mail, rcpts), inp).last) ==> run(mail_plan(true, mail, rcpts, c), inp).got == run(mail_plan(true, mail, rcpts, c), inp).sent, // [C08] a pipelined transaction whose commands are accepted
        run(auth_plan(m, user, secret, inp, k), inp).got == run(auth_plan(m, user, secret, inp, k), inp).sent, // [C08] [C09] an authentication
        run(auth_plan(m, user, secret, inp, k), inp).sent <= 1 + k, // [C09] at most so many answers
{
    lem_pairs(told(b), inp);
    let t = talk(false, mail, rcpts);
    assert(pairs(t));
    let p = mail_plan(false, mail, rcpts, c);
    assert(pairs(p)) by {
        assert forall|k: int| 0 <= k < p.len() implies (#[trigger] p[k] is Wait <==> k % 2 == 1) by { if k < t.len() { assert(p[k] == t[k]); } }
    }
    lem_pairs(p, inp);
    let t2 = talk(true, mail, rcpts);
    c06_content(true, mail, rcpts, c, inp);
    lem_run_cat(t2, if c is Some { told(c->0) } else { Seq::empty() }, inp);
    if c is Some { lem_pairs(told(c->0), run(t2, inp).inp); } else { lem_pairs(Seq::empty(), run(t2, inp).inp); }
    lem_auth_pairs(m, user, secret, inp, k);
    lem_pairs(auth_plan(m, user, secret, inp, k), inp);
    lem_sent_most(auth_plan(m, user, secret, inp, k), inp);
}
proof fn lem_sent_most(p: Seq<Step>, inp: Seq<char>)
    ensures 0 <= run(p, inp).sent, 0 <= run(p, inp).got, run(p, inp).sent + run(p, inp).got <= p.len(),
    decreases p.len()
{ if p.len() > 0 { lem_sent_most(p.drop_last(), inp); } }
proof fn lem_auth_pairs(m: Mechanism, user: Seq<char>, secret: Seq<char>, inp: Seq<char>, k: int)
    ensures pairs(auth_plan(m, user, secret, inp, k)), 0 <= k ==> auth_plan(m, user, secret, inp, k).len() <= 2 + 2 * k,
    decreases k
{ if k > 0 { lem_auth_pairs(m, user, secret, inp, k - 1); } }

} // verus!
