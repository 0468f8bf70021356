//! TRUSTED. Stand-ins for std, nom, base64, tokio/async-std, anyhow and log with assumed contracts.
//! Everything marked `external_body` here is an assumption about a dependency.
#![allow(unused_imports, unused_variables, dead_code, non_camel_case_types, unused_mut)]
use vstd::prelude::*;

pub mod prelude {
    pub use super::{Source, CC, VStr, VOpt, VSlice, VExtend, VVec, VIntoIter, VChar, VByte, VIt, VToString, VRangeStr, VRangeSlice, VString, VRes};
    pub use super::std::convert::AsRef;
    pub use super::std::str::FromStr;
    pub use super::std::string::ToString;
}

verus! {

// ------------------------------------------------------------------ basics

/// A panic: must be unreachable.
#[verifier::external_body]
pub fn v_unreachable() -> (r: !)
    requires false, // [panic]
{ unimplemented!() }

/// A construct the extraction does not support.
#[verifier::external_body]
pub fn v_unsupported<T>() -> (r: T)
    requires false, // [unsupported]
{ unimplemented!() }

/// The operator `?` converts the error with From::from.
#[verifier::external_body]
pub broadcast proof fn question_mark<S: From<T>, T>(v: T, r: S)
    ensures #[trigger] vstd::std_specs::control_flow::spec_from::<S, T>(v, r) && <S as vstd::std_specs::convert::FromSpec<T>>::obeys_from_spec()
        ==> r == <S as vstd::std_specs::convert::FromSpec<T>>::from_spec(v),
{}

/// The conversion `?` makes, where `?` has been written out.
#[verifier::external_body]
pub fn q_from<S: From<T>, T>(v: T) -> (r: S)
    ensures vstd::std_specs::control_flow::spec_from::<S, T>(v, r),
{ unimplemented!() }

pub open spec fn same<T>(a: T, b: T) -> bool { a == b }
pub open spec fn utf8(s: Seq<char>) -> Seq<u8> { vstd::utf8::encode_utf8(s) }
pub open spec fn blen(s: Seq<char>) -> nat { vstd::utf8::encode_utf8(s).len() }

pub proof fn utf8_cat(a: Seq<char>, b: Seq<char>)
    ensures utf8(a + b) == utf8(a) + utf8(b),
    decreases a.len()
{
    if a.len() == 0 {
        assert(a + b =~= b);
        assert(utf8(a) + utf8(b) =~= utf8(b));
    } else {
        utf8_cat(a.drop_first(), b);
        assert((a + b).drop_first() =~= a.drop_first() + b);
        assert(utf8(a) == vstd::utf8::encode_scalar(a[0] as u32) + utf8(a.drop_first()));
        assert(utf8(a + b) == vstd::utf8::encode_scalar(a[0] as u32) + utf8((a + b).drop_first()));
        assert(utf8(a + b) =~= utf8(a) + utf8(b));
    }
}
pub proof fn utf8_len(a: Seq<char>)
    ensures utf8(a).len() >= a.len(),
    decreases a.len()
{
    if a.len() > 0 {
        utf8_len(a.drop_first());
        assert(utf8(a) == vstd::utf8::encode_scalar(a[0] as u32) + utf8(a.drop_first()));
    }
}
/// a shorter text of what follows takes fewer bytes
pub proof fn blen_skip(a: Seq<char>, n: int)
    ensures 0 < n <= a.len() ==> blen(a.skip(n)) < blen(a),
{
    if 0 < n <= a.len() {
        utf8_cat(a.take(n), a.skip(n));
        utf8_len(a.take(n));
        assert(a.take(n) + a.skip(n) =~= a);
    }
}
pub broadcast proof fn skip_skip<T>(s: Seq<T>, a: int, b: int)
    requires 0 <= a, 0 <= b, a + b <= s.len(),
    ensures #[trigger] s.skip(a).skip(b) == s.skip(a + b),
{ assert(s.skip(a).skip(b) =~= s.skip(a + b)); }

pub fn str_eq(a: &str, b: &str) -> (r: bool)
    ensures r == (a@ == b@),
{ a == b }

#[verifier::external_body]
pub fn bytes_eq(a: &[u8], b: &[u8]) -> (r: bool)
    ensures r == (a@ == b@),
{ a == b }

#[verifier::external_body]
pub fn vec_from_elem<T: Clone>(x: T, n: usize) -> (r: Vec<T>)
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == x,
{ unimplemented!() }

// ------------------------------------------------------------------ char and u8

pub open spec fn c_ws(c: char) -> bool {
    let n = c as u32;
    9 <= n <= 13 || n == 32 || n == 0x85 || n == 0xA0 || n == 0x1680 || 0x2000 <= n <= 0x200A
        || n == 0x2028 || n == 0x2029 || n == 0x202F || n == 0x205F || n == 0x3000
}
pub open spec fn s_is_ascii(c: char) -> bool { (c as u32) < 128 }
pub open spec fn s_is_ascii_control(c: char) -> bool { (c as u32) < 32 || (c as u32) == 127 }
/// U+0020, U+0009, U+000A, U+000C, U+000D
pub open spec fn s_is_ascii_whitespace(c: char) -> bool {
    let n = c as u32;
    n == 32 || n == 9 || n == 10 || n == 12 || n == 13
}
pub open spec fn s_is_ascii_graphic(c: char) -> bool { 33 <= (c as u32) <= 126 }
pub open spec fn s_is_ascii_digit(c: char) -> bool { 48 <= (c as u32) <= 57 }
pub open spec fn s_is_ascii_uppercase(c: char) -> bool { 65 <= (c as u32) <= 90 }
pub open spec fn s_is_ascii_lowercase(c: char) -> bool { 97 <= (c as u32) <= 122 }
pub open spec fn s_is_ascii_alphabetic(c: char) -> bool { s_is_ascii_uppercase(c) || s_is_ascii_lowercase(c) }
pub open spec fn s_is_ascii_alphanumeric(c: char) -> bool { s_is_ascii_alphabetic(c) || s_is_ascii_digit(c) }
pub open spec fn s_is_ascii_punctuation(c: char) -> bool { s_is_ascii_graphic(c) && !s_is_ascii_alphanumeric(c) }
/// Unicode general category Cc
pub open spec fn s_is_control(c: char) -> bool { (c as u32) < 32 || 127 <= (c as u32) <= 159 }
pub open spec fn s_is_whitespace(c: char) -> bool { c_ws(c) }
pub open spec fn upper(c: char) -> char { if 97 <= (c as u32) <= 122 { ((c as u32 - 32) as u8) as char } else { c } }
pub open spec fn lower(c: char) -> char { if 65 <= (c as u32) <= 90 { ((c as u32 + 32) as u8) as char } else { c } }
pub open spec fn s_len_utf8(c: char) -> nat { blen(seq![c]) }

/// a char, or a byte as a char
pub trait CC { spec fn cc(&self) -> char; }
impl CC for char { open spec fn cc(&self) -> char { *self } }
impl CC for u8 { open spec fn cc(&self) -> char { *self as char } }

pub trait VChar {
    spec fn ch(&self) -> char;
    fn v_is_ascii(&self) -> (r: bool) ensures r == s_is_ascii(self.ch());
    fn v_is_ascii_control(&self) -> (r: bool) ensures r == s_is_ascii_control(self.ch());
    fn v_is_ascii_whitespace(&self) -> (r: bool) ensures r == s_is_ascii_whitespace(self.ch());
    fn v_is_ascii_graphic(&self) -> (r: bool) ensures r == s_is_ascii_graphic(self.ch());
    fn v_is_ascii_digit(&self) -> (r: bool) ensures r == s_is_ascii_digit(self.ch());
    fn v_is_ascii_uppercase(&self) -> (r: bool) ensures r == s_is_ascii_uppercase(self.ch());
    fn v_is_ascii_lowercase(&self) -> (r: bool) ensures r == s_is_ascii_lowercase(self.ch());
    fn v_is_ascii_alphabetic(&self) -> (r: bool) ensures r == s_is_ascii_alphabetic(self.ch());
    fn v_is_ascii_alphanumeric(&self) -> (r: bool) ensures r == s_is_ascii_alphanumeric(self.ch());
    fn v_is_ascii_punctuation(&self) -> (r: bool) ensures r == s_is_ascii_punctuation(self.ch());
    fn v_is_control(self) -> (r: bool) where Self: Sized ensures r == s_is_control(self.ch());
    fn v_is_whitespace(self) -> (r: bool) where Self: Sized ensures r == s_is_whitespace(self.ch());
    fn v_len_utf8(self) -> (r: usize) where Self: Sized ensures r == s_len_utf8(self.ch());
    fn v_to_ascii_uppercase(&self) -> (r: char) ensures r == upper(self.ch());
    fn v_to_ascii_lowercase(&self) -> (r: char) ensures r == lower(self.ch());
    fn v_eq_ignore_ascii_case(&self, o: &char) -> (r: bool) ensures r == (upper(self.ch()) == upper(*o));
}
impl VChar for char {
    open spec fn ch(&self) -> char { *self }
    #[verifier::external_body] fn v_is_ascii(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_is_ascii_control(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_is_ascii_whitespace(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_is_ascii_graphic(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_is_ascii_digit(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_is_ascii_uppercase(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_is_ascii_lowercase(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_is_ascii_alphabetic(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_is_ascii_alphanumeric(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_is_ascii_punctuation(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_is_control(self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_is_whitespace(self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_len_utf8(self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn v_to_ascii_uppercase(&self) -> (r: char) { unimplemented!() }
    #[verifier::external_body] fn v_to_ascii_lowercase(&self) -> (r: char) { unimplemented!() }
    #[verifier::external_body] fn v_eq_ignore_ascii_case(&self, o: &char) -> (r: bool) { unimplemented!() }
}
pub trait VByte {
    spec fn by(&self) -> u8;
    fn v_is_ascii(&self) -> (r: bool) ensures r == s_is_ascii(self.by() as char);
    fn v_is_ascii_control(&self) -> (r: bool) ensures r == s_is_ascii_control(self.by() as char);
    fn v_is_ascii_whitespace(&self) -> (r: bool) ensures r == s_is_ascii_whitespace(self.by() as char);
    fn v_is_ascii_graphic(&self) -> (r: bool) ensures r == s_is_ascii_graphic(self.by() as char);
    fn v_is_ascii_digit(&self) -> (r: bool) ensures r == s_is_ascii_digit(self.by() as char);
}
impl VByte for u8 {
    open spec fn by(&self) -> u8 { *self }
    #[verifier::external_body] fn v_is_ascii(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_is_ascii_control(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_is_ascii_whitespace(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_is_ascii_graphic(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_is_ascii_digit(&self) -> (r: bool) { unimplemented!() }
}

// ------------------------------------------------------------------ iterators

/// Every iterator over a finite sequence: the whole sequence and the position in it.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VIt<T> { x: Vec<T> }

impl<T> VIt<T> {
    pub uninterp spec fn all(&self) -> Seq<T>;
    pub uninterp spec fn pos(&self) -> int;
    pub open spec fn ok(&self) -> bool { 0 <= self.pos() <= self.all().len() && self.all().len() <= usize::MAX }

    #[verifier::external_body]
    pub fn more(&self) -> (r: bool)
        ensures r == (self.pos() < self.all().len()), self.ok(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn take_next(&mut self) -> (r: T)
        requires old(self).pos() < old(self).all().len(),
        ensures
            r == old(self).all()[old(self).pos()],
            final(self).all() == old(self).all(),
            final(self).pos() == old(self).pos() + 1,
            final(self).ok(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures
            final(self).all() == old(self).all(),
            final(self).ok(),
            old(self).pos() < old(self).all().len() ==> r == Some(old(self).all()[old(self).pos()]) && final(self).pos() == old(self).pos() + 1,
            old(self).pos() >= old(self).all().len() ==> r is None && final(self).pos() == old(self).pos(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn v_any<F: Fn(T) -> bool>(&mut self, f: F) -> (r: bool)
        requires forall|k: int| old(self).pos() <= k < old(self).all().len() ==> f.requires((#[trigger] old(self).all()[k],)),
        ensures
            r ==> exists|k: int| old(self).pos() <= k < old(self).all().len() && f.ensures((#[trigger] old(self).all()[k],), true),
            !r ==> forall|k: int| old(self).pos() <= k < old(self).all().len() ==> f.ensures((#[trigger] old(self).all()[k],), false),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn v_all<F: Fn(T) -> bool>(&mut self, f: F) -> (r: bool)
        requires forall|k: int| old(self).pos() <= k < old(self).all().len() ==> f.requires((#[trigger] old(self).all()[k],)),
        ensures
            !r ==> exists|k: int| old(self).pos() <= k < old(self).all().len() && f.ensures((#[trigger] old(self).all()[k],), false),
            r ==> forall|k: int| old(self).pos() <= k < old(self).all().len() ==> f.ensures((#[trigger] old(self).all()[k],), true),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn v_find<F: Fn(&T) -> bool>(&mut self, f: F) -> (r: Option<T>)
        requires forall|k: int| old(self).pos() <= k < old(self).all().len() ==> f.requires((&#[trigger] old(self).all()[k],)),
        ensures
            r is Some ==> exists|k: int| old(self).pos() <= k < old(self).all().len() && r == Some(#[trigger] old(self).all()[k])
                && f.ensures((&old(self).all()[k],), true)
                && forall|j: int| old(self).pos() <= j < k ==> f.ensures((&#[trigger] old(self).all()[j],), false),
            r is None ==> forall|k: int| old(self).pos() <= k < old(self).all().len() ==> f.ensures((&#[trigger] old(self).all()[k],), false),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn v_position<F: Fn(T) -> bool>(&mut self, f: F) -> (r: Option<usize>)
        requires forall|k: int| old(self).pos() <= k < old(self).all().len() ==> f.requires((#[trigger] old(self).all()[k],)),
        ensures
            r is Some ==> old(self).pos() + r->0 < old(self).all().len() && f.ensures((old(self).all()[old(self).pos() + r->0],), true)
                && forall|j: int| old(self).pos() <= j < old(self).pos() + r->0 ==> f.ensures((#[trigger] old(self).all()[j],), false),
            r is None ==> forall|k: int| old(self).pos() <= k < old(self).all().len() ==> f.ensures((#[trigger] old(self).all()[k],), false),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn find_map<U, F: Fn(T) -> Option<U>>(&mut self, f: F) -> (r: Option<U>)
        requires forall|k: int| old(self).pos() <= k < old(self).all().len() ==> f.requires((#[trigger] old(self).all()[k],)),
        ensures
            r is Some ==> exists|k: int| old(self).pos() <= k < old(self).all().len() && f.ensures((#[trigger] old(self).all()[k],), r)
                && forall|j: int| old(self).pos() <= j < k ==> f.ensures((#[trigger] old(self).all()[j],), None),
            r is None ==> forall|k: int| old(self).pos() <= k < old(self).all().len() ==> f.ensures((#[trigger] old(self).all()[k],), None),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn skip_while<F: Fn(&T) -> bool>(self, f: F) -> (r: VIt<T>)
        requires forall|k: int| self.pos() <= k < self.all().len() ==> f.requires((&#[trigger] self.all()[k],)),
        ensures r.ok(), r.pos() == 0, exists|n: int| 0 <= n <= self.all().len() - self.pos() && r.all() == #[trigger] self.all().skip(self.pos() + n)
            && (forall|k: int| self.pos() <= k < self.pos() + n ==> f.ensures((&#[trigger] self.all()[k],), true))
            && (self.pos() + n < self.all().len() ==> f.ensures((&self.all()[self.pos() + n],), false)),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn take_while<F: Fn(&T) -> bool>(self, f: F) -> (r: VIt<T>)
        requires forall|k: int| self.pos() <= k < self.all().len() ==> f.requires((&#[trigger] self.all()[k],)),
        ensures r.ok(), r.pos() == 0, r.all() == self.all().subrange(self.pos(), self.pos() + r.all().len()), r.all().len() <= self.all().len() - self.pos(),
            forall|k: int| self.pos() <= k < self.pos() + r.all().len() ==> f.ensures((&#[trigger] self.all()[k],), true),
            self.pos() + r.all().len() < self.all().len() ==> f.ensures((&self.all()[self.pos() + r.all().len()],), false),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn zip<U>(self, o: VIt<U>) -> (r: VIt<(T, U)>)
        ensures
            r.ok(), r.pos() == 0,
            r.all().len() == (if self.all().len() - self.pos() <= o.all().len() - o.pos() { self.all().len() - self.pos() } else { o.all().len() - o.pos() }),
            forall|k: int| 0 <= k < r.all().len() ==> #[trigger] r.all()[k] == (self.all()[self.pos() + k], o.all()[o.pos() + k]),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: VIt<U>)
        requires forall|k: int| self.pos() <= k < self.all().len() ==> f.requires((#[trigger] self.all()[k],)),
        ensures
            r.ok(), r.pos() == 0, r.all().len() == self.all().len() - self.pos(),
            forall|k: int| 0 <= k < r.all().len() ==> f.ensures((self.all()[k + self.pos()],), #[trigger] r.all()[k]),
            forall|i: int| self.pos() <= i < self.all().len() ==> f.ensures((#[trigger] self.all()[i],), r.all()[i - self.pos()]),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn enumerate(self) -> (r: VIt<(usize, T)>)
        ensures
            r.ok(), r.pos() == 0, r.all().len() == self.all().len() - self.pos(),
            forall|k: int| 0 <= k < r.all().len() ==> (#[trigger] r.all()[k]) == (k as usize, self.all()[k + self.pos()]),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn skip(self, n: usize) -> (r: VIt<T>)
        ensures
            r.ok(), r.pos() == 0,
            r.all() == self.all().skip(if self.pos() + n <= self.all().len() { self.pos() + n } else { self.all().len() as int }),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn take(self, n: usize) -> (r: VIt<T>)
        ensures
            r.ok(), r.pos() == 0,
            r.all() == self.all().subrange(self.pos(), if self.pos() + n <= self.all().len() { self.pos() + n } else { self.all().len() as int }),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn rev(self) -> (r: VIt<T>)
        ensures r.ok(), r.pos() == 0, r.all() == self.all().skip(self.pos()).reverse(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn chain(self, o: VIt<T>) -> (r: VIt<T>)
        ensures r.pos() == 0, r.all() == self.all().skip(self.pos()) + o.all().skip(o.pos()),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn v_len(&self) -> (r: usize)
        ensures r == self.all().len() - self.pos(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn count(self) -> (r: usize)
        ensures r == self.all().len() - self.pos(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn nth(&mut self, n: usize) -> (r: Option<T>)
        ensures
            final(self).all() == old(self).all(), final(self).ok(),
            old(self).pos() + n < old(self).all().len() ==> r == Some(old(self).all()[old(self).pos() + n]) && final(self).pos() == old(self).pos() + n + 1,
            old(self).pos() + n >= old(self).all().len() ==> r is None && final(self).pos() == final(self).all().len(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn v_last(self) -> (r: Option<T>)
        ensures
            self.pos() < self.all().len() ==> r == Some(self.all().last()),
            self.pos() >= self.all().len() ==> r is None,
    { unimplemented!() }

    #[verifier::external_body]
    pub fn collect(self) -> (r: Vec<T>)
        ensures r@ == self.all().skip(self.pos()),
    { unimplemented!() }

    /// what is left of the iterator, counted from 0
    #[verifier::external_body]
    pub fn v_into_iter(self) -> (r: VIt<T>)
        ensures
            r.ok(), r.pos() == 0,
            self.pos() == 0 ==> r == self,
            0 <= self.pos() <= self.all().len() ==> r.all() == self.all().skip(self.pos()),
    { unimplemented!() }

    pub fn v_iter(self) -> (r: VIt<T>)
        ensures r == self,
    { self }
}
impl<'a, T: Copy> VIt<&'a T> {
    #[verifier::external_body]
    pub fn copied(self) -> (r: VIt<T>)
        ensures
            r.ok(), r.pos() == 0, r.all().len() == self.all().len() - self.pos(),
            forall|k: int| 0 <= k < r.all().len() ==> (#[trigger] r.all()[k]) == *self.all()[k + self.pos()],
            forall|i: int| self.pos() <= i < self.all().len() ==> r.all()[i - self.pos()] == *#[trigger] self.all()[i],
    { unimplemented!() }
}
impl<'a, T: Clone> VIt<&'a T> {
    #[verifier::external_body]
    pub fn cloned(self) -> (r: VIt<T>)
        ensures
            r.ok(), r.pos() == 0, r.all().len() == self.all().len() - self.pos(),
            forall|k: int| 0 <= k < r.all().len() ==> (#[trigger] r.all()[k]) == *self.all()[k + self.pos()],
            forall|i: int| self.pos() <= i < self.all().len() ==> r.all()[i - self.pos()] == *#[trigger] self.all()[i],
    { unimplemented!() }
}

impl VIt<char> {
    /// of the characters of a text: the rest of it
    #[verifier::external_body]
    pub fn as_str<'a>(&self) -> (r: &'a str)
        ensures r@ == self.all().skip(self.pos()),
    { unimplemented!() }
}
// ---- numbers made from smaller ones (`u16::from(x)` ...)
pub trait VTo<T>: Sized {
    spec fn to_spec(self) -> T;
    fn v_to(self) -> (r: T)
        ensures r == self.to_spec();
}
impl VTo<u8> for bool { open spec fn to_spec(self) -> u8 { if self { 1 } else { 0 } } fn v_to(self) -> (r: u8) { if self { 1 } else { 0 } } }
impl VTo<u16> for bool { open spec fn to_spec(self) -> u16 { if self { 1 } else { 0 } } fn v_to(self) -> (r: u16) { if self { 1 } else { 0 } } }
impl VTo<u32> for bool { open spec fn to_spec(self) -> u32 { if self { 1 } else { 0 } } fn v_to(self) -> (r: u32) { if self { 1 } else { 0 } } }
impl VTo<u64> for bool { open spec fn to_spec(self) -> u64 { if self { 1 } else { 0 } } fn v_to(self) -> (r: u64) { if self { 1 } else { 0 } } }
impl VTo<usize> for bool { open spec fn to_spec(self) -> usize { if self { 1 } else { 0 } } fn v_to(self) -> (r: usize) { if self { 1 } else { 0 } } }
impl VTo<u8> for u8 { open spec fn to_spec(self) -> u8 { self } fn v_to(self) -> (r: u8) { self } }
impl VTo<u16> for u8 { open spec fn to_spec(self) -> u16 { self as u16 } fn v_to(self) -> (r: u16) { self as u16 } }
impl VTo<u32> for u8 { open spec fn to_spec(self) -> u32 { self as u32 } fn v_to(self) -> (r: u32) { self as u32 } }
impl VTo<u64> for u8 { open spec fn to_spec(self) -> u64 { self as u64 } fn v_to(self) -> (r: u64) { self as u64 } }
impl VTo<usize> for u8 { open spec fn to_spec(self) -> usize { self as usize } fn v_to(self) -> (r: usize) { self as usize } }
impl VTo<char> for u8 { open spec fn to_spec(self) -> char { self as char } fn v_to(self) -> (r: char) { self as char } }
impl VTo<u16> for u16 { open spec fn to_spec(self) -> u16 { self } fn v_to(self) -> (r: u16) { self } }
impl VTo<u32> for u16 { open spec fn to_spec(self) -> u32 { self as u32 } fn v_to(self) -> (r: u32) { self as u32 } }
impl VTo<u64> for u16 { open spec fn to_spec(self) -> u64 { self as u64 } fn v_to(self) -> (r: u64) { self as u64 } }
impl VTo<usize> for u16 { open spec fn to_spec(self) -> usize { self as usize } fn v_to(self) -> (r: usize) { self as usize } }
impl VTo<u32> for u32 { open spec fn to_spec(self) -> u32 { self } fn v_to(self) -> (r: u32) { self } }
impl VTo<u64> for u32 { open spec fn to_spec(self) -> u64 { self as u64 } fn v_to(self) -> (r: u64) { self as u64 } }
impl VTo<u64> for u64 { open spec fn to_spec(self) -> u64 { self } fn v_to(self) -> (r: u64) { self } }
impl VTo<usize> for usize { open spec fn to_spec(self) -> usize { self } fn v_to(self) -> (r: usize) { self } }
impl VTo<char> for char { open spec fn to_spec(self) -> char { self } fn v_to(self) -> (r: char) { self } }
impl VTo<u32> for char { open spec fn to_spec(self) -> u32 { self as u32 } fn v_to(self) -> (r: u32) { self as u32 } }
impl VTo<u64> for char { open spec fn to_spec(self) -> u64 { self as u64 } fn v_to(self) -> (r: u64) { self as u64 } }
pub fn u8_from<T: VTo<u8>>(x: T) -> (r: u8)
    ensures r == x.to_spec(),
{ x.v_to() }
pub fn u16_from<T: VTo<u16>>(x: T) -> (r: u16)
    ensures r == x.to_spec(),
{ x.v_to() }
pub fn u32_from<T: VTo<u32>>(x: T) -> (r: u32)
    ensures r == x.to_spec(),
{ x.v_to() }
pub fn u64_from<T: VTo<u64>>(x: T) -> (r: u64)
    ensures r == x.to_spec(),
{ x.v_to() }
pub fn usize_from<T: VTo<usize>>(x: T) -> (r: usize)
    ensures r == x.to_spec(),
{ x.v_to() }
pub fn char_from<T: VTo<char>>(x: T) -> (r: char)
    ensures r == x.to_spec(),
{ x.v_to() }
pub trait VIntoIter: Sized {
    type Item;
    spec fn seq_ok(&self, r: VIt<Self::Item>) -> bool;
    fn v_into_iter(self) -> (r: VIt<Self::Item>) ensures self.seq_ok(r), r.ok(), r.pos() == 0;
}
impl<'a, T> VIntoIter for &'a Vec<T> {
    type Item = &'a T;
    open spec fn seq_ok(&self, r: VIt<&'a T>) -> bool {
        r.all().len() == (*self)@.len() && forall|k: int| 0 <= k < r.all().len() ==> *(#[trigger] r.all()[k]) == (*self)@[k]
    }
    #[verifier::external_body] fn v_into_iter(self) -> (r: VIt<&'a T>) { unimplemented!() }
}
impl<'a, T> VIntoIter for &'a [T] {
    type Item = &'a T;
    open spec fn seq_ok(&self, r: VIt<&'a T>) -> bool {
        r.all().len() == (*self)@.len() && forall|k: int| 0 <= k < r.all().len() ==> *(#[trigger] r.all()[k]) == (*self)@[k]
    }
    #[verifier::external_body] fn v_into_iter(self) -> (r: VIt<&'a T>) { unimplemented!() }
}
impl<'a, T, const N: usize> VIntoIter for &'a [T; N] {
    type Item = &'a T;
    open spec fn seq_ok(&self, r: VIt<&'a T>) -> bool {
        r.all().len() == (*self)@.len() && forall|k: int| 0 <= k < r.all().len() ==> *(#[trigger] r.all()[k]) == (*self)@[k]
    }
    #[verifier::external_body] fn v_into_iter(self) -> (r: VIt<&'a T>) { unimplemented!() }
}
impl<T> VIntoIter for Vec<T> {
    type Item = T;
    open spec fn seq_ok(&self, r: VIt<T>) -> bool { r.all() == self@ }
    #[verifier::external_body] fn v_into_iter(self) -> (r: VIt<T>) { unimplemented!() }
}
impl<T> VIntoIter for Option<T> {
    type Item = T;
    open spec fn seq_ok(&self, r: VIt<T>) -> bool { r.all() == (match *self { Some(x) => seq![x], None => Seq::empty() }) }
    #[verifier::external_body] fn v_into_iter(self) -> (r: VIt<T>) { unimplemented!() }
}

// ------------------------------------------------------------------ slices and vectors

pub trait VExtend<T> {
    spec fn xs(&self) -> Seq<T>;
    fn v_extend(&mut self, it: VIt<T>)
        ensures
            final(self).xs() == old(self).xs() + it.all().skip(it.pos()),
            forall|k: int| #![trigger final(self).xs()[k]] 0 <= k < old(self).xs().len() ==> final(self).xs()[k] == old(self).xs()[k];
}
impl<T> VExtend<T> for Vec<T> {
    open spec fn xs(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn v_extend(&mut self, it: VIt<T>) { unimplemented!() }
}
impl<'a> VExtend<&'a u8> for Vec<u8> {
    open spec fn xs(&self) -> Seq<&'a u8> { self@.map_values(|b: u8| &b) }
    #[verifier::external_body] fn v_extend(&mut self, it: VIt<&'a u8>) { unimplemented!() }
}
impl VExtend<char> for String {
    open spec fn xs(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn v_extend(&mut self, it: VIt<char>) { unimplemented!() }
}

pub trait VSlice<T> {
    spec fn sq(&self) -> Seq<T>;
    fn v_iter<'a>(&'a self) -> (r: VIt<&'a T>)
        ensures r.ok(), r.pos() == 0, r.all().len() == self.sq().len(),
            forall|k: int| #![trigger r.all()[k]] #![trigger self.sq()[k]] 0 <= k < r.all().len() ==> *(r.all()[k]) == self.sq()[k];
    fn v_first<'a>(&'a self) -> (r: Option<&'a T>)
        ensures self.sq().len() == 0 ==> r is None, self.sq().len() > 0 ==> r is Some && *r->0 == self.sq()[0];
    fn v_last<'a>(&'a self) -> (r: Option<&'a T>)
        ensures self.sq().len() == 0 ==> r is None, self.sq().len() > 0 ==> r is Some && *r->0 == self.sq().last();
    fn v_get<'a>(&'a self, i: usize) -> (r: Option<&'a T>)
        ensures self.sq().len() <= i ==> r is None, self.sq().len() > i ==> r is Some && *r->0 == self.sq()[i as int];
    fn v_is_empty(&self) -> (r: bool) ensures r == (self.sq().len() == 0);
    /// no vector or slice of values that take room is longer than isize::MAX
    fn v_len(&self) -> (r: usize) ensures r == self.sq().len(), r <= isize::MAX;
    fn v_split_first<'a>(&'a self) -> (r: Option<(&'a T, &'a [T])>)
        ensures self.sq().len() == 0 ==> r is None,
            self.sq().len() > 0 ==> r is Some && *(r->0).0 == self.sq()[0] && (r->0).1@ == self.sq().skip(1);
    fn v_split_last<'a>(&'a self) -> (r: Option<(&'a T, &'a [T])>)
        ensures self.sq().len() == 0 ==> r is None,
            self.sq().len() > 0 ==> r is Some && *(r->0).0 == self.sq().last() && (r->0).1@ == self.sq().drop_last();
    fn v_chunks<'a>(&'a self, n: usize) -> (r: VIt<&'a [T]>)
        requires n > 0, // [panic]
        ensures r.ok(), r.pos() == 0, views(r.all()) == chunks_of(self.sq(), n as int), r.all().len() == views(r.all()).len(),
            forall|k: int| #![trigger r.all()[k]] 0 <= k < r.all().len() ==> 1 <= r.all()[k]@.len() <= n && r.all()[k]@ == chunks_of(self.sq(), n as int)[k];
}
pub open spec fn views<T>(v: Seq<&[T]>) -> Seq<Seq<T>> { v.map_values(|x: &[T]| x@) }
pub open spec fn chunks_of<T>(s: Seq<T>, n: int) -> Seq<Seq<T>>
    decreases s.len()
{ if n <= 0 || s.len() == 0 { Seq::empty() } else if s.len() <= n { seq![s] } else { seq![s.take(n)] + chunks_of(s.skip(n), n) } }
impl<T> VSlice<T> for [T] {
    open spec fn sq(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn v_iter<'a>(&'a self) -> (r: VIt<&'a T>) { unimplemented!() }
    #[verifier::external_body] fn v_first<'a>(&'a self) -> (r: Option<&'a T>) { unimplemented!() }
    #[verifier::external_body] fn v_last<'a>(&'a self) -> (r: Option<&'a T>) { unimplemented!() }
    #[verifier::external_body] fn v_get<'a>(&'a self, i: usize) -> (r: Option<&'a T>) { unimplemented!() }
    #[verifier::external_body] fn v_is_empty(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn v_split_first<'a>(&'a self) -> (r: Option<(&'a T, &'a [T])>) { unimplemented!() }
    #[verifier::external_body] fn v_split_last<'a>(&'a self) -> (r: Option<(&'a T, &'a [T])>) { unimplemented!() }
    #[verifier::external_body] fn v_chunks<'a>(&'a self, n: usize) -> (r: VIt<&'a [T]>) { unimplemented!() }
}
pub trait VVec<T> {
    spec fn vsq(&self) -> Seq<T>;
    fn v_contains(&self, x: &T) -> (r: bool) ensures vec_contains_ok(self.vsq(), x, r);
}
/// `==` of the element type; for the types used it is equality of the values.
pub uninterp spec fn elem_eq<T>(a: T, b: T) -> bool;
pub open spec fn vec_contains_ok<T>(s: Seq<T>, x: &T, r: bool) -> bool {
    r == has_elem(s, *x)
}
pub open spec fn has_elem<T>(s: Seq<T>, x: T) -> bool { exists|k: int| 0 <= k < s.len() && elem_eq(#[trigger] s[k], x) }
pub broadcast proof fn has_elem_push<T>(s: Seq<T>, a: T, x: T)
    ensures #[trigger] has_elem(s.push(a), x) == (has_elem(s, x) || elem_eq(a, x)),
{
    let t = s.push(a);
    if has_elem(s, x) { let k = choose|k: int| 0 <= k < s.len() && elem_eq(#[trigger] s[k], x); assert(t[k] == s[k]); }
    if elem_eq(a, x) { assert(t[s.len() as int] == a); }
    if has_elem(t, x) { let k = choose|k: int| 0 <= k < t.len() && elem_eq(#[trigger] t[k], x); if k < s.len() { assert(s[k] == t[k]); } }
}
pub broadcast proof fn has_elem_none<T>(s: Seq<T>, x: T)
    ensures s.len() == 0 ==> !(#[trigger] has_elem(s, x)),
{}
#[verifier::external_body]
pub broadcast proof fn elem_eq_str(a: &str, b: &str)
    ensures #[trigger] elem_eq::<&str>(a, b) == (a@ == b@),
{}
#[verifier::external_body]
pub broadcast proof fn elem_eq_string(a: String, b: String)
    ensures #[trigger] elem_eq::<String>(a, b) == (a@ == b@),
{}
#[verifier::external_body]
pub broadcast proof fn elem_eq_u8(a: u8, b: u8)
    ensures #[trigger] elem_eq::<u8>(a, b) == (a == b),
{}
#[verifier::external_body]
pub broadcast proof fn elem_eq_char(a: char, b: char)
    ensures #[trigger] elem_eq::<char>(a, b) == (a == b),
{}
pub broadcast group auto { question_mark, has_elem_push, has_elem_none, skip_skip, starts_few, elem_eq_str, elem_eq_string, elem_eq_u8, elem_eq_char }
impl<T> VVec<T> for [T] {
    open spec fn vsq(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn v_contains(&self, x: &T) -> (r: bool) { unimplemented!() }
}

pub trait VRangeSlice<T> {
    spec fn rsq(&self) -> Seq<T>;
    fn v_range<'a>(&'a self, a: usize, b: usize) -> (r: &'a [T])
        requires a <= b <= self.rsq().len(), // [panic]
        ensures r@ == self.rsq().subrange(a as int, b as int);
    fn v_from<'a>(&'a self, a: usize) -> (r: &'a [T])
        requires a <= self.rsq().len(), // [panic]
        ensures r@ == self.rsq().subrange(a as int, self.rsq().len() as int);
    fn v_upto<'a>(&'a self, b: usize) -> (r: &'a [T])
        requires b <= self.rsq().len(), // [panic]
        ensures r@ == self.rsq().subrange(0, b as int);
    fn v_split_at<'a>(&'a self, b: usize) -> (r: (&'a [T], &'a [T]))
        requires b <= self.rsq().len(), // [panic]
        ensures r.0@ == self.rsq().subrange(0, b as int), r.1@ == self.rsq().subrange(b as int, self.rsq().len() as int);
}
impl<T> VRangeSlice<T> for [T] {
    open spec fn rsq(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn v_range<'a>(&'a self, a: usize, b: usize) -> (r: &'a [T]) { unimplemented!() }
    #[verifier::external_body] fn v_from<'a>(&'a self, a: usize) -> (r: &'a [T]) { unimplemented!() }
    #[verifier::external_body] fn v_upto<'a>(&'a self, b: usize) -> (r: &'a [T]) { unimplemented!() }
    #[verifier::external_body] fn v_split_at<'a>(&'a self, b: usize) -> (r: (&'a [T], &'a [T])) { unimplemented!() }
}

// ------------------------------------------------------------------ Option, Result

pub trait VOpt<T> {
    fn v_as_ref<'a>(&'a self) -> (r: Option<&'a T>);
}
impl<T> VOpt<T> for Option<T> {
    fn v_as_ref<'a>(&'a self) -> (r: Option<&'a T>)
        ensures r == (match *self { Some(x) => Some(&x), None => None }),
    { match self { Some(x) => Some(x), None => None } }
}
pub trait VRes<T> {
    fn v_unwrap_or_default(self) -> (r: T);
}
impl VRes<String> for Option<String> {
    #[verifier::external_body]
    fn v_unwrap_or_default(self) -> (r: String)
        ensures self is Some ==> r == self->0, self is None ==> r@.len() == 0,
    { unimplemented!() }
}
impl<'a> VRes<&'a str> for Option<&'a str> {
    #[verifier::external_body]
    fn v_unwrap_or_default(self) -> (r: &'a str)
        ensures self is Some ==> r == self->0, self is None ==> r@.len() == 0,
    { unimplemented!() }
}
pub trait VString {
    fn v_as_deref<'a>(&'a self) -> (r: Option<&'a str>);
}
impl VString for Option<String> {
    #[verifier::external_body]
    fn v_as_deref<'a>(&'a self) -> (r: Option<&'a str>)
        ensures self is Some ==> r is Some && r->0@ == self->0@, self is None ==> r is None,
    { unimplemented!() }
}

// ------------------------------------------------------------------ str

pub open spec fn first_non_ws(s: Seq<char>, k: int) -> int
    decreases s.len() - k
{ if k < 0 || k >= s.len() { s.len() as int } else if !c_ws(s[k]) { k } else { first_non_ws(s, k + 1) } }
pub open spec fn first_ws(s: Seq<char>, k: int) -> int
    decreases s.len() - k
{ if k < 0 || k >= s.len() { s.len() as int } else if c_ws(s[k]) { k } else { first_ws(s, k + 1) } }
/// The maximal runs of non-white-space characters from position k on.
pub open spec fn words_from(s: Seq<char>, k: int) -> Seq<Seq<char>>
    decreases s.len() - k
{
    let a = first_non_ws(s, k);
    let b = first_ws(s, a);
    if k < 0 || k >= s.len() || a < k || a >= s.len() || b <= a || b > s.len() { Seq::empty() }
    else { seq![s.subrange(a, b)] + words_from(s, b) }
}
pub open spec fn words(s: Seq<char>) -> Seq<Seq<char>> { words_from(s, 0) }
pub open spec fn upper_seq(s: Seq<char>) -> Seq<char> { s.map_values(|c: char| upper(c)) }
pub open spec fn lower_seq(s: Seq<char>) -> Seq<char> { s.map_values(|c: char| lower(c)) }
pub open spec fn starts(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && forall|k: int| 0 <= k < p.len() ==> s[k] == #[trigger] p[k] }
/// the first two characters are looked at one by one
pub broadcast proof fn starts_few(s: Seq<char>, p: Seq<char>)
    requires p.len() <= 2,
    ensures #[trigger] starts(s, p) == (p.len() <= s.len() && (p.len() >= 1 ==> s[0] == p[0]) && (p.len() >= 2 ==> s[1] == p[1])),
{
    if p.len() <= s.len() && (p.len() >= 1 ==> s[0] == p[0]) && (p.len() >= 2 ==> s[1] == p[1]) {
        assert forall|k: int| 0 <= k < p.len() implies s[k] == #[trigger] p[k] by { if k == 0 { } else { assert(k == 1); } }
    } else if p.len() <= s.len() {
        let a = p[0]; 
        if p.len() >= 1 && s[0] != p[0] { assert(!starts(s, p)); } else { let b = p[1]; assert(!starts(s, p)); }
    }
}
pub open spec fn ends(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.skip(s.len() - p.len()) == p }
/// k is the character index of the byte offset `at`
pub open spec fn at_off(s: Seq<char>, k: int, at: int) -> bool { 0 <= k <= s.len() && blen(s.take(k)) == at }

pub broadcast proof fn at_off_inj(s: Seq<char>, i: int, j: int, at: int)
    ensures #![trigger at_off(s, i, at), at_off(s, j, at)] at_off(s, i, at) && at_off(s, j, at) ==> i == j,
{
    if at_off(s, i, at) && at_off(s, j, at) && i != j {
        let (a, b) = if i < j { (i, j) } else { (j, i) };
        assert(s.take(b) =~= s.take(a) + s.subrange(a, b));
        utf8_cat(s.take(a), s.subrange(a, b));
        utf8_len(s.subrange(a, b));
    }
}

/// What the methods of str take as a pattern: a closure, a character, several characters or a text.
pub trait VPat: Sized {
    spec fn takes(&self, c: char) -> bool;
    /// `b` tells whether the pattern matches at character `k`
    spec fn at(&self, s: Seq<char>, k: int, b: bool) -> bool;
    spec fn end(&self, s: Seq<char>, b: bool) -> bool;
    spec fn size(&self) -> int;
}
impl<F: Fn(char) -> bool> VPat for F {
    open spec fn takes(&self, c: char) -> bool { self.requires((c,)) }
    open spec fn at(&self, s: Seq<char>, k: int, b: bool) -> bool { if 0 <= k < s.len() { self.ensures((s[k],), b) } else { !b } }
    open spec fn end(&self, s: Seq<char>, b: bool) -> bool { if s.len() > 0 { self.ensures((s.last(),), b) } else { !b } }
    open spec fn size(&self) -> int { 1 }
}
impl VPat for char {
    open spec fn takes(&self, c: char) -> bool { true }
    open spec fn at(&self, s: Seq<char>, k: int, b: bool) -> bool { b == (0 <= k < s.len() && s[k] == *self) }
    open spec fn end(&self, s: Seq<char>, b: bool) -> bool { b == (s.len() > 0 && s.last() == *self) }
    open spec fn size(&self) -> int { 1 }
}
impl<const N: usize> VPat for [char; N] {
    open spec fn takes(&self, c: char) -> bool { true }
    open spec fn at(&self, s: Seq<char>, k: int, b: bool) -> bool { b == (0 <= k < s.len() && self@.contains(s[k])) }
    open spec fn end(&self, s: Seq<char>, b: bool) -> bool { b == (s.len() > 0 && self@.contains(s.last())) }
    open spec fn size(&self) -> int { 1 }
}
impl<'p> VPat for &'p [char] {
    open spec fn takes(&self, c: char) -> bool { true }
    open spec fn at(&self, s: Seq<char>, k: int, b: bool) -> bool { b == (0 <= k < s.len() && self@.contains(s[k])) }
    open spec fn end(&self, s: Seq<char>, b: bool) -> bool { b == (s.len() > 0 && self@.contains(s.last())) }
    open spec fn size(&self) -> int { 1 }
}
impl<'p> VPat for &'p str {
    open spec fn takes(&self, c: char) -> bool { true }
    open spec fn at(&self, s: Seq<char>, k: int, b: bool) -> bool { b == starts(if k == 0 { s } else { s.skip(k) }, self@) }
    open spec fn end(&self, s: Seq<char>, b: bool) -> bool { b == ends(s, self@) }
    open spec fn size(&self) -> int { self@.len() as int }
}
impl<'p> VPat for &'p String {
    open spec fn takes(&self, c: char) -> bool { true }
    open spec fn at(&self, s: Seq<char>, k: int, b: bool) -> bool { b == starts(if k == 0 { s } else { s.skip(k) }, self@) }
    open spec fn end(&self, s: Seq<char>, b: bool) -> bool { b == ends(s, self@) }
    open spec fn size(&self) -> int { self@.len() as int }
}
pub open spec fn ascii_only(s: Seq<char>) -> bool { forall|k: int| 0 <= k < s.len() ==> s_is_ascii(#[trigger] s[k]) }
/// `r` is the part of `s` from `a` up to `b`.
pub open spec fn cut(s: Seq<char>, r: Seq<char>, a: int, b: int) -> bool { 0 <= a <= b <= s.len() && r == s.subrange(a, b) }
pub trait VStr {
    spec fn st(&self) -> Seq<char>;
    fn v_is_empty(&self) -> (r: bool) ensures r == (self.st().len() == 0);
    fn v_len(&self) -> (r: usize) ensures r == blen(self.st()), r <= isize::MAX;
    fn v_chars(&self) -> (r: VIt<char>) ensures r.ok(), r.pos() == 0, r.all() == self.st();
    fn v_char_indices(&self) -> (r: VIt<(usize, char)>)
        ensures r.ok(), r.pos() == 0, r.all().len() == self.st().len(),
            forall|k: int| 0 <= k < r.all().len() ==> (#[trigger] r.all()[k]).1 == self.st()[k] && r.all()[k].0 == blen(self.st().take(k));
    fn v_as_bytes<'a>(&'a self) -> (r: &'a [u8]) ensures r@ == utf8(self.st());
    fn v_bytes(&self) -> (r: VIt<u8>) ensures r.ok(), r.pos() == 0, r.all() == utf8(self.st());
    fn v_split_whitespace<'a>(&'a self) -> (r: VIt<&'a str>)
        ensures r.ok(), r.pos() == 0, r.all().len() == words(self.st()).len(),
            forall|k: int| 0 <= k < r.all().len() ==> (#[trigger] r.all()[k])@ == words(self.st())[k];
    fn v_find<F: Fn(char) -> bool>(&self, f: F) -> (r: Option<usize>)
        requires forall|k: int| 0 <= k < self.st().len() ==> f.requires((#[trigger] self.st()[k],)),
        ensures
            r is Some ==> exists|k: int| #[trigger] at_off(self.st(), k, r->0 as int) && k < self.st().len()
                && f.ensures((self.st()[k],), true)
                && forall|j: int| 0 <= j < k ==> f.ensures((#[trigger] self.st()[j],), false),
            r is None ==> forall|k: int| 0 <= k < self.st().len() ==> f.ensures((#[trigger] self.st()[k],), false);
    fn v_contains_by<F: Fn(char) -> bool>(&self, f: F) -> (r: bool)
        requires forall|k: int| 0 <= k < self.st().len() ==> f.requires((#[trigger] self.st()[k],)),
        ensures
            r ==> exists|k: int| 0 <= k < self.st().len() && f.ensures((#[trigger] self.st()[k],), true),
            !r ==> forall|k: int| 0 <= k < self.st().len() ==> f.ensures((#[trigger] self.st()[k],), false);
    fn v_starts_with_by<F: Fn(char) -> bool>(&self, f: F) -> (r: bool)
        requires self.st().len() > 0 ==> f.requires((self.st()[0],)),
        ensures if self.st().len() > 0 { f.ensures((self.st()[0],), r) } else { !r };
    fn v_ends_with_by<F: Fn(char) -> bool>(&self, f: F) -> (r: bool)
        requires self.st().len() > 0 ==> f.requires((self.st().last(),)),
        ensures if self.st().len() > 0 { f.ensures((self.st().last(),), r) } else { !r };
    fn v_strip_prefix_by<'a, F: Fn(char) -> bool>(&'a self, f: F) -> (r: Option<&'a str>)
        requires self.st().len() > 0 ==> f.requires((self.st()[0],)),
        ensures if self.st().len() > 0 { f.ensures((self.st()[0],), r is Some) } else { r is None }, r is Some ==> r->0@ == self.st().skip(1);
    fn v_strip_suffix_by<'a, F: Fn(char) -> bool>(&'a self, f: F) -> (r: Option<&'a str>)
        requires self.st().len() > 0 ==> f.requires((self.st().last(),)),
        ensures if self.st().len() > 0 { f.ensures((self.st().last(),), r is Some) } else { r is None }, r is Some ==> r->0@ == self.st().drop_last();
    fn v_find_p<P: VPat>(&self, p: P) -> (r: Option<usize>)
        requires forall|k: int| 0 <= k < self.st().len() ==> p.takes(#[trigger] self.st()[k]),
        ensures
            r is Some ==> exists|k: int| #[trigger] at_off(self.st(), k, r->0 as int) && k <= self.st().len()
                && p.at(self.st(), k, true)
                && forall|j: int| 0 <= j < k ==> #[trigger] p.at(self.st(), j, false),
            r is None ==> forall|k: int| 0 <= k <= self.st().len() ==> #[trigger] p.at(self.st(), k, false);
    fn v_contains<P: VPat>(&self, p: P) -> (r: bool)
        requires forall|k: int| 0 <= k < self.st().len() ==> p.takes(#[trigger] self.st()[k]),
        ensures
            r ==> exists|k: int| 0 <= k <= self.st().len() && #[trigger] p.at(self.st(), k, true),
            !r ==> forall|k: int| 0 <= k <= self.st().len() ==> #[trigger] p.at(self.st(), k, false);
    fn v_to_ascii_uppercase(&self) -> (r: String) ensures r@ == upper_seq(self.st());
    fn v_to_ascii_lowercase(&self) -> (r: String) ensures r@ == lower_seq(self.st());
    fn v_eq_ignore_ascii_case(&self, o: &str) -> (r: bool) ensures r == (upper_seq(self.st()) == upper_seq(o@));
    fn v_starts_with<P: VPat>(&self, p: P) -> (r: bool)
        requires self.st().len() > 0 ==> p.takes(self.st()[0]),
        ensures p.at(self.st(), 0, r);
    fn v_ends_with<P: VPat>(&self, p: P) -> (r: bool)
        requires self.st().len() > 0 ==> p.takes(self.st().last()),
        ensures p.end(self.st(), r);
    fn v_strip_prefix<'a, P: VPat>(&'a self, p: P) -> (r: Option<&'a str>)
        requires self.st().len() > 0 ==> p.takes(self.st()[0]),
        ensures p.at(self.st(), 0, r is Some), r is Some ==> r->0@ == self.st().skip(p.size());
    fn v_strip_suffix<'a, P: VPat>(&'a self, p: P) -> (r: Option<&'a str>)
        requires self.st().len() > 0 ==> p.takes(self.st().last()),
        ensures p.end(self.st(), r is Some), r is Some ==> r->0@ == self.st().take(self.st().len() - p.size());
    fn v_replace(&self, a: &str, b: &str) -> (r: String);
    fn v_trim<'a>(&'a self) -> (r: &'a str)
        ensures exists|a: int, b: int| #[trigger] cut(self.st(), r@, a, b)
            && (forall|k: int| 0 <= k < a || b <= k < self.st().len() ==> c_ws(#[trigger] self.st()[k]))
            && (a < b ==> !c_ws(self.st()[a]) && !c_ws(self.st()[b - 1]));
    fn v_trim_end<'a>(&'a self) -> (r: &'a str)
        ensures exists|b: int| #[trigger] cut(self.st(), r@, 0, b)
            && (forall|k: int| b <= k < self.st().len() ==> c_ws(#[trigger] self.st()[k]))
            && (0 < b ==> !c_ws(self.st()[b - 1]));
    fn v_trim_start<'a>(&'a self) -> (r: &'a str)
        ensures exists|a: int| #[trigger] cut(self.st(), r@, a, self.st().len() as int)
            && (forall|k: int| 0 <= k < a ==> c_ws(#[trigger] self.st()[k]))
            && (a < self.st().len() ==> !c_ws(self.st()[a]));
    fn v_trim_matches<'a, P: VPat>(&'a self, p: P) -> (r: &'a str)
        requires forall|k: int| 0 <= k < self.st().len() ==> p.takes(#[trigger] self.st()[k]),
        ensures p.size() == 1 ==> exists|a: int, b: int| #[trigger] cut(self.st(), r@, a, b)
            && (forall|k: int| 0 <= k < a || b <= k < self.st().len() ==> #[trigger] p.at(self.st(), k, true))
            && (a < b ==> p.at(self.st(), a, false) && p.at(self.st(), b - 1, false));
    fn v_trim_end_matches<'a, P: VPat>(&'a self, p: P) -> (r: &'a str)
        requires forall|k: int| 0 <= k < self.st().len() ==> p.takes(#[trigger] self.st()[k]),
        ensures p.size() == 1 ==> exists|b: int| #[trigger] cut(self.st(), r@, 0, b)
            && (forall|k: int| b <= k < self.st().len() ==> #[trigger] p.at(self.st(), k, true))
            && (0 < b ==> p.at(self.st(), b - 1, false));
    fn v_trim_start_matches<'a, P: VPat>(&'a self, p: P) -> (r: &'a str)
        requires forall|k: int| 0 <= k < self.st().len() ==> p.takes(#[trigger] self.st()[k]),
        ensures p.size() == 1 ==> exists|a: int| #[trigger] cut(self.st(), r@, a, self.st().len() as int)
            && (forall|k: int| 0 <= k < a ==> #[trigger] p.at(self.st(), k, true))
            && (a < self.st().len() ==> p.at(self.st(), a, false));
    fn v_rfind<P: VPat>(&self, p: P) -> (r: Option<usize>)
        requires forall|k: int| 0 <= k < self.st().len() ==> p.takes(#[trigger] self.st()[k]),
        ensures
            r is Some ==> exists|k: int| #[trigger] at_off(self.st(), k, r->0 as int) && k <= self.st().len()
                && p.at(self.st(), k, true)
                && forall|j: int| k < j <= self.st().len() ==> #[trigger] p.at(self.st(), j, false),
            r is None ==> forall|k: int| 0 <= k <= self.st().len() ==> #[trigger] p.at(self.st(), k, false);
    fn v_split_once<'a, P: VPat>(&'a self, p: P) -> (r: Option<(&'a str, &'a str)>)
        requires forall|k: int| 0 <= k < self.st().len() ==> p.takes(#[trigger] self.st()[k]),
        ensures
            r is Some ==> exists|k: int| 0 <= k <= self.st().len() && #[trigger] p.at(self.st(), k, true)
                && (r->0).0@ == self.st().take(k) && (r->0).1@ == self.st().skip(k + p.size())
                && forall|j: int| 0 <= j < k ==> #[trigger] p.at(self.st(), j, false),
            r is None ==> forall|k: int| 0 <= k <= self.st().len() ==> #[trigger] p.at(self.st(), k, false);
    fn v_rsplit_once<'a, P: VPat>(&'a self, p: P) -> (r: Option<(&'a str, &'a str)>)
        requires forall|k: int| 0 <= k < self.st().len() ==> p.takes(#[trigger] self.st()[k]),
        ensures
            r is Some ==> exists|k: int| 0 <= k <= self.st().len() && #[trigger] p.at(self.st(), k, true)
                && (p.size() == 1 ==> (r->0).0@ == self.st().take(k) && (r->0).1@ == self.st().skip(k + 1)
                    && forall|j: int| k < j <= self.st().len() ==> #[trigger] p.at(self.st(), j, false)),
            r is None ==> forall|k: int| 0 <= k <= self.st().len() ==> #[trigger] p.at(self.st(), k, false);
    fn v_to_owned(&self) -> (r: String) ensures r@ == self.st();
    fn v_is_ascii(&self) -> (r: bool) ensures r == ascii_only(self.st());
}
impl VStr for str {
    open spec fn st(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn v_is_empty(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn v_chars(&self) -> (r: VIt<char>) { unimplemented!() }
    #[verifier::external_body] fn v_char_indices(&self) -> (r: VIt<(usize, char)>) { unimplemented!() }
    #[verifier::external_body] fn v_as_bytes<'a>(&'a self) -> (r: &'a [u8]) { unimplemented!() }
    #[verifier::external_body] fn v_bytes(&self) -> (r: VIt<u8>) { unimplemented!() }
    #[verifier::external_body] fn v_split_whitespace<'a>(&'a self) -> (r: VIt<&'a str>) { unimplemented!() }
    #[verifier::external_body] fn v_find<F: Fn(char) -> bool>(&self, f: F) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn v_contains_by<F: Fn(char) -> bool>(&self, f: F) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_starts_with_by<F: Fn(char) -> bool>(&self, f: F) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_ends_with_by<F: Fn(char) -> bool>(&self, f: F) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_strip_prefix_by<'a, F: Fn(char) -> bool>(&'a self, f: F) -> (r: Option<&'a str>) { unimplemented!() }
    #[verifier::external_body] fn v_strip_suffix_by<'a, F: Fn(char) -> bool>(&'a self, f: F) -> (r: Option<&'a str>) { unimplemented!() }
    #[verifier::external_body] fn v_find_p<P: VPat>(&self, p: P) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn v_to_ascii_uppercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_to_ascii_lowercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_eq_ignore_ascii_case(&self, o: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_contains<P: VPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_starts_with<P: VPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_ends_with<P: VPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_strip_prefix<'a, P: VPat>(&'a self, p: P) -> (r: Option<&'a str>) { unimplemented!() }
    #[verifier::external_body] fn v_strip_suffix<'a, P: VPat>(&'a self, p: P) -> (r: Option<&'a str>) { unimplemented!() }
    #[verifier::external_body] fn v_replace(&self, a: &str, b: &str) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_trim<'a>(&'a self) -> (r: &'a str) { unimplemented!() }
    #[verifier::external_body] fn v_trim_end<'a>(&'a self) -> (r: &'a str) { unimplemented!() }
    #[verifier::external_body] fn v_trim_start<'a>(&'a self) -> (r: &'a str) { unimplemented!() }
    #[verifier::external_body] fn v_trim_matches<'a, P: VPat>(&'a self, p: P) -> (r: &'a str) { unimplemented!() }
    #[verifier::external_body] fn v_trim_end_matches<'a, P: VPat>(&'a self, p: P) -> (r: &'a str) { unimplemented!() }
    #[verifier::external_body] fn v_trim_start_matches<'a, P: VPat>(&'a self, p: P) -> (r: &'a str) { unimplemented!() }
    #[verifier::external_body] fn v_rfind<P: VPat>(&self, p: P) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn v_split_once<'a, P: VPat>(&'a self, p: P) -> (r: Option<(&'a str, &'a str)>) { unimplemented!() }
    #[verifier::external_body] fn v_rsplit_once<'a, P: VPat>(&'a self, p: P) -> (r: Option<(&'a str, &'a str)>) { unimplemented!() }
    #[verifier::external_body] fn v_to_owned(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_is_ascii(&self) -> (r: bool) { unimplemented!() }
}
/// Byte offset `b` lies on a character boundary of `s`.
pub open spec fn off_ok(s: Seq<char>, b: int) -> bool { exists|i: int| #[trigger] at_off(s, i, b) }
pub open spec fn off_ok2(s: Seq<char>, a: int, b: int) -> bool {
    exists|i: int, j: int| #[trigger] at_off(s, i, a) && #[trigger] at_off(s, j, b) && i <= j
}
pub trait VRangeStr {
    spec fn rst(&self) -> Seq<char>;
    fn v_range<'a>(&'a self, a: usize, b: usize) -> (r: &'a str)
        requires off_ok2(self.rst(), a as int, b as int), // [panic]
        ensures r@.len() <= self.rst().len(), forall|i: int, j: int| #[trigger] at_off(self.rst(), i, a as int) && #[trigger] at_off(self.rst(), j, b as int) ==> r@ == self.rst().subrange(i, j);
    fn v_from<'a>(&'a self, a: usize) -> (r: &'a str)
        requires off_ok(self.rst(), a as int), // [panic]
        ensures r@.len() <= self.rst().len(), forall|i: int| #[trigger] at_off(self.rst(), i, a as int) ==> r@ == self.rst().skip(i);
    fn v_upto<'a>(&'a self, b: usize) -> (r: &'a str)
        requires off_ok(self.rst(), b as int), // [panic]
        ensures r@.len() <= self.rst().len(), forall|j: int| #[trigger] at_off(self.rst(), j, b as int) ==> r@ == self.rst().take(j);
    fn v_split_at<'a>(&'a self, b: usize) -> (r: (&'a str, &'a str))
        requires off_ok(self.rst(), b as int), // [panic]
        ensures forall|j: int| #[trigger] at_off(self.rst(), j, b as int) ==> r.0@ == self.rst().take(j) && r.1@ == self.rst().skip(j);
}
impl VRangeStr for str {
    open spec fn rst(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn v_range<'a>(&'a self, a: usize, b: usize) -> (r: &'a str) { unimplemented!() }
    #[verifier::external_body] fn v_from<'a>(&'a self, a: usize) -> (r: &'a str) { unimplemented!() }
    #[verifier::external_body] fn v_upto<'a>(&'a self, b: usize) -> (r: &'a str) { unimplemented!() }
    #[verifier::external_body] fn v_split_at<'a>(&'a self, b: usize) -> (r: (&'a str, &'a str)) { unimplemented!() }
}

pub fn cmp_min(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
pub fn cmp_max(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { b } else { a } { if a <= b { b } else { a } }
pub assume_specification<T>[Option::<T>::or](a: Option<T>, b: Option<T>) -> (r: Option<T>) ensures r == (if a is Some { a } else { b });
pub assume_specification<T>[Option::<T>::xor](a: Option<T>, b: Option<T>) -> (r: Option<T>)
    ensures r == (if a is Some && b is None { a } else if a is None && b is Some { b } else { None });
pub assume_specification<'a, T: Copy>[Option::<&'a T>::copied](a: Option<&'a T>) -> (r: Option<T>) ensures r == (match a { Some(x) => Some(*x), None => None });
pub assume_specification<T>[Option::<T>::replace](a: &mut Option<T>, x: T) -> (r: Option<T>) ensures r == *old(a), *final(a) == Some(x);
pub assume_specification<T, U>[Option::<T>::zip](a: Option<T>, b: Option<U>) -> (r: Option<(T, U)>)
    ensures r == (if a is Some && b is Some { Some((a->0, b->0)) } else { None });
pub assume_specification<T>[Option::<Option<T>>::flatten](a: Option<Option<T>>) -> (r: Option<T>) ensures r == (match a { Some(x) => x, None => None });
pub assume_specification<T, E>[Option::<Result<T, E>>::transpose](a: Option<Result<T, E>>) -> (r: Result<Option<T>, E>)
    ensures r == (match a { Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e), None => Ok(None) });
pub assume_specification<T>[bool::then_some](b: bool, x: T) -> (r: Option<T>) ensures r == (if b { Some(x) } else { None });
pub assume_specification<T>[core::mem::replace](a: &mut T, x: T) -> (r: T) ensures r == *old(a), *final(a) == x;
pub assume_specification<T>[core::slice::from_ref](a: &T) -> (r: &[T]) ensures r@ == seq![*a];
pub assume_specification<T: core::default::Default>[core::mem::take](a: &mut T) -> (r: T) ensures r == *old(a), call_ensures(T::default, (), *final(a));

#[verifier::external_body]
pub fn string_with_capacity(n: usize) -> (r: String)
    ensures r@.len() == 0,
{ unimplemented!() }

#[verifier::external_body]
pub fn string_from(s: &str) -> (r: String)
    ensures r@ == s@,
{ unimplemented!() }

#[verifier::external_body]
pub fn string_from_utf8(v: Vec<u8>) -> (r: Result<String, crate::shim::std::string::FromUtf8Error>)
    ensures
        vstd::utf8::valid_utf8(v@) ==> r is Ok && utf8(r->Ok_0@) == v@ && r->Ok_0@ == vstd::utf8::decode_utf8(v@),
        !vstd::utf8::valid_utf8(v@) ==> r is Err,
{ unimplemented!() }

/// Only used in log statements, which are dropped.
#[verifier::external_body]
pub fn string_from_utf8_lossy(v: &[u8]) -> (r: String) { unimplemented!() }

// ------------------------------------------------------------------ formatting

pub open spec fn digit(n: int) -> char { ((48 + n) as u8) as char }
pub open spec fn dec(n: int) -> Seq<char>
    decreases n
{ if n < 10 { seq![digit(n)] } else { dec(n / 10).push(digit(n % 10)) } }
pub open spec fn hex_up(n: int) -> char { if n < 10 { ((48 + n) as u8) as char } else { ((55 + n) as u8) as char } }
pub open spec fn hex2(b: u8) -> Seq<char> { seq![hex_up(b as int / 16), hex_up(b as int % 16)] }

/// What Debug prints.
pub uninterp spec fn dbg<T: ?Sized>(x: &T) -> Seq<char>;
#[verifier::external_body]
pub fn fmt_debug<T: ?Sized>(x: &T, f: &mut crate::shim::std::fmt::Formatter) -> (r: Result<(), crate::shim::std::fmt::Error>)
    ensures r is Ok ==> final(f).out() == old(f).out() + dbg(x), r is Err ==> old(f).fails(), final(f).fails() == old(f).fails(),
{ unimplemented!() }
#[verifier::external_body]
pub fn fmt_hex2_upper(x: &u8, f: &mut crate::shim::std::fmt::Formatter) -> (r: Result<(), crate::shim::std::fmt::Error>)
    ensures r is Ok ==> final(f).out() == old(f).out() + hex2(*x), r is Err ==> old(f).fails(), final(f).fails() == old(f).fails(),
{ unimplemented!() }
#[verifier::external_body]
pub fn fmt_hex2_lower(x: &u8, f: &mut crate::shim::std::fmt::Formatter) -> (r: Result<(), crate::shim::std::fmt::Error>)
    ensures r is Err ==> old(f).fails(), final(f).fails() == old(f).fails(),
{ unimplemented!() }
#[verifier::external_body]
pub fn fmt_hex_upper(x: &u8, f: &mut crate::shim::std::fmt::Formatter) -> (r: Result<(), crate::shim::std::fmt::Error>)
    ensures r is Err ==> old(f).fails(), final(f).fails() == old(f).fails(),
        r is Ok ==> final(f).out() == old(f).out() + (if *x < 16 { seq![hex_up(*x as int)] } else { hex2(*x) }),
{ unimplemented!() }
#[verifier::external_body]
pub fn fmt_hex_lower(x: &u8, f: &mut crate::shim::std::fmt::Formatter) -> (r: Result<(), crate::shim::std::fmt::Error>)
    ensures r is Err ==> old(f).fails(), final(f).fails() == old(f).fails(),
{ unimplemented!() }

/// format! and to_string panic if an implementation of Display returns an error.
pub fn must(r: Result<(), crate::shim::std::fmt::Error>, f: &crate::shim::std::fmt::Formatter)
    requires r is Ok, // [panic]
{ }

pub trait VToString {
    spec fn ts(&self) -> Seq<char>;
    fn v_to_string(&self) -> (r: String) ensures r@ == self.ts();
}
impl<T: crate::shim::std::fmt::Display + ?Sized> VToString for T {
    open spec fn ts(&self) -> Seq<char> { self.text() }
    fn v_to_string(&self) -> (r: String) {
        let mut f = crate::shim::std::fmt::Formatter::v_new();
        let r = self.fmt(&mut f);
        must(r, &f);
        assert(f.out() =~= self.text());
        f.v_into_string()
    }
}

// ------------------------------------------------------------------ the stream

/// One byte sent or one character received.
pub ghost enum Ev { S(u8), R(char) }
pub open spec fn snd(b: Seq<u8>) -> Seq<Ev> { b.map_values(|x: u8| Ev::S(x)) }
pub open spec fn rcv(s: Seq<char>) -> Seq<Ev> { s.map_values(|c: char| Ev::R(c)) }

/// Length of the first line (with its LF), or of everything if there is no LF.
pub open spec fn line_end(s: Seq<char>, k: int) -> int
    decreases s.len() - k
{ if k < 0 || k >= s.len() { s.len() as int } else if s[k] == '\n' { k + 1 } else { line_end(s, k + 1) } }
pub open spec fn line_len(s: Seq<char>) -> int { line_end(s, 0) }

/// The byte stream to the server. `inp` is everything the server will still send (arbitrary, but
/// fixed); what the server sends may depend in any way on what it has received, because the
/// contracts hold for every `inp`.
#[verifier::external_body]
pub struct Wire { x: u8 }
impl Wire {
    pub uninterp spec fn log(&self) -> Seq<Ev>;
    pub uninterp spec fn inp(&self) -> Seq<char>;
    /// something was written and not flushed since
    pub uninterp spec fn dirty(&self) -> bool;
    /// an operation has failed
    pub uninterp spec fn broken(&self) -> bool;

    #[verifier::external_body]
    pub async fn write_all(&mut self, b: &[u8]) -> (r: Result<(), crate::shim::std::io::Error>)
        ensures
            final(self).inp() == old(self).inp(),
            r is Ok ==> final(self).log() == old(self).log() + snd(b@) && final(self).broken() == old(self).broken()
                && (b@.len() == 0 ==> final(self).dirty() == old(self).dirty()),
            r is Err ==> final(self).broken() && exists|k: int| 0 <= k <= b@.len() && final(self).log() == old(self).log() + #[trigger] snd(b@.take(k)),
    { unimplemented!() }

    #[verifier::external_body]
    pub async fn flush(&mut self) -> (r: Result<(), crate::shim::std::io::Error>)
        ensures
            final(self).inp() == old(self).inp(),
            final(self).log() == old(self).log(),
            r is Ok ==> !final(self).dirty() && final(self).broken() == old(self).broken(),
            r is Err ==> final(self).broken(),
    { unimplemented!() }

    #[verifier::external_body]
    pub async fn read_line(&mut self, buf: &mut String) -> (r: Result<usize, crate::shim::std::io::Error>)
        requires !old(self).dirty() || old(self).broken(), // [C12] everything written is flushed before waiting
        ensures
            !final(self).dirty(),
            r is Ok ==> {
                let l = old(self).inp().take(line_len(old(self).inp()));
                &&& final(buf)@ == old(buf)@ + l
                &&& r->Ok_0 == blen(l)
                &&& final(self).log() == old(self).log() + rcv(l)
                &&& final(self).inp() == old(self).inp().skip(line_len(old(self).inp()))
                &&& final(self).broken() == old(self).broken()
            },
            r is Err ==> final(self).broken() && exists|k: int| 0 <= k <= line_len(old(self).inp())
                && final(self).log() == old(self).log() + #[trigger] rcv(old(self).inp().take(k)),
    { unimplemented!() }
}

/// A boxed reader as the source of a message.
#[verifier::external_body]
pub struct DynRead { x: u8 }
impl DynRead {
    pub uninterp spec fn rdata(&self) -> Seq<u8>;
    pub uninterp spec fn rfails(&self) -> bool;
}
impl Source for DynRead {
    open spec fn data(&self) -> Seq<u8> { self.rdata() }
    open spec fn fails(&self) -> bool { self.rfails() }
}
impl crate::shim::tokio::io::AsyncRead for DynRead {
    #[verifier::external_body]
    fn poll_read(&mut self, cx: &mut std::task::Context, buf: &mut tokio::io::ReadBuf) -> (r: std::task::Poll<::core::result::Result<(), std::io::Error>>) { unimplemented!() }
}
impl crate::shim::async_std::io::Read for DynRead {
    #[verifier::external_body]
    fn poll_read(&mut self, cx: &mut std::task::Context, buf: &mut [u8]) -> (r: std::task::Poll<::core::result::Result<usize, std::io::Error>>) { unimplemented!() }
}
/// A source of bytes: what it will yield, and whether it then fails instead of ending.
pub trait Source {
    spec fn data(&self) -> Seq<u8>;
    spec fn fails(&self) -> bool;
}
/// A read of k bytes: the source goes from d0 to d1.
pub open spec fn yields(d0: Seq<u8>, fails: bool, d1: Seq<u8>, k: int, got: Seq<u8>, room: int) -> bool {
    &&& 0 <= k <= d0.len() && k <= room
    &&& d1 == d0.skip(k) && got == d0.take(k)
    &&& (k == 0 && room > 0 ==> d0.len() == 0 && !fails)
}

pub mod std {
    use vstd::prelude::*;
    pub mod default { pub use ::core::default::Default; }
    pub mod prelude { }
    pub mod mem { pub use ::core::mem::*; }
    pub mod slice { pub use ::core::slice::*; }
    pub mod array { pub use ::core::array::*; }
    pub mod cmp { pub use ::core::cmp::*; }
    pub mod ops { pub use ::core::ops::*; }
    pub mod char { pub use ::core::char::*; }
    pub mod num { pub use ::core::num::*; }
    pub mod marker { pub use ::core::marker::*; }
    pub mod fmt {
        use vstd::prelude::*;
        pub struct Error;
        pub type Result = ::core::result::Result<(), Error>;
        pub use ::core::fmt::Debug;
        pub trait Write { }

        #[verifier::external_body]
        pub struct Formatter { x: u8 }
        impl Formatter {
            pub uninterp spec fn out(&self) -> Seq<char>;
            /// the underlying writer may fail (never the case for to_string and format!)
            pub uninterp spec fn fails(&self) -> bool;
            #[verifier::external_body]
            pub fn v_new() -> (r: Formatter) ensures r.out() == Seq::<char>::empty(), !r.fails() { unimplemented!() }
            #[verifier::external_body]
            pub fn v_into_string(self) -> (r: String) ensures r@ == self.out() { unimplemented!() }
            #[verifier::external_body]
            pub fn write_str(&mut self, s: &str) -> (r: ::core::result::Result<(), Error>)
                ensures
                    r is Ok ==> final(self).out() == old(self).out() + s@,
                    r is Err ==> old(self).fails(),
                    final(self).fails() == old(self).fails(),
            { unimplemented!() }
            #[verifier::external_body]
            pub fn write_char(&mut self, c: char) -> (r: ::core::result::Result<(), Error>)
                ensures
                    r is Ok ==> final(self).out() == old(self).out().push(c),
                    r is Err ==> old(self).fails(),
                    final(self).fails() == old(self).fails(),
            { unimplemented!() }
        }

        pub trait Display {
            spec fn text(&self) -> Seq<char>;
            fn fmt(&self, f: &mut Formatter) -> (r: ::core::result::Result<(), Error>)
                ensures
                    r is Ok ==> final(f).out() =~= old(f).out() + self.text(),
                    r is Err ==> old(f).fails(),
                    final(f).fails() == old(f).fails();
        }
        impl Display for str {
            open spec fn text(&self) -> Seq<char> { self@ }
            #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: ::core::result::Result<(), Error>) { unimplemented!() }
        }
        impl Display for String {
            open spec fn text(&self) -> Seq<char> { self@ }
            #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: ::core::result::Result<(), Error>) { unimplemented!() }
        }
        impl Display for char {
            open spec fn text(&self) -> Seq<char> { seq![*self] }
            #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: ::core::result::Result<(), Error>) { unimplemented!() }
        }
        impl<'a, T: Display + ?Sized> Display for &'a T {
            open spec fn text(&self) -> Seq<char> { (**self).text() }
            #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: ::core::result::Result<(), Error>) { unimplemented!() }
        }
        impl Display for u8 {
            open spec fn text(&self) -> Seq<char> { crate::shim::dec(*self as int) }
            #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: ::core::result::Result<(), Error>) { unimplemented!() }
        }
        impl Display for u16 {
            open spec fn text(&self) -> Seq<char> { crate::shim::dec(*self as int) }
            #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: ::core::result::Result<(), Error>) { unimplemented!() }
        }
        impl Display for u32 {
            open spec fn text(&self) -> Seq<char> { crate::shim::dec(*self as int) }
            #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: ::core::result::Result<(), Error>) { unimplemented!() }
        }
        impl Display for u64 {
            open spec fn text(&self) -> Seq<char> { crate::shim::dec(*self as int) }
            #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: ::core::result::Result<(), Error>) { unimplemented!() }
        }
        impl Display for usize {
            open spec fn text(&self) -> Seq<char> { crate::shim::dec(*self as int) }
            #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: ::core::result::Result<(), Error>) { unimplemented!() }
        }
        impl Display for super::net::Ipv4Addr {
            open spec fn text(&self) -> Seq<char> { self.ip_text() }
            #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: ::core::result::Result<(), Error>) { unimplemented!() }
        }
        impl Display for super::net::Ipv6Addr {
            open spec fn text(&self) -> Seq<char> { self.ip_text() }
            #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: ::core::result::Result<(), Error>) { unimplemented!() }
        }
    }
    pub mod iter {
        use vstd::prelude::*;
        #[verifier::external_body]
        pub fn once<T>(x: T) -> (r: crate::shim::VIt<T>) ensures r.ok(), r.pos() == 0, r.all() == seq![x] { unimplemented!() }
        #[verifier::external_body]
        pub fn empty<T>() -> (r: crate::shim::VIt<T>) ensures r.ok(), r.pos() == 0, r.all() == Seq::<T>::empty() { unimplemented!() }
    }
    pub mod string {
        pub use ::std::string::String;
        pub use super::super::VToString as ToString;
        pub struct FromUtf8Error;
    }
    pub mod borrow { pub use ::std::borrow::Cow; }
    pub mod vec { pub use ::std::vec::Vec; }
    pub mod result { pub use ::core::result::Result; }
    pub mod option { pub use ::core::option::Option; }
    pub mod time { pub struct Duration; }
    pub mod str {
        use vstd::prelude::*;
        pub trait FromStr: Sized {
            type Err;
            fn from_str(s: &str) -> (r: ::core::result::Result<Self, Self::Err>);
        }
    }
    pub mod convert {
        use vstd::prelude::*;
        pub use ::core::convert::{From, Into};
        pub trait AsRef<T: ?Sized> {
            spec fn as_ref_ok(&self, r: &T) -> bool;
            fn v_as_ref(&self) -> (r: &T) ensures self.as_ref_ok(r);
        }
        impl AsRef<str> for String {
            open spec fn as_ref_ok(&self, r: &str) -> bool { r@ == self@ }
            fn v_as_ref(&self) -> (r: &str) { self.as_str() }
        }
        impl AsRef<str> for str {
            open spec fn as_ref_ok(&self, r: &str) -> bool { r@ == self@ }
            fn v_as_ref(&self) -> (r: &str) { self }
        }
        impl AsRef<super::ffi::OsStr> for String {
            open spec fn as_ref_ok(&self, r: &super::ffi::OsStr) -> bool { true }
            #[verifier::external_body] fn v_as_ref(&self) -> (r: &super::ffi::OsStr) { unimplemented!() }
        }
        impl<'a, U: ?Sized, T: AsRef<U> + ?Sized> AsRef<U> for &'a T {
            open spec fn as_ref_ok(&self, r: &U) -> bool { (**self).as_ref_ok(r) }
            fn v_as_ref(&self) -> (r: &U) { (**self).v_as_ref() }
        }
    }
    pub mod ffi {
        use vstd::prelude::*;
        #[verifier::external_body] pub struct OsStr { x: u8 }
        #[verifier::external_body] pub struct OsString { x: u8 }
        impl OsString {
            #[verifier::external_body]
            pub fn v_into_string(self) -> (r: ::core::result::Result<String, OsString>) { unimplemented!() }
        }
    }
    pub mod collections {
        use vstd::prelude::*;
        #[verifier::external_body]
        #[verifier::reject_recursive_types(T)]
        pub struct HashSet<T> { x: Vec<T> }
        impl<T> HashSet<T> {
            pub uninterp spec fn view(&self) -> Set<T>;
            #[verifier::external_body]
            pub fn new() -> (r: HashSet<T>) ensures r@ == Set::<T>::empty() { unimplemented!() }
            #[verifier::external_body]
            pub fn with_capacity(n: usize) -> (r: HashSet<T>) ensures r@ == Set::<T>::empty() { unimplemented!() }
            #[verifier::external_body]
            pub fn insert(&mut self, x: T) -> (r: bool)
                ensures final(self)@ == old(self)@.insert(x), r == !old(self)@.contains(x),
            { unimplemented!() }
            #[verifier::external_body]
            pub fn remove(&mut self, x: &T) -> (r: bool)
                ensures final(self)@ == old(self)@.remove(*x), r == old(self)@.contains(*x),
            { unimplemented!() }
            #[verifier::external_body]
            pub fn clear(&mut self)
                ensures final(self)@ == Set::<T>::empty(),
            { unimplemented!() }
            #[verifier::external_body]
            pub fn v_contains(&self, x: &T) -> (r: bool) ensures r == self@.contains(*x) { unimplemented!() }
            #[verifier::external_body]
            pub fn v_get(&self, x: &T) -> (r: Option<&T>)
                ensures self@.contains(*x) ==> r == Some(x), !self@.contains(*x) ==> r is None,
            { unimplemented!() }
            #[verifier::external_body]
            pub fn v_is_empty(&self) -> (r: bool) ensures r == (self@ =~= Set::<T>::empty()) { unimplemented!() }
            #[verifier::external_body]
            pub fn v_len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
        }
        impl<T> ::core::default::Default for HashSet<T> {
            #[verifier::external_body]
            fn default() -> (r: HashSet<T>) ensures r@ == Set::<T>::empty() { unimplemented!() }
        }
    }
    pub mod net {
        use vstd::prelude::*;
        #[verifier::external_body] pub struct Ipv4Addr { x: u8 }
        #[verifier::external_body] pub struct Ipv6Addr { x: u8 }
        impl Ipv4Addr {
            pub uninterp spec fn ip_text(&self) -> Seq<char>;
            #[verifier::external_body]
            pub fn new(a: u8, b: u8, c: u8, d: u8) -> (r: Ipv4Addr)
                ensures r.ip_text() == crate::shim::dec(a as int).push('.') + crate::shim::dec(b as int).push('.') + crate::shim::dec(c as int).push('.') + crate::shim::dec(d as int),
            { unimplemented!() }
        }
        impl Ipv6Addr { pub uninterp spec fn ip_text(&self) -> Seq<char>; }
        pub struct AddrParseError;
    }
    pub mod io {
        use vstd::prelude::*;
        #[verifier::external_body] pub struct Error { x: u8 }
        pub enum ErrorKind { Other, UnexpectedEof, InvalidData, InvalidInput, BrokenPipe, ConnectionAborted, TimedOut }
        pub type Result<T> = ::core::result::Result<T, Error>;
        impl Error {
            #[verifier::external_body]
            pub fn new(k: ErrorKind, s: &str) -> (r: Error) { unimplemented!() }
        }
        #[verifier::external_body]
        #[verifier::reject_recursive_types(T)]
        pub struct Cursor<T> { x: T }
        impl Cursor<Vec<u8>> {
            pub uninterp spec fn bytes(&self) -> Seq<u8>;
            #[verifier::external_body]
            pub fn new(v: Vec<u8>) -> (r: Cursor<Vec<u8>>) ensures r.bytes() == v@ { unimplemented!() }
        }
        impl crate::shim::Source for Cursor<Vec<u8>> {
            open spec fn data(&self) -> Seq<u8> { self.bytes() }
            open spec fn fails(&self) -> bool { false }
        }
        impl crate::shim::tokio::io::AsyncRead for Cursor<Vec<u8>> {
            #[verifier::external_body]
            fn poll_read(&mut self, cx: &mut super::task::Context, buf: &mut crate::shim::tokio::io::ReadBuf) -> (r: super::task::Poll<::core::result::Result<(), Error>>) { unimplemented!() }
        }
        impl crate::shim::async_std::io::Read for Cursor<Vec<u8>> {
            #[verifier::external_body]
            fn poll_read(&mut self, cx: &mut super::task::Context, buf: &mut [u8]) -> (r: super::task::Poll<::core::result::Result<usize, Error>>) { unimplemented!() }
        }
    }
    pub mod pin { pub struct Pin<T>(pub T); }
    pub mod task { pub struct Context<'a> { x: &'a u8 } pub enum Poll<T> { Ready(T), Pending } }
}

pub mod log { pub struct debug; pub struct info; pub struct trace; pub struct warn; pub struct error; pub struct log; }
pub mod pin_project { pub struct pin_project; }
pub mod thiserror { pub struct Error; }
pub mod futures {
    pub mod io { pub use super::super::std::io::{Error, ErrorKind, Result}; pub use super::super::tokio::io::*; }
}
pub mod anyhow {
    use vstd::prelude::*;
    #[verifier::external_body] pub struct Error { x: u8 }
    pub type Result<T, E = Error> = ::core::result::Result<T, E>;
    pub struct bail;
    pub struct anyhow;
    pub struct ensure;
    pub struct Context;
    #[verifier::external_body]
    pub fn v_error() -> (r: Error) { unimplemented!() }
}
pub mod hostname {
    use vstd::prelude::*;
    #[verifier::external_body]
    pub fn get() -> (r: ::core::result::Result<super::std::ffi::OsString, super::std::io::Error>) { unimplemented!() }
}
pub mod base64 {
    use vstd::prelude::*;
    pub struct Config;
    pub const STANDARD: Config = Config;
    pub struct DecodeError;
    /// RFC 4648 section 4, with padding: characterized by its alphabet and by b64_dec_enc.
    pub uninterp spec fn b64(b: Seq<u8>) -> Seq<char>;
    /// what the decoder accepts
    pub uninterp spec fn b64_dec(s: Seq<u8>) -> Option<Seq<u8>>;
    pub open spec fn b64_char(c: char) -> bool {
        crate::shim::s_is_ascii_alphanumeric(c) || c == '+' || c == '/' || c == '='
    }
    #[verifier::external_body]
    pub broadcast proof fn b64_alphabet(b: Seq<u8>, k: int)
        requires 0 <= k < b64(b).len(),
        ensures b64_char(#[trigger] b64(b)[k]),
    {}
    #[verifier::external_body]
    pub broadcast proof fn b64_dec_enc(b: Seq<u8>)
        ensures b64_dec(crate::shim::utf8(#[trigger] b64(b))) == Some(b),
    {}
    pub trait Bytes { spec fn by(&self) -> Seq<u8>; }
    impl<'a> Bytes for &'a [u8] { open spec fn by(&self) -> Seq<u8> { (*self)@ } }
    impl<'a> Bytes for &'a str { open spec fn by(&self) -> Seq<u8> { crate::shim::utf8((*self)@) } }
    impl<'a> Bytes for &'a String { open spec fn by(&self) -> Seq<u8> { crate::shim::utf8((*self)@) } }
    impl Bytes for String { open spec fn by(&self) -> Seq<u8> { crate::shim::utf8(self@) } }
    #[verifier::external_body]
    pub fn encode_config<T: Bytes>(b: T, c: Config) -> (r: String) ensures r@ == b64(b.by()) { unimplemented!() }
    #[verifier::external_body]
    pub fn encode<T: Bytes>(b: T) -> (r: String) ensures r@ == b64(b.by()) { unimplemented!() }
    #[verifier::external_body]
    pub fn decode<T: Bytes>(b: T) -> (r: Result<Vec<u8>, DecodeError>)
        ensures
            b64_dec(b.by()) is Some ==> r is Ok && r->Ok_0@ == b64_dec(b.by())->0,
            b64_dec(b.by()) is None ==> r is Err,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn decode_config<T: Bytes>(b: T, c: Config) -> (r: Result<Vec<u8>, DecodeError>)
        ensures
            b64_dec(b.by()) is Some ==> r is Ok && r->Ok_0@ == b64_dec(b.by())->0,
            b64_dec(b.by()) is None ==> r is Err,
    { unimplemented!() }
}
pub mod tokio {
    pub mod time { pub mod error { pub struct Elapsed; } }
    pub mod io {
        use vstd::prelude::*;
        pub trait AsyncWrite {}
        pub trait AsyncWriteExt {}
        pub trait AsyncBufRead {}
        pub trait AsyncBufReadExt {}
        pub trait AsyncReadExt {}
        pub use super::super::std::io::{Error, ErrorKind, Result};
        use super::super::Source;
        use super::super::std::task::{Context, Poll};
        #[verifier::external_body]
        pub struct ReadBuf<'a> { x: &'a u8 }
        impl<'a> ReadBuf<'a> {
            pub uninterp spec fn filled(&self) -> Seq<u8>;
            pub uninterp spec fn cap(&self) -> int;
        }
        pub trait AsyncRead: Source {
            fn poll_read(&mut self, cx: &mut Context, buf: &mut ReadBuf) -> (r: Poll<::core::result::Result<(), Error>>)
                ensures
                    final(self).fails() == old(self).fails(),
                    final(buf).cap() == old(buf).cap(),
                    r is Pending ==> final(self).data() == old(self).data() && final(buf).filled() == old(buf).filled(), // [C01] [C13] nothing is lost
                    r matches Poll::Ready(Err(_)) ==> old(self).fails(), // [C13]
                    r matches Poll::Ready(Ok(_)) ==> ({
                        let k = final(buf).filled().len() - old(buf).filled().len();
                        &&& final(buf).filled().take(old(buf).filled().len() as int) == old(buf).filled()
                        &&& super::super::yields(old(self).data(), old(self).fails(), final(self).data(), k, final(buf).filled().skip(old(buf).filled().len() as int), old(buf).cap() - old(buf).filled().len())
                    }); // [C01] [C13] the next bytes, and no end before a failure
        }
        #[verifier::external_body]
        #[verifier::reject_recursive_types(T)]
        pub struct BufReader<T> { x: T }
        impl<T: Source> BufReader<T> {
            pub uninterp spec fn bdata(&self) -> Seq<u8>;
            pub uninterp spec fn bfails(&self) -> bool;
            #[verifier::external_body]
            pub fn new(t: T) -> (r: BufReader<T>) ensures r.bdata() == t.data(), r.bfails() == t.fails() { unimplemented!() }
            #[verifier::external_body]
            pub fn with_capacity(n: usize, t: T) -> (r: BufReader<T>) ensures r.bdata() == t.data(), r.bfails() == t.fails() { unimplemented!() }
            #[verifier::external_body]
            pub async fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: ::core::result::Result<usize, Error>)
                ensures
                    r is Ok <==> !old(self).bfails(),
                    r is Ok ==> final(buf)@ == old(buf)@ + old(self).bdata() && r->Ok_0 == old(self).bdata().len()
                        && final(self).bdata() == Seq::<u8>::empty() && !final(self).bfails(),
            { unimplemented!() }
            #[verifier::external_body]
            pub async fn read(&mut self, buf: &mut [u8]) -> (r: ::core::result::Result<usize, Error>)
                ensures
                    final(buf)@.len() == old(buf)@.len(),
                    r is Ok ==> {
                        let n = r->Ok_0 as int;
                        &&& 0 <= n <= old(buf)@.len() && n <= old(self).bdata().len()
                        &&& final(buf)@.take(n) == old(self).bdata().take(n)
                        &&& final(self).bdata() == old(self).bdata().skip(n)
                        &&& final(self).bfails() == old(self).bfails()
                        &&& (n == 0 && old(buf)@.len() > 0 ==> old(self).bdata().len() == 0 && !old(self).bfails())
                    },
                    r is Err ==> old(self).bfails(),
            { unimplemented!() }
        }
    }
}
pub mod async_std {
    pub mod future { pub struct TimeoutError; }
    pub mod io {
        use vstd::prelude::*;
        use super::super::Source;
        use super::super::std::task::{Context, Poll};
        pub trait Read: Source {
            fn poll_read(&mut self, cx: &mut Context, buf: &mut [u8]) -> (r: Poll<::core::result::Result<usize, Error>>)
                ensures
                    final(self).fails() == old(self).fails(),
                    final(buf)@.len() == old(buf)@.len(),
                    r is Pending ==> final(self).data() == old(self).data(), // [C01] [C13] nothing is lost
                    r matches Poll::Ready(Err(_)) ==> old(self).fails(), // [C13]
                    r matches Poll::Ready(Ok(k)) ==> super::super::yields(old(self).data(), old(self).fails(), final(self).data(), k as int, final(buf)@.take(k as int), old(buf)@.len() as int); // [C01] [C13] the next bytes, and no end before a failure
        }
        pub use super::super::tokio::io::{AsyncReadExt as ReadExt, AsyncWrite as Write, AsyncWriteExt as WriteExt, AsyncBufRead as BufRead, AsyncBufReadExt as BufReadExt, BufReader};
        pub use super::super::std::io::{Cursor, Error, ErrorKind, Result};
        pub mod prelude {
            pub use super::{Read, ReadExt, Write, WriteExt, BufRead, BufReadExt};
        }
    }
}

pub mod nom {
    use vstd::prelude::*;
    pub struct Needed;
    pub enum Err<E> { Incomplete(Needed), Error(E), Failure(E) }
    pub type IResult<I, O, E = error::Error<I>> = ::core::result::Result<(I, O), Err<E>>;
    pub mod error {
        pub struct Error<I> { pub input: I, pub code: ErrorKind }
        pub enum ErrorKind { Tag, TakeUntil, Not, Complete, Many0, Alt, Digit, Verify, Eof, MapRes, Char, OneOf, Many1 }
    }
    pub mod branch { pub struct alt; }
    pub mod combinator { pub struct complete; pub struct map; pub struct peek; pub struct opt; pub struct value; pub struct map_res; pub struct verify; pub struct cut; pub struct not; }
    pub mod multi { pub struct many0; pub struct many1; pub struct fold_many0; }
    pub mod sequence { pub struct preceded; pub struct tuple; pub struct pair; pub struct terminated; pub struct delimited; pub struct separated_pair; }
    #[verifier::external_body]
    pub fn same_len(a: &str, b: &str) -> (r: bool)
        ensures r == (crate::shim::blen(a@) == crate::shim::blen(b@)),
    { a.len() == b.len() }

    /// first position >= k where t occurs in s, or -1
    pub open spec fn find_sub(s: Seq<char>, t: Seq<char>, k: int) -> int
        decreases s.len() + 1 - k
    {
        if k < 0 || k + t.len() > s.len() { -1 }
        else if s.subrange(k, k + t.len()) == t { k }
        else { find_sub(s, t, k + 1) }
    }
    pub mod bytes {
        pub mod streaming {
            use vstd::prelude::*;
            use super::super::{Err, IResult, find_sub};
            #[verifier::external_body]
            pub fn tag<'a>(t: &str, i: &'a str) -> (r: IResult<&'a str, &'a str>)
                ensures
                    crate::shim::starts(i@, t@) ==> r is Ok && (r->Ok_0).0@ == i@.skip(t@.len() as int) && (r->Ok_0).1@ == t@,
                    !crate::shim::starts(i@, t@) && crate::shim::starts(t@, i@) ==> r is Err && r->Err_0 is Incomplete,
                    !crate::shim::starts(i@, t@) && !crate::shim::starts(t@, i@) ==> r is Err && r->Err_0 is Error,
            { unimplemented!() }
            #[verifier::external_body]
            pub fn take_until<'a>(t: &str, i: &'a str) -> (r: IResult<&'a str, &'a str>)
                ensures
                    find_sub(i@, t@, 0) >= 0 ==> r is Ok && (r->Ok_0).0@ == i@.skip(find_sub(i@, t@, 0)) && (r->Ok_0).1@ == i@.take(find_sub(i@, t@, 0)),
                    find_sub(i@, t@, 0) < 0 ==> r is Err && r->Err_0 is Incomplete,
            { unimplemented!() }
        }
        pub mod complete {
            use vstd::prelude::*;
            use super::super::{Err, IResult, find_sub};
            #[verifier::external_body]
            pub fn tag<'a>(t: &str, i: &'a str) -> (r: IResult<&'a str, &'a str>)
                ensures
                    crate::shim::starts(i@, t@) ==> r is Ok && (r->Ok_0).0@ == i@.skip(t@.len() as int) && (r->Ok_0).1@ == t@,
                    !crate::shim::starts(i@, t@) ==> r is Err && r->Err_0 is Error,
            { unimplemented!() }
            #[verifier::external_body]
            pub fn take_until<'a>(t: &str, i: &'a str) -> (r: IResult<&'a str, &'a str>)
                ensures
                    find_sub(i@, t@, 0) >= 0 ==> r is Ok && (r->Ok_0).0@ == i@.skip(find_sub(i@, t@, 0)) && (r->Ok_0).1@ == i@.take(find_sub(i@, t@, 0)),
                    find_sub(i@, t@, 0) < 0 ==> r is Err && r->Err_0 is Error,
            { unimplemented!() }
        }
    }
}

} // verus!
