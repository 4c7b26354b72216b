#![allow(unused_imports, unused_variables, unused_mut, dead_code, non_snake_case, unused_parens, unused_braces, non_camel_case_types, unreachable_patterns, non_shorthand_field_patterns, unreachable_code, unused_assignments)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
// =====================================================================================
// nomv: the vocabulary of the contracts, and the (assumed) contracts of the dependencies
// (nom 8, core/alloc containers).  Everything marked external_body / uninterp / axiom here
// is an assumption; the driver counts them and lists them in the evidence file.
// =====================================================================================
pub mod nomv {
use super::nomv;
use vstd::prelude::*;
use core::marker::PhantomData;

// ---------- machine integers: specifications of core functions that vstd does not have ----------
pub assume_specification [isize::unsigned_abs] (x: isize) -> (r: usize) ensures r == (if x < 0 { -x } else { x as int });

// ---------- input slices: a window lo..hi of a buffer of bytes placed at an address ----------
pub ghost struct Cur { pub base: nat, pub mem: Seq<u8>, pub lo: nat, pub hi: nat }
impl Cur {
    pub open spec fn wf(self) -> bool {
        self.lo <= self.hi <= self.mem.len() && self.mem.len() <= isize::MAX && self.base + self.mem.len() <= usize::MAX
    }
}
#[verifier::external_body]
pub struct Inp<'a> { s: &'a [u8] }
impl<'a> Clone for Inp<'a> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl<'a> Copy for Inp<'a> {}
impl<'a> Inp<'a> {
    pub uninterp spec fn cur(self) -> Cur;
    pub uninterp spec fn mk(c: Cur) -> Inp<'a>;
    pub open spec fn slen(self) -> nat { (self.cur().hi - self.cur().lo) as nat }
    pub open spec fn sfrom(self, n: int) -> Inp<'a> { Inp::mk(Cur { lo: (self.cur().lo + n) as nat, ..self.cur() }) }
    pub open spec fn sto(self, n: int) -> Inp<'a> { Inp::mk(Cur { hi: (self.cur().lo + n) as nat, ..self.cur() }) }
    pub open spec fn byte(self, k: int) -> u8 { self.cur().mem[self.cur().lo + k] }
    pub open spec fn suffix_of(self, o: Inp<'a>) -> bool {
        self.cur().base == o.cur().base && self.cur().mem == o.cur().mem && self.cur().hi == o.cur().hi && o.cur().lo <= self.cur().lo
    }
    pub open spec fn pos_in(self, o: Inp<'a>) -> int { self.cur().lo - o.cur().lo }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.slen() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.slen() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_ptr(&self) -> (r: usize) ensures r == self.cur().base + self.cur().lo { unimplemented!() }
    #[verifier::external_body]
    pub fn from_(&self, n: usize) -> (r: Inp<'a>) requires n <= self.slen() ensures r == self.sfrom(n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_(&self, n: usize) -> (r: Inp<'a>) requires n <= self.slen() ensures r == self.sto(n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn split_at(&self, n: usize) -> (r: (Inp<'a>, Inp<'a>)) requires n <= self.slen() ensures r.0 == self.sto(n as int), r.1 == self.sfrom(n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn take_split(&self, n: usize) -> (r: (Inp<'a>, Inp<'a>)) requires n <= self.slen() ensures r.1 == self.sto(n as int), r.0 == self.sfrom(n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn input_len(&self) -> (r: usize) ensures r == self.slen() { unimplemented!() }
    #[verifier::external_body]
    pub fn take_from(&self, n: usize) -> (r: Inp<'a>) requires n <= self.slen() ensures r == self.sfrom(n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn take(&self, n: usize) -> (r: Inp<'a>) requires n <= self.slen() ensures r == self.sto(n as int) { unimplemented!() }
}
pub broadcast axiom fn inp_wf<'a>(i: Inp<'a>) ensures (#[trigger] i.cur()).wf();
pub broadcast axiom fn inp_mk<'a>(c: Cur) ensures c.wf() ==> (#[trigger] Inp::<'a>::mk(c).cur()) == c;
pub broadcast axiom fn inp_ext<'a>(i: Inp<'a>) ensures Inp::<'a>::mk(#[trigger] i.cur()) == i;
pub broadcast group inp_axioms { inp_wf, inp_mk, inp_ext, lit_content }

pub trait Bytes { spec fn bytes(self) -> Seq<u8>; }
impl<'a> Bytes for Inp<'a> { open spec fn bytes(self) -> Seq<u8> { self.cur().mem.subrange(self.cur().lo as int, self.cur().hi as int) } }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Lit { z: usize }
impl Lit { pub uninterp spec fn content(self) -> Seq<u8>; }
impl Bytes for Lit { open spec fn bytes(self) -> Seq<u8> { self.content() } }
pub uninterp spec fn mk_lit(s: Seq<u8>) -> Lit;
pub broadcast axiom fn lit_content(s: Seq<u8>) ensures (#[trigger] mk_lit(s)).content() == s;
pub fn full<B: Bytes>(b: B) -> (r: B) ensures r == b { b }

// ---------- results ----------
pub struct Needed { pub u: () }
impl Needed { pub fn new(n: usize) -> (r: Needed) ensures r == (Needed { u: () }) { Needed { u: () } } }
pub open spec fn same<A>(a: A, b: A) -> bool { a == b }
pub open spec fn needed() -> Needed { Needed { u: () } }
pub enum Err<E> { Incomplete(Needed), Error(E), Failure(E) }
pub type Res<'a, O, E> = Result<(Inp<'a>, O), Err<E>>;
pub enum ErrorKind { Tag, Switch, Verify, TooLarge, Complete, Eof, Count, MapRes, ManyMN, Many0, Alt, Not, Fail, Char, Satisfy, NonEmpty, Other }
pub trait ParseError<I>: Sized {
    spec fn mk(i: I, k: ErrorKind) -> Self;
    spec fn app(i: I, k: ErrorKind, e: Self) -> Self;
}
pub struct Error<I> { pub input: I, pub code: ErrorKind }
impl<I> ParseError<I> for Error<I> {
    open spec fn mk(i: I, k: ErrorKind) -> Self { Error { input: i, code: k } }
    open spec fn app(i: I, k: ErrorKind, e: Self) -> Self { e }
}
impl<I> Error<I> { pub fn new(input: I, code: ErrorKind) -> (r: Self) ensures r == Self::mk(input, code) { Error { input, code } } }
#[verifier::external_body]
pub fn make_error<I, E: ParseError<I>>(i: I, k: ErrorKind) -> (r: E) ensures r == E::mk(i, k) { unimplemented!() }
pub open spec fn sp_make_error<I, E: ParseError<I>>(i: I, k: ErrorKind) -> E { E::mk(i, k) }
pub trait FromExternalError<I, X>: Sized { spec fn mk_ext(i: I, k: ErrorKind, x: X) -> Self; }
impl<I, X> FromExternalError<I, X> for Error<I> { open spec fn mk_ext(i: I, k: ErrorKind, x: X) -> Self { Error { input: i, code: k } } }

// ---------- containers and values of the standard library ----------
pub struct Vec<T> { pub g: Ghost<Seq<T>> }
impl<T> Vec<T> {
    pub fn new() -> (r: Vec<T>) ensures r == Vec::<T>::sp_new() { Vec { g: Ghost(Seq::empty()) } }
    pub open spec fn sp_new() -> Vec<T> { Vec { g: Ghost(Seq::empty()) } }
    pub open spec fn slen(self) -> nat { self.g@.len() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.g@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.g@.len() == 0) { unimplemented!() }
}
pub broadcast axiom fn vec_len<T>(v: Vec<T>) ensures #[trigger] v.g@.len() <= usize::MAX;
pub open spec fn vec_of<T>(s: Seq<T>) -> Vec<T> { Vec { g: Ghost(s) } }
#[verifier::external_body]
pub struct String { z: usize }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Str<'a> { z: PhantomData<&'a u8> }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Utf8Error { z: usize }
pub uninterp spec fn sp_utf8_ok(s: Seq<u8>) -> bool;
pub uninterp spec fn sp_utf8_err(s: Seq<u8>) -> Utf8Error;
pub uninterp spec fn sp_str<'a>(i: Inp<'a>) -> Str<'a>;
pub uninterp spec fn sp_string(s: Seq<u8>) -> String;
impl<'a> Str<'a> { pub uninterp spec fn content(self) -> Seq<u8>;
    #[verifier::external_body] pub fn to_owned(&self) -> (r: String) ensures r == sp_string(self.content()) { unimplemented!() } }
pub broadcast axiom fn str_content<'a>(i: Inp<'a>) ensures (#[trigger] sp_str(i)).content() == i.bytes();
pub open spec fn sp_from_utf8<'a>(i: Inp<'a>) -> Result<Str<'a>, Utf8Error> { if sp_utf8_ok(i.bytes()) { Ok(sp_str(i)) } else { Err(sp_utf8_err(i.bytes())) } }
#[verifier::external_body]
pub fn from_utf8<'a>(i: Inp<'a>) -> (r: Result<Str<'a>, Utf8Error>) ensures r == sp_from_utf8(i) { unimplemented!() }

pub uninterp spec fn sp_dflt<T>() -> T;
#[verifier::external_body]
pub fn dflt<T>() -> (r: T) ensures r == sp_dflt::<T>() { unimplemented!() }
pub broadcast axiom fn dflt_option<T>() ensures #[trigger] sp_dflt::<Option<T>>() == Option::<T>::None;
pub broadcast axiom fn dflt_vec<T>() ensures #[trigger] sp_dflt::<Vec<T>>() == Vec::<T>::sp_new();
pub broadcast axiom fn dflt_phantom<T>() ensures #[trigger] sp_dflt::<PhantomData<T>>() == PhantomData::<T>;
pub broadcast axiom fn dflt_u8() ensures #[trigger] sp_dflt::<u8>() == 0u8;
pub broadcast axiom fn dflt_u16() ensures #[trigger] sp_dflt::<u16>() == 0u16;
pub broadcast axiom fn dflt_u32() ensures #[trigger] sp_dflt::<u32>() == 0u32;
pub broadcast axiom fn dflt_u64() ensures #[trigger] sp_dflt::<u64>() == 0u64;
pub broadcast axiom fn dflt_bool() ensures #[trigger] sp_dflt::<bool>() == false;
pub broadcast group dflt_axioms { dflt_option, dflt_vec, dflt_phantom, dflt_u8, dflt_u16, dflt_u32, dflt_u64, dflt_bool }

pub uninterp spec fn sp_into<A, B>(a: A) -> B;
pub broadcast axiom fn into_refl<A>(a: A) ensures #[trigger] sp_into::<A, A>(a) == a;
pub broadcast axiom fn into_u8_u16(a: u8) ensures #[trigger] sp_into::<u8, u16>(a) == a as u16;
pub broadcast axiom fn into_u8_u32(a: u8) ensures #[trigger] sp_into::<u8, u32>(a) == a as u32;
pub broadcast axiom fn into_u16_u32(a: u16) ensures #[trigger] sp_into::<u16, u32>(a) == a as u32;
pub broadcast group into_axioms { into_refl, into_u8_u16, into_u8_u32, into_u16_u32 }

#[derive(Clone, Copy)]
pub enum Endianness { Big, Little, Native }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Endianness {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Endianness) -> bool { *self == *other }
}
impl PartialEq for Endianness { fn eq(&self, other: &Endianness) -> (r: bool) { match (self, other) { (Endianness::Big, Endianness::Big) => true, (Endianness::Little, Endianness::Little) => true, (Endianness::Native, Endianness::Native) => true, _ => false } } }

pub trait ToUsize: Sized { spec fn sp_to_usize(self) -> usize; fn to_usize(&self) -> (r: usize) ensures r == self.sp_to_usize(); }
impl ToUsize for u8 { open spec fn sp_to_usize(self) -> usize { self as usize } fn to_usize(&self) -> (r: usize) { *self as usize } }
impl ToUsize for u16 { open spec fn sp_to_usize(self) -> usize { self as usize } fn to_usize(&self) -> (r: usize) { *self as usize } }
impl ToUsize for u32 { open spec fn sp_to_usize(self) -> usize { self as usize } fn to_usize(&self) -> (r: usize) { *self as usize } }
impl ToUsize for u64 { open spec fn sp_to_usize(self) -> usize { self as usize } fn to_usize(&self) -> (r: usize) { *self as usize } }
impl ToUsize for usize { open spec fn sp_to_usize(self) -> usize { self } fn to_usize(&self) -> (r: usize) { *self } }

// ---------- the contract of nom_derive::Parse ----------
pub trait Parse<'a, E: ParseError<Inp<'a>>>: Sized {
    spec fn sp(i: Inp<'a>) -> Res<'a, Self, E>;
    spec fn sp_be(i: Inp<'a>) -> Res<'a, Self, E>;
    spec fn sp_le(i: Inp<'a>) -> Res<'a, Self, E>;
    proof fn suffix(i: Inp<'a>)
        ensures Self::sp(i) matches Ok((j, _)) ==> j.suffix_of(i),
                Self::sp_be(i) matches Ok((j, _)) ==> j.suffix_of(i),
                Self::sp_le(i) matches Ok((j, _)) ==> j.suffix_of(i);
    fn parse(i: Inp<'a>) -> (r: Res<'a, Self, E>) ensures r == Self::sp(i);
    fn parse_be(i: Inp<'a>) -> (r: Res<'a, Self, E>) ensures r == Self::sp_be(i);
    fn parse_le(i: Inp<'a>) -> (r: Res<'a, Self, E>) ensures r == Self::sp_le(i);
}
pub broadcast proof fn parse_suffix<'a, E: ParseError<Inp<'a>>, T: Parse<'a, E>>(i: Inp<'a>)
    ensures (#[trigger] <T as Parse<'a, E>>::sp(i)) matches Ok((j, _)) ==> j.suffix_of(i) { T::suffix(i) }
pub broadcast proof fn parse_suffix_be<'a, E: ParseError<Inp<'a>>, T: Parse<'a, E>>(i: Inp<'a>)
    ensures (#[trigger] <T as Parse<'a, E>>::sp_be(i)) matches Ok((j, _)) ==> j.suffix_of(i) { T::suffix(i) }
pub broadcast proof fn parse_suffix_le<'a, E: ParseError<Inp<'a>>, T: Parse<'a, E>>(i: Inp<'a>)
    ensures (#[trigger] <T as Parse<'a, E>>::sp_le(i)) matches Ok((j, _)) ==> j.suffix_of(i) { T::suffix(i) }
pub broadcast group parse_axioms { parse_suffix, parse_suffix_be, parse_suffix_le }

// ---------- parsers as values (nom::Parser) ----------
pub trait Parser<'a>: Sized {
    type O; type E;
    spec fn run(self, i: Inp<'a>) -> Res<'a, Self::O, Self::E>;
    fn parse(self, i: Inp<'a>) -> (r: Res<'a, Self::O, Self::E>) ensures r == self.run(i);
}
#[verifier::allow(autoderive_clone_without_spec)]
#[derive(Clone, Copy)]
pub struct PT<T, E> { pub mode: u8, pub p: PhantomData<(T, E)> }
pub fn p_any<'a, T: Parse<'a, E>, E: ParseError<Inp<'a>>>() -> (r: PT<T, E>) ensures r == s_p_any::<T, E>() { PT { mode: 0, p: PhantomData } }
pub fn p_be<'a, T: Parse<'a, E>, E: ParseError<Inp<'a>>>() -> (r: PT<T, E>) ensures r == s_p_be::<T, E>() { PT { mode: 1, p: PhantomData } }
pub fn p_le<'a, T: Parse<'a, E>, E: ParseError<Inp<'a>>>() -> (r: PT<T, E>) ensures r == s_p_le::<T, E>() { PT { mode: 2, p: PhantomData } }
impl<'a, E: ParseError<Inp<'a>>, T: Parse<'a, E>> Parser<'a> for PT<T, E> { type O = T; type E = E;
    open spec fn run(self, i: Inp<'a>) -> Res<'a, T, E> { if self.mode == 0 { T::sp(i) } else if self.mode == 1 { T::sp_be(i) } else { T::sp_le(i) } }
    fn parse(self, i: Inp<'a>) -> (r: Res<'a, T, E>) { if self.mode == 0 { T::parse(i) } else if self.mode == 1 { T::parse_be(i) } else { T::parse_le(i) } } }

// functions and closures: fv(f, a) is the value of f at a.  The closures are deterministic and
// total (assumed); what they compute is known from their own (checked) postcondition.
pub uninterp spec fn fv<A, B, F>(f: F, a: A) -> B;
pub uninterp spec fn fvr<A, F>(f: F, a: A) -> bool;
#[verifier::reject_recursive_types(O)] #[verifier::reject_recursive_types(E)]
pub struct Fun<F, O, E> { pub f: F, pub p: PhantomData<(O, E)> }
#[verifier::external_body]
pub fn fun<'a, O, E, F: Fn(Inp<'a>) -> Res<'a, O, E>>(f: F) -> (r: Fun<F, O, E>) requires forall|i: Inp<'a>| #[trigger] f.requires((i,)) ensures r.f == f, forall|a: Inp<'a>| f.ensures((a,), #[trigger] fv::<Inp<'a>, Res<'a, O, E>, F>(f, a)) { Fun { f, p: PhantomData } }
impl<'a, O, E, F> Parser<'a> for Fun<F, O, E> { type O = O; type E = E;
    open spec fn run(self, i: Inp<'a>) -> Res<'a, O, E> { fv(self.f, i) }
    #[verifier::external_body]
    fn parse(self, i: Inp<'a>) -> (r: Res<'a, O, E>) { unimplemented!() } }

// ---------- contracts of the nom combinators ----------
pub open spec fn sp_complete<'a, O, E: ParseError<Inp<'a>>>(i: Inp<'a>, r: Res<'a, O, E>) -> Res<'a, O, E> {
    match r { Err(Err::Incomplete(_)) => Err(Err::Error(E::mk(i, ErrorKind::Complete))), _ => r }
}
pub struct Complete<P> { pub p: P }
pub fn complete<P>(p: P) -> (r: Complete<P>) ensures r.p == p { Complete { p } }
impl<'a, E: ParseError<Inp<'a>>, P: Parser<'a, E = E>> Parser<'a> for Complete<P> { type O = P::O; type E = E;
    open spec fn run(self, i: Inp<'a>) -> Res<'a, P::O, E> { sp_complete(i, self.p.run(i)) }
    #[verifier::external_body]
    fn parse(self, i: Inp<'a>) -> (r: Res<'a, P::O, E>) { unimplemented!() } }

pub open spec fn sp_cond<'a, O, E>(c: bool, i: Inp<'a>, r: Res<'a, O, E>) -> Res<'a, Option<O>, E> {
    if c { match r { Ok((j, o)) => Ok((j, Some(o))), Err(e) => Err(e) } } else { Ok((i, None)) }
}
pub struct Cond<P> { pub c: bool, pub p: P }
pub fn cond<P>(c: bool, p: P) -> (r: Cond<P>) ensures r == (Cond { c, p }) { Cond { c, p } }
impl<'a, P: Parser<'a>> Parser<'a> for Cond<P> { type O = Option<P::O>; type E = P::E;
    open spec fn run(self, i: Inp<'a>) -> Res<'a, Option<P::O>, P::E> { sp_cond(self.c, i, self.p.run(i)) }
    #[verifier::external_body]
    fn parse(self, i: Inp<'a>) -> (r: Res<'a, Option<P::O>, P::E>) { unimplemented!() } }

pub open spec fn sp_count<'a, O, E: ParseError<Inp<'a>>>(f: spec_fn(Inp<'a>) -> Res<'a, O, E>, n: nat, i0: Inp<'a>, i: Inp<'a>, acc: Seq<O>) -> Res<'a, Vec<O>, E>
    decreases n
{
    if n == 0 { Ok((i, vec_of(acc))) } else {
        match f(i) {
            Ok((j, o)) => sp_count(f, (n - 1) as nat, i0, j, acc.push(o)),
            Err(Err::Error(e)) => Err(Err::Error(E::app(i0, ErrorKind::Count, e))),
            Err(Err::Incomplete(x)) => Err(Err::Incomplete(x)),
            Err(Err::Failure(x)) => Err(Err::Failure(x)),
        }
    }
}
pub proof fn sp_count_ext1<'a, O, E: ParseError<Inp<'a>>>(f: spec_fn(Inp<'a>) -> Res<'a, O, E>, g: spec_fn(Inp<'a>) -> Res<'a, O, E>, n: nat, i0: Inp<'a>, i: Inp<'a>, acc: Seq<O>)
    requires forall|j: Inp<'a>| #[trigger] f(j) == g(j)
    ensures sp_count(f, n, i0, i, acc) == sp_count(g, n, i0, i, acc)
    decreases n
{ if n != 0 { assert(f(i) == g(i)); match f(i) { Ok((j, o)) => sp_count_ext1(f, g, (n - 1) as nat, i0, j, acc.push(o)), _ => {} } } }
pub broadcast proof fn sp_count_ext<'a, O, E: ParseError<Inp<'a>>>(f: spec_fn(Inp<'a>) -> Res<'a, O, E>, g: spec_fn(Inp<'a>) -> Res<'a, O, E>, n: nat, i0: Inp<'a>, i: Inp<'a>, acc: Seq<O>)
    requires forall|j: Inp<'a>| #[trigger] f(j) == g(j)
    ensures #[trigger] sp_count(f, n, i0, i, acc) == #[trigger] sp_count(g, n, i0, i, acc)
{ sp_count_ext1(f, g, n, i0, i, acc) }
pub broadcast proof fn sp_count_suffix<'a, O, E: ParseError<Inp<'a>>>(f: spec_fn(Inp<'a>) -> Res<'a, O, E>, n: nat, i0: Inp<'a>, i: Inp<'a>, acc: Seq<O>)
    requires forall|j: Inp<'a>| (#[trigger] f(j)) matches Ok((k, _)) ==> k.suffix_of(j)
    ensures (#[trigger] sp_count(f, n, i0, i, acc)) matches Ok((k, _)) ==> k.suffix_of(i)
    decreases n
{ if n != 0 { match f(i) { Ok((j, o)) => { assert(j.suffix_of(i)); sp_count_suffix(f, (n - 1) as nat, i0, j, acc.push(o)); }, _ => {} } } }
/// a successful count yields exactly n elements
pub broadcast proof fn sp_count_len<'a, O, E: ParseError<Inp<'a>>>(f: spec_fn(Inp<'a>) -> Res<'a, O, E>, n: nat, i0: Inp<'a>, i: Inp<'a>, acc: Seq<O>)
    ensures (#[trigger] sp_count(f, n, i0, i, acc)) matches Ok((_, v)) ==> v.g@.len() == acc.len() + n
    decreases n
{ if n != 0 { match f(i) { Ok((j, o)) => { sp_count_len(f, (n - 1) as nat, i0, j, acc.push(o)); }, _ => {} } } }
pub broadcast group count_lemmas { sp_count_ext, sp_count_suffix, sp_count_len }
pub struct Count<P> { pub p: P, pub n: usize }
pub fn count<P>(p: P, n: usize) -> (r: Count<P>) ensures r == (Count { p, n }) { Count { p, n } }
impl<'a, E: ParseError<Inp<'a>>, P: Parser<'a, E = E>> Parser<'a> for Count<P> { type O = Vec<P::O>; type E = E;
    open spec fn run(self, i: Inp<'a>) -> Res<'a, Vec<P::O>, E> { sp_count(|j: Inp<'a>| self.p.run(j), self.n as nat, i, i, Seq::empty()) }
    #[verifier::external_body]
    fn parse(self, i: Inp<'a>) -> (r: Res<'a, Vec<P::O>, E>) { unimplemented!() } }

pub open spec fn sp_length_count<'a, N: ToUsize, O, E: ParseError<Inp<'a>>>(r: Res<'a, N, E>, f: spec_fn(Inp<'a>) -> Res<'a, O, E>) -> Res<'a, Vec<O>, E> {
    match r { Ok((j, n)) => sp_count(f, n.sp_to_usize() as nat, j, j, Seq::empty()), Err(e) => Err(e) }
}
pub struct LengthCount<L, P> { pub l: L, pub p: P }
pub fn length_count<L, P>(l: L, p: P) -> (r: LengthCount<L, P>) ensures r == (LengthCount { l, p }) { LengthCount { l, p } }
impl<'a, N: ToUsize, E: ParseError<Inp<'a>>, L: Parser<'a, O = N, E = E>, P: Parser<'a, E = E>> Parser<'a> for LengthCount<L, P> { type O = Vec<P::O>; type E = E;
    open spec fn run(self, i: Inp<'a>) -> Res<'a, Vec<P::O>, E> { sp_length_count(self.l.run(i), |j: Inp<'a>| self.p.run(j)) }
    #[verifier::external_body]
    fn parse(self, i: Inp<'a>) -> (r: Res<'a, Vec<P::O>, E>) { unimplemented!() } }

pub open spec fn sp_map<'a, A, B, E>(r: Res<'a, A, E>, f: spec_fn(A) -> B) -> Res<'a, B, E> {
    match r { Ok((j, o)) => Ok((j, f(o))), Err(e) => Err(e) }
}
#[verifier::reject_recursive_types(B)]
pub struct Map<P, F, B> { pub p: P, pub f: F, pub b: PhantomData<B> }
#[verifier::external_body]
pub fn map<'a, P: Parser<'a>, B, F: Fn(P::O) -> B>(p: P, f: F) -> (r: Map<P, F, B>) requires forall|a: P::O| #[trigger] f.requires((a,)) ensures r == (Map::<P, F, B> { p, f, b: PhantomData }), forall|a: P::O| f.ensures((a,), #[trigger] fv::<P::O, B, F>(f, a)) { Map { p, f, b: PhantomData } }
impl<'a, B, P: Parser<'a>, F> Parser<'a> for Map<P, F, B> { type O = B; type E = P::E;
    open spec fn run(self, i: Inp<'a>) -> Res<'a, B, P::E> { match self.p.run(i) { Ok((j, o)) => Ok((j, fv(self.f, o))), Err(e) => Err(e) } }
    #[verifier::external_body]
    fn parse(self, i: Inp<'a>) -> (r: Res<'a, B, P::E>) { unimplemented!() } }

pub open spec fn sp_map_res<'a, A, B, X, E: FromExternalError<Inp<'a>, X>>(i: Inp<'a>, r: Res<'a, A, E>, f: spec_fn(A) -> Result<B, X>) -> Res<'a, B, E> {
    match r { Ok((j, o)) => match f(o) { Ok(b) => Ok((j, b)), Err(x) => Err(Err::Error(E::mk_ext(i, ErrorKind::MapRes, x))) }, Err(e) => Err(e) }
}
#[verifier::reject_recursive_types(B)] #[verifier::reject_recursive_types(X)]
pub struct MapRes<P, F, B, X> { pub p: P, pub f: F, pub b: PhantomData<(B, X)> }
#[verifier::external_body]
pub fn map_res<'a, P: Parser<'a>, B, X, F: Fn(P::O) -> Result<B, X>>(p: P, f: F) -> (r: MapRes<P, F, B, X>) requires forall|a: P::O| #[trigger] f.requires((a,)) ensures r == (MapRes::<P, F, B, X> { p, f, b: PhantomData }), forall|a: P::O| f.ensures((a,), #[trigger] fv::<P::O, Result<B, X>, F>(f, a)) { MapRes { p, f, b: PhantomData } }
impl<'a, B, X, E: FromExternalError<Inp<'a>, X>, P: Parser<'a, E = E>, F> Parser<'a> for MapRes<P, F, B, X> { type O = B; type E = E;
    open spec fn run(self, i: Inp<'a>) -> Res<'a, B, E> { sp_map_res(i, self.p.run(i), |o: P::O| fv::<P::O, Result<B, X>, F>(self.f, o)) }
    #[verifier::external_body]
    fn parse(self, i: Inp<'a>) -> (r: Res<'a, B, E>) { unimplemented!() } }

pub open spec fn sp_verify<'a, A, E: ParseError<Inp<'a>>>(i: Inp<'a>, r: Res<'a, A, E>, f: spec_fn(A) -> bool) -> Res<'a, A, E> {
    match r { Ok((j, o)) => if f(o) { Ok((j, o)) } else { Err(Err::Error(E::mk(i, ErrorKind::Verify))) }, Err(e) => Err(e) }
}
pub struct Verify<P, F> { pub p: P, pub f: F }
#[verifier::external_body]
pub fn verify<'a, P: Parser<'a>, F: for<'x> Fn(&'x P::O) -> bool>(p: P, f: F) -> (r: Verify<P, F>) requires forall|a: &P::O| #[trigger] f.requires((a,)) ensures r == (Verify { p, f }), forall|a: P::O| f.ensures((&a,), #[trigger] fvr::<P::O, F>(f, a)) { Verify { p, f } }
impl<'a, E: ParseError<Inp<'a>>, P: Parser<'a, E = E>, F> Parser<'a> for Verify<P, F> { type O = P::O; type E = E;
    open spec fn run(self, i: Inp<'a>) -> Res<'a, P::O, E> { sp_verify(i, self.p.run(i), |o: P::O| fvr::<P::O, F>(self.f, o)) }
    #[verifier::external_body]
    fn parse(self, i: Inp<'a>) -> (r: Res<'a, P::O, E>) { unimplemented!() } }

pub open spec fn sp_into_res<'a, A, B, E>(r: Res<'a, A, E>) -> Res<'a, B, E> {
    match r { Ok((j, o)) => Ok((j, sp_into::<A, B>(o))), Err(e) => Err(e) }
}
#[verifier::reject_recursive_types(B)]
pub struct IntoP<P, B> { pub p: P, pub b: PhantomData<B> }
pub fn into<P, B>(p: P) -> (r: IntoP<P, B>) ensures r == (IntoP::<P, B> { p, b: PhantomData }) { IntoP { p, b: PhantomData } }
impl<'a, B, P: Parser<'a>> Parser<'a> for IntoP<P, B> { type O = B; type E = P::E;
    open spec fn run(self, i: Inp<'a>) -> Res<'a, B, P::E> { sp_into_res::<P::O, B, P::E>(self.p.run(i)) }
    #[verifier::external_body]
    fn parse(self, i: Inp<'a>) -> (r: Res<'a, B, P::E>) { unimplemented!() } }

pub struct DbgDmp<P> { pub p: P }
pub fn dbg_dmp<P>(p: P, s: &'static str) -> (r: DbgDmp<P>) ensures r.p == p { DbgDmp { p } }
impl<'a, P: Parser<'a>> Parser<'a> for DbgDmp<P> { type O = P::O; type E = P::E;
    open spec fn run(self, i: Inp<'a>) -> Res<'a, P::O, P::E> { self.p.run(i) }
    #[verifier::external_body]
    fn parse(self, i: Inp<'a>) -> (r: Res<'a, P::O, P::E>) { unimplemented!() } }

pub open spec fn sp_take<'a, E>(n: int, i: Inp<'a>) -> Res<'a, Inp<'a>, E> {
    if n <= i.slen() { Ok((i.sfrom(n), i.sto(n))) } else { Err(Err::Incomplete(needed())) }
}
#[verifier::reject_recursive_types(E)]
pub struct Take<E> { pub n: usize, pub e: PhantomData<E> }
pub fn take<N: ToUsize, E>(n: N) -> (r: Take<E>) ensures r == (Take::<E> { n: n.sp_to_usize(), e: PhantomData }) { Take { n: n.to_usize(), e: PhantomData } }
impl<'a, E> Parser<'a> for Take<E> { type O = Inp<'a>; type E = E;
    open spec fn run(self, i: Inp<'a>) -> Res<'a, Inp<'a>, E> { sp_take(self.n as int, i) }
    #[verifier::external_body]
    fn parse(self, i: Inp<'a>) -> (r: Res<'a, Inp<'a>, E>) { unimplemented!() } }

pub open spec fn sp_tag<'a, E: ParseError<Inp<'a>>>(t: Seq<u8>, i: Inp<'a>) -> Res<'a, Inp<'a>, E> {
    if exists|k: int| 0 <= k < t.len() && k < i.slen() && #[trigger] t[k] != i.byte(k) { Err(Err::Error(E::mk(i, ErrorKind::Tag))) }
    else if i.slen() < t.len() { Err(Err::Incomplete(needed())) }
    else { Ok((i.sfrom(t.len() as int), i.sto(t.len() as int))) }
}
#[verifier::reject_recursive_types(E)]
pub struct Tag<B, E> { pub t: B, pub e: PhantomData<E> }
pub fn tag<B, E>(t: B) -> (r: Tag<B, E>) ensures r == (Tag::<B, E> { t, e: PhantomData }) { Tag { t, e: PhantomData } }
impl<'a, B: Bytes, E: ParseError<Inp<'a>>> Parser<'a> for Tag<B, E> { type O = Inp<'a>; type E = E;
    open spec fn run(self, i: Inp<'a>) -> Res<'a, Inp<'a>, E> { sp_tag(self.t.bytes(), i) }
    #[verifier::external_body]
    fn parse(self, i: Inp<'a>) -> (r: Res<'a, Inp<'a>, E>) { unimplemented!() } }

pub open spec fn sp_opt<'a, O, E>(i: Inp<'a>, r: Res<'a, O, E>) -> Res<'a, Option<O>, E> {
    match r { Ok((j, o)) => Ok((j, Some(o))), Err(Err::Error(_)) => Ok((i, None)), Err(e) => Err(e) }
}
pub struct Opt<P> { pub p: P }
pub fn opt<P>(p: P) -> (r: Opt<P>) ensures r.p == p { Opt { p } }
impl<'a, P: Parser<'a>> Parser<'a> for Opt<P> { type O = Option<P::O>; type E = P::E;
    open spec fn run(self, i: Inp<'a>) -> Res<'a, Option<P::O>, P::E> { sp_opt(i, self.p.run(i)) }
    #[verifier::external_body]
    fn parse(self, i: Inp<'a>) -> (r: Res<'a, Option<P::O>, P::E>) { unimplemented!() } }

pub struct Pair<P, Q> { pub p: P, pub q: Q }
pub open spec fn sp_pair<'a, A, B, E>(r: Res<'a, A, E>, f: spec_fn(Inp<'a>) -> Res<'a, B, E>) -> Res<'a, (A, B), E> {
    match r { Err(e) => Err(e), Ok((i, a)) => match f(i) { Err(e) => Err(e), Ok((i, b)) => Ok((i, (a, b))) } }
}
pub fn pair<P, Q>(p: P, q: Q) -> (r: Pair<P, Q>) ensures r == (Pair { p, q }) { Pair { p, q } }
impl<'a, E, P: Parser<'a, E = E>, Q: Parser<'a, E = E>> Parser<'a> for Pair<P, Q> { type O = (P::O, Q::O); type E = E;
    open spec fn run(self, i: Inp<'a>) -> Res<'a, (P::O, Q::O), E> { sp_pair(self.p.run(i), |j: Inp<'a>| self.q.run(j)) }
    #[verifier::external_body]
    fn parse(self, i: Inp<'a>) -> (r: Res<'a, (P::O, Q::O), E>) { unimplemented!() } }

/// many0: elements until the element parser reports Error (Incomplete and Failure are passed on);
/// an element that consumes nothing is an error.
pub open spec fn sp_many0<'a, O, E: ParseError<Inp<'a>>>(f: spec_fn(Inp<'a>) -> Res<'a, O, E>, i: Inp<'a>, acc: Seq<O>) -> Res<'a, Vec<O>, E>
    decreases i.slen()
{
    match f(i) {
        Ok((j, o)) => if j.slen() < i.slen() { sp_many0(f, j, acc.push(o)) } else { Err(Err::Error(E::mk(i, ErrorKind::Many0))) },
        Err(Err::Error(_)) => Ok((i, vec_of(acc))),
        Err(Err::Incomplete(x)) => Err(Err::Incomplete(x)),
        Err(Err::Failure(x)) => Err(Err::Failure(x)),
    }
}
pub proof fn sp_many0_ext1<'a, O, E: ParseError<Inp<'a>>>(f: spec_fn(Inp<'a>) -> Res<'a, O, E>, g: spec_fn(Inp<'a>) -> Res<'a, O, E>, i: Inp<'a>, acc: Seq<O>)
    requires forall|j: Inp<'a>| #[trigger] f(j) == g(j)
    ensures sp_many0(f, i, acc) == sp_many0(g, i, acc)
    decreases i.slen()
{ assert(f(i) == g(i)); match f(i) { Ok((j, o)) => if j.slen() < i.slen() { sp_many0_ext1(f, g, j, acc.push(o)) }, _ => {} } }
pub broadcast proof fn sp_many0_ext<'a, O, E: ParseError<Inp<'a>>>(f: spec_fn(Inp<'a>) -> Res<'a, O, E>, g: spec_fn(Inp<'a>) -> Res<'a, O, E>, i: Inp<'a>, acc: Seq<O>)
    requires forall|j: Inp<'a>| #[trigger] f(j) == g(j)
    ensures #[trigger] sp_many0(f, i, acc) == #[trigger] sp_many0(g, i, acc)
{ sp_many0_ext1(f, g, i, acc) }
pub broadcast proof fn sp_many0_suffix<'a, O, E: ParseError<Inp<'a>>>(f: spec_fn(Inp<'a>) -> Res<'a, O, E>, i: Inp<'a>, acc: Seq<O>)
    requires forall|j: Inp<'a>| (#[trigger] f(j)) matches Ok((k, _)) ==> k.suffix_of(j)
    ensures (#[trigger] sp_many0(f, i, acc)) matches Ok((k, _)) ==> k.suffix_of(i)
    decreases i.slen()
{ match f(i) { Ok((j, o)) => { assert(j.suffix_of(i)); if j.slen() < i.slen() { sp_many0_suffix(f, j, acc.push(o)); } }, _ => {} } }
pub struct Many0<P> { pub p: P }
pub fn many0<P>(p: P) -> (r: Many0<P>) ensures r.p == p { Many0 { p } }
impl<'a, E: ParseError<Inp<'a>>, P: Parser<'a, E = E>> Parser<'a> for Many0<P> { type O = Vec<P::O>; type E = E;
    open spec fn run(self, i: Inp<'a>) -> Res<'a, Vec<P::O>, E> { sp_many0(|j: Inp<'a>| self.p.run(j), i, Seq::empty()) }
    #[verifier::external_body]
    fn parse(self, i: Inp<'a>) -> (r: Res<'a, Vec<P::O>, E>) { unimplemented!() } }

/// many_m_n(min, max)
pub open spec fn sp_many_m_n<'a, O, E: ParseError<Inp<'a>>>(min: nat, max: nat, f: spec_fn(Inp<'a>) -> Res<'a, O, E>, i: Inp<'a>, acc: Seq<O>) -> Res<'a, Vec<O>, E>
    decreases max - acc.len()
{
    if acc.len() >= max { Ok((i, vec_of(acc))) } else {
        match f(i) {
            Ok((j, o)) => if j.slen() == i.slen() { Err(Err::Error(E::mk(i, ErrorKind::ManyMN))) } else { sp_many_m_n(min, max, f, j, acc.push(o)) },
            Err(Err::Error(e)) => if acc.len() < min { Err(Err::Error(E::app(i, ErrorKind::ManyMN, e))) } else { Ok((i, vec_of(acc))) },
            Err(Err::Incomplete(x)) => Err(Err::Incomplete(x)),
            Err(Err::Failure(x)) => Err(Err::Failure(x)),
        }
    }
}
pub proof fn sp_many_m_n_ext1<'a, O, E: ParseError<Inp<'a>>>(m: nat, n: nat, f: spec_fn(Inp<'a>) -> Res<'a, O, E>, g: spec_fn(Inp<'a>) -> Res<'a, O, E>, i: Inp<'a>, acc: Seq<O>)
    requires forall|j: Inp<'a>| #[trigger] f(j) == g(j)
    ensures sp_many_m_n(m, n, f, i, acc) == sp_many_m_n(m, n, g, i, acc)
    decreases n - acc.len()
{ if acc.len() < n { assert(f(i) == g(i)); match f(i) { Ok((j, o)) => sp_many_m_n_ext1(m, n, f, g, j, acc.push(o)), _ => {} } } }
pub broadcast proof fn sp_many_m_n_ext<'a, O, E: ParseError<Inp<'a>>>(m: nat, n: nat, f: spec_fn(Inp<'a>) -> Res<'a, O, E>, g: spec_fn(Inp<'a>) -> Res<'a, O, E>, i: Inp<'a>, acc: Seq<O>)
    requires forall|j: Inp<'a>| #[trigger] f(j) == g(j)
    ensures #[trigger] sp_many_m_n(m, n, f, i, acc) == #[trigger] sp_many_m_n(m, n, g, i, acc)
{ sp_many_m_n_ext1(m, n, f, g, i, acc) }
pub broadcast proof fn sp_many_m_n_suffix<'a, O, E: ParseError<Inp<'a>>>(m: nat, n: nat, f: spec_fn(Inp<'a>) -> Res<'a, O, E>, i: Inp<'a>, acc: Seq<O>)
    requires forall|j: Inp<'a>| (#[trigger] f(j)) matches Ok((k, _)) ==> k.suffix_of(j)
    ensures (#[trigger] sp_many_m_n(m, n, f, i, acc)) matches Ok((k, _)) ==> k.suffix_of(i)
    decreases n - acc.len()
{ if acc.len() < n { match f(i) { Ok((j, o)) => { assert(j.suffix_of(i)); sp_many_m_n_suffix(m, n, f, j, acc.push(o)); }, _ => {} } } }
pub broadcast proof fn sp_many_m_n_len<'a, O, E: ParseError<Inp<'a>>>(m: nat, n: nat, f: spec_fn(Inp<'a>) -> Res<'a, O, E>, i: Inp<'a>, acc: Seq<O>)
    requires m == n, acc.len() <= n
    ensures (#[trigger] sp_many_m_n(m, n, f, i, acc)) matches Ok((_, v)) ==> v.g@.len() == n
    decreases n - acc.len()
{ if acc.len() < n { match f(i) { Ok((j, o)) => { sp_many_m_n_len(m, n, f, j, acc.push(o)); }, _ => {} } } }
pub struct ManyMN<P> { pub m: usize, pub n: usize, pub p: P }
pub fn many_m_n<P>(m: usize, n: usize, p: P) -> (r: ManyMN<P>) ensures r == (ManyMN { m, n, p }) { ManyMN { m, n, p } }
impl<'a, E: ParseError<Inp<'a>>, P: Parser<'a, E = E>> Parser<'a> for ManyMN<P> { type O = Vec<P::O>; type E = E;
    open spec fn run(self, i: Inp<'a>) -> Res<'a, Vec<P::O>, E> {
        if self.n < self.m { Err(Err::Failure(E::mk(i, ErrorKind::ManyMN))) } else { sp_many_m_n(self.m as nat, self.n as nat, |j: Inp<'a>| self.p.run(j), i, Seq::empty()) } }
    #[verifier::external_body]
    fn parse(self, i: Inp<'a>) -> (r: Res<'a, Vec<P::O>, E>) { unimplemented!() } }
pub broadcast group many_lemmas { sp_many0_ext, sp_many0_suffix, sp_many_m_n_ext, sp_many_m_n_suffix, sp_many_m_n_len }

// ---------- cursor operations of the attributes (from the documentation) ----------
pub open spec fn sp_skip<'a, E>(i: Inp<'a>, n: int) -> Result<Inp<'a>, Err<E>> {
    if n <= i.slen() { Ok(i.sfrom(n)) } else { Err(Err::Incomplete(needed())) }
}
/// distance to the smallest multiple of n that is >= p
pub open spec fn sp_pad(p: int, n: int) -> int { if p % n == 0 { 0 } else { n - p % n } }
pub broadcast proof fn sp_pad_least(p: int, n: int)
    requires p >= 0, n > 0
    ensures 0 <= #[trigger] sp_pad(p, n) < n, (p + sp_pad(p, n)) % n == 0
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(p, n);
    vstd::arithmetic::div_mod::lemma_mod_bound(p, n);
    if p % n != 0 {
        assert(p + sp_pad(p, n) == n * (p / n) + n);
        vstd::arithmetic::mul::lemma_mul_is_distributive_add(n, p / n, 1);
        vstd::arithmetic::div_mod::lemma_mod_multiples_basic(p / n + 1, n);
        vstd::arithmetic::mul::lemma_mul_is_commutative(n, p / n + 1);
    }
}
pub proof fn sp_pad_unique(p: int, n: int, k: int)
    requires p >= 0, n > 0, 0 <= k < sp_pad(p, n)
    ensures (p + k) % n != 0
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(p, n);
    vstd::arithmetic::div_mod::lemma_mod_bound(p, n);
    let q = p / n; let r = p % n;
    assert(r != 0);
    assert(p + k == n * q + (r + k));
    assert(0 < r + k < n);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(p + k, n, q, r + k);
}
pub broadcast proof fn pad_formula(r: int, n: int)
    requires 0 <= r < n
    ensures #[trigger] ((n - r) % n) == (if r == 0 { 0 } else { n - r })
{ if r == 0 { vstd::arithmetic::div_mod::lemma_mod_self_0(n); } else { vstd::arithmetic::div_mod::lemma_small_mod((n - r) as nat, n as nat); } }
pub broadcast proof fn mod_bound(p: int, n: int) requires n > 0 ensures 0 <= #[trigger] (p % n) < n { vstd::arithmetic::div_mod::lemma_mod_bound(p, n); }
pub broadcast group pad_lemmas { pad_formula, mod_bound }
pub open spec fn sp_align<'a, E>(o: Inp<'a>, i: Inp<'a>, n: int) -> Result<Inp<'a>, Err<E>> { sp_skip(i, sp_pad(i.pos_in(o), n)) }
pub open spec fn sp_mv<'a, E: ParseError<Inp<'a>>>(o: Inp<'a>, i: Inp<'a>, n: int) -> Result<Inp<'a>, Err<E>> {
    let p = i.pos_in(o) + n;
    if p < 0 { Err(Err::Error(E::mk(i, ErrorKind::TooLarge))) }
    else if p > o.slen() { Err(Err::Incomplete(needed())) }
    else { Ok(o.sfrom(p)) }
}
pub open spec fn sp_mv_abs<'a, E>(o: Inp<'a>, n: int) -> Result<Inp<'a>, Err<E>> {
    if n > o.slen() { Err(Err::Incomplete(needed())) } else { Ok(o.sfrom(n)) }
}
pub open spec fn sp_error_if<'a, E: ParseError<Inp<'a>>>(c: bool, i: Inp<'a>) -> Result<(), Err<E>> { if c { Err(Err::Error(E::mk(i, ErrorKind::Verify))) } else { Ok(()) } }
pub open spec fn sp_switch<'a, O, E: ParseError<Inp<'a>>>(i: Inp<'a>) -> Res<'a, O, E> { Err(Err::Error(E::mk(i, ErrorKind::Switch))) }
pub open spec fn sp_value<'a, O, E>(i: Inp<'a>, o: O) -> Res<'a, O, E> { Ok((i, o)) }

pub uninterp spec fn sp_wrapping_add<T>(a: T, b: T) -> T;
pub uninterp spec fn sp_wrapping_sub<T>(a: T, b: T) -> T;
pub uninterp spec fn sp_wrapping_mul<T>(a: T, b: T) -> T;

// ---------- the same constructors, as specifications ----------
pub open spec fn s_p_any<T, E>() -> PT<T, E> { PT { mode: 0, p: PhantomData } }
pub open spec fn s_p_be<T, E>() -> PT<T, E> { PT { mode: 1, p: PhantomData } }
pub open spec fn s_p_le<T, E>() -> PT<T, E> { PT { mode: 2, p: PhantomData } }
pub open spec fn s_complete<P>(p: P) -> Complete<P> { Complete { p } }
pub open spec fn s_cond<P>(c: bool, p: P) -> Cond<P> { Cond { c, p } }
pub open spec fn s_count<P>(p: P, n: usize) -> Count<P> { Count { p, n } }
pub open spec fn s_length_count<L, P>(l: L, p: P) -> LengthCount<L, P> { LengthCount { l, p } }
pub open spec fn s_into<P, B>(p: P) -> IntoP<P, B> { IntoP { p, b: PhantomData } }
pub open spec fn s_dbg_dmp<P>(p: P, s: &'static str) -> DbgDmp<P> { DbgDmp { p } }
pub open spec fn s_take<N: ToUsize, E>(n: N) -> Take<E> { Take { n: n.sp_to_usize(), e: PhantomData } }
pub open spec fn s_tag<B, E>(t: B) -> Tag<B, E> { Tag { t, e: PhantomData } }
pub open spec fn s_opt<P>(p: P) -> Opt<P> { Opt { p } }
pub open spec fn s_many0<P>(p: P) -> Many0<P> { Many0 { p } }
pub open spec fn s_pair<P, Q>(p: P, q: Q) -> Pair<P, Q> { Pair { p, q } }
pub open spec fn s_many_m_n<P>(m: usize, n: usize, p: P) -> ManyMN<P> { ManyMN { m, n, p } }

//@PRIMS
//@LIBIMPLS
}
}
