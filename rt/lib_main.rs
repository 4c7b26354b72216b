//! The library types, compared with an independent reading of what they must do.
//! Looks for concrete failing inputs; the deciding step of C01..C03 is the verifier.
#![allow(unused, non_camel_case_types, clippy::all)]
mod rt;
mod h;
use h::*;
use nom::error::{ErrorKind, FromExternalError, ParseError};
use nom::{Err, IResult, Needed, ToUsize};
use nom_derive::{LengthData, Parse};
use rt::{Ctx, In, DE};
use std::fmt::Debug;

type R<'a, O, E> = IResult<In<'a>, O, E>;

/// the modes: parse, parse_be, parse_le
#[derive(Clone, Copy, PartialEq, Debug)]
enum M { Any, Be, Le }
/// an executable reference for a type
trait Ref<'a, E>: Sized { fn r(m: M, i: In<'a>) -> R<'a, Self, E>; }

macro_rules! prims { ($($t:ty, $n:expr, |$v:ident| $conv:expr;)*) => { $(
impl<'a, E: ParseError<In<'a>>> Ref<'a, E> for $t {
    fn r(m: M, i: In<'a>) -> R<'a, Self, E> {
        if i.len() < $n { return Err(Err::Incomplete(Needed::new($n - i.len()))); }
        let mut $v: u128 = 0;
        for k in 0..$n { let b = if m == M::Le { i[$n - 1 - k] } else { i[k] }; $v = ($v << 8) | b as u128; }
        Ok((&i[$n..], $conv))
    }
} )* } }
prims! {
    u8, 1, |v| v as u8; u16, 2, |v| v as u16; u32, 4, |v| v as u32; u64, 8, |v| v as u64; u128, 16, |v| v;
    i8, 1, |v| v as i8; i16, 2, |v| v as i16; i32, 4, |v| v as i32; i64, 8, |v| v as i64; i128, 16, |v| v as i128;
    f32, 4, |v| f32::from_bits(v as u32); f64, 8, |v| f64::from_bits(v as u64);
}
macro_rules! own { ($($t:ty),*) => { $( impl<'a, E: ParseError<In<'a>>> Ref<'a, E> for $t {
    fn r(m: M, i: In<'a>) -> R<'a, Self, E> { match m { M::Any => <$t>::parse(i), M::Be => <$t>::parse_be(i), M::Le => <$t>::parse_le(i) } }
} )* } }
own!(P0, P1);
impl<'a, E: ParseError<In<'a>>> Ref<'a, E> for Pd { fn r(_: M, i: In<'a>) -> R<'a, Self, E> { Pd::parse(i) } }   // parse_be and parse_le default to parse

impl<'a, E: ParseError<In<'a>>, T: Ref<'a, E>> Ref<'a, E> for Option<T> {
    fn r(m: M, i: In<'a>) -> R<'a, Self, E> {
        match T::r(m, i) { Ok((j, o)) => Ok((j, Some(o))), Err(Err::Failure(e)) => Err(Err::Failure(e)), _ => Ok((i, None)) }
    }
}
impl<'a, E: ParseError<In<'a>>, T: Ref<'a, E>> Ref<'a, E> for Vec<T> {
    fn r(m: M, i: In<'a>) -> R<'a, Self, E> {
        let (mut i, mut v) = (i, vec![]);
        loop {
            match T::r(m, i) {
                Ok((j, o)) => { if j.len() == i.len() { return Err(Err::Error(E::from_error_kind(i, ErrorKind::Many0))); } v.push(o); i = j; }
                Err(Err::Failure(e)) => return Err(Err::Failure(e)),
                _ => return Ok((i, v)),
            }
        }
    }
}
impl<'a, E: ParseError<In<'a>>, A: Ref<'a, E>, B: Ref<'a, E>> Ref<'a, E> for (A, B) {
    fn r(m: M, i: In<'a>) -> R<'a, Self, E> { let (i, a) = A::r(m, i)?; let (i, b) = B::r(m, i)?; Ok((i, (a, b))) }
}
impl<'a, E: ParseError<In<'a>>, T: Ref<'a, E>, const N: usize> Ref<'a, E> for [T; N] {
    #[cfg(not(noalloc))]
    fn r(m: M, i: In<'a>) -> R<'a, Self, E> {
        let (mut i, mut v) = (i, vec![]);
        for _ in 0..N {
            match rt::complete(i, T::r(m, i)) {
                Ok((j, o)) => { if j.len() == i.len() { return Err(Err::Error(E::from_error_kind(i, ErrorKind::ManyMN))); } v.push(o); i = j; }
                Err(Err::Error(e)) => return Err(Err::Error(E::append(i, ErrorKind::ManyMN, e))),
                Err(e) => return Err(e),
            }
        }
        Ok((i, <[T; N]>::try_from(v).ok().unwrap()))
    }
    #[cfg(noalloc)]
    fn r(m: M, i: In<'a>) -> R<'a, Self, E> {
        let (mut j, mut v) = (i, vec![]);
        for _ in 0..N {
            match T::r(m, j) {
                Ok((k, o)) => { v.push(o); j = k; }
                Err(Err::Error(e)) => return Err(Err::Error(E::append(i, ErrorKind::Count, e))),
                Err(e) => return Err(e),
            }
        }
        Ok((j, <[T; N]>::try_from(v).ok().unwrap()))
    }
}
#[cfg(not(noalloc))]
impl<'a, E: ParseError<In<'a>> + FromExternalError<In<'a>, std::str::Utf8Error>> Ref<'a, E> for String {
    fn r(_: M, i: In<'a>) -> R<'a, Self, E> {
        let (i, n) = <u32 as Ref<'a, E>>::r(M::Be, i)?;
        if i.len() < n as usize { return Err(Err::Incomplete(Needed::Unknown)); }
        match std::str::from_utf8(&i[..n as usize]) { Ok(s) => Ok((&i[n as usize..], s.to_string())), Err(e) => Err(Err::Error(E::from_external_error(i, ErrorKind::MapRes, e))) }
    }
}
impl<'a, E: ParseError<In<'a>>, L: Ref<'a, E> + ToUsize> Ref<'a, E> for LengthData<L, In<'a>> {
    fn r(m: M, i: In<'a>) -> R<'a, Self, E> {
        let (i, n) = L::r(m, i)?;
        let n = n.to_usize();
        if i.len() < n { return Err(Err::Incomplete(Needed::Unknown)); }
        Ok((&i[n..], LengthData::new(&i[..n])))
    }
}
#[derive(Debug, PartialEq, Clone, Copy, Default)]
struct Lx(u8);
impl<'a, E: ParseError<In<'a>>> Parse<In<'a>, E> for Lx { fn parse(i: In<'a>) -> R<'a, Self, E> { len8(i).map(|(i, x)| (i, Lx(x))) } fn parse_le(i: In<'a>) -> R<'a, Self, E> { len8(i).map(|(i, x)| (i, Lx(x ^ 1))) } }
impl<'a, E: ParseError<In<'a>>> Ref<'a, E> for Lx { fn r(m: M, i: In<'a>) -> R<'a, Self, E> { match m { M::Le => Self::parse_le(i), M::Be => Self::parse_be(i), M::Any => Self::parse(i) } } }
impl ToUsize for Lx { fn to_usize(&self) -> usize { if self.0 == 0x41 { usize::MAX } else { self.0 as usize } } }
/// consumes nothing
#[derive(Debug, PartialEq, Clone, Copy, Default)]
struct U0;
impl<'a, E: ParseError<In<'a>>> Parse<In<'a>, E> for U0 { fn parse(i: In<'a>) -> R<'a, Self, E> { Ok((i, U0)) } }
impl<'a, E: ParseError<In<'a>>> Ref<'a, E> for U0 { fn r(_: M, i: In<'a>) -> R<'a, Self, E> { Ok((i, U0)) } }

/// compare bits, not floats
trait Bits { type B: Debug; fn bits(self) -> Self::B; }
macro_rules! bits { ($($t:ty),*) => { $( impl Bits for $t { type B = Self; fn bits(self) -> Self { self } } )* } }
bits!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, P0, P1, Pd, Lx, U0, String);
impl Bits for f32 { type B = u32; fn bits(self) -> u32 { self.to_bits() } }
impl Bits for f64 { type B = u64; fn bits(self) -> u64 { self.to_bits() } }
impl<T: Bits> Bits for Option<T> { type B = Option<T::B>; fn bits(self) -> Self::B { self.map(T::bits) } }
impl<T: Bits> Bits for Vec<T> { type B = Vec<T::B>; fn bits(self) -> Self::B { self.into_iter().map(T::bits).collect() } }
impl<A: Bits, B: Bits> Bits for (A, B) { type B = (A::B, B::B); fn bits(self) -> Self::B { (self.0.bits(), self.1.bits()) } }
impl<T: Bits, const N: usize> Bits for [T; N] { type B = [T::B; N]; fn bits(self) -> Self::B { self.map(T::bits) } }
impl<'a, L> Bits for LengthData<L, In<'a>> { type B = In<'a>; fn bits(self) -> In<'a> { self.data } }

macro_rules! check { ($ctx:expr, $x:expr, $($t:ty),* $(,)?) => { $(
    check!(@e $ctx, $x, DE<'_>, "", $t); check!(@e $ctx, $x, Trace<'_>, "[tracing errors]", $t);
)* };
(@e $ctx:expr, $x:expr, $e:ty, $n:expr, $t:ty) => {
    let inputs = std::mem::take(&mut $ctx.inputs);
    for (off, v) in &inputs {
        let mut b = vec![0xAA; *off]; b.extend_from_slice(v);
        let buf = &b[*off..];
        for m in [M::Any, M::Be, M::Le] {
            let name = format!("{}::{}{}", stringify!($t), match m { M::Any => "parse", M::Be => "parse_be", M::Le => "parse_le" }, $n);
            rt::case::<_, $e, _>($ctx, $x, &name, buf, &(),
                |i| match m { M::Any => <$t as Parse<In, $e>>::parse(i), M::Be => <$t as Parse<In, $e>>::parse_be(i), M::Le => <$t as Parse<In, $e>>::parse_le(i) }.map(|(j, v)| (j, v.bits())),
                |i| <$t as Ref<$e>>::r(m, i).map(|(j, v)| (j, v.bits())));
        }
    }
    $ctx.inputs = inputs;
} }
//@RUNS
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let (seed, maxlen, rnd): (u64, usize, usize) = (a[1].parse().unwrap(), a[2].parse().unwrap(), a[3].parse().unwrap());
    let inputs = if a.len() > 5 { rt::one_input(&a[5]) } else { rt::make_inputs(seed, maxlen, rnd) };
    let mut ctx = Ctx { cases: 0, nontrivial: 0, fails: 0, inputs, trace: std::env::var("NV_TRACE").is_ok(), given: a.len() > 5, sample: None };
    for (name, f) in RUNS {
        if a.len() > 4 && !a[4].split(',').any(|x| x == *name) { continue; }
        let (c0, n0) = (ctx.cases, ctx.nontrivial);
        ctx.sample = None;
        f(&mut ctx);
        println!("DONE\t{}\t{}\t{}\t{}", name, ctx.cases - c0, ctx.nontrivial - n0, ctx.sample.clone().unwrap_or_default().replace(['\t', '\n'], " "));
    }
    println!("END\t{}\t{}\t{}", ctx.cases, ctx.nontrivial, ctx.inputs.len());
}
