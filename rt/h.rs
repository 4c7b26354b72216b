//! Helper items that specimens refer to (user code from the point of view of the derive).
#![allow(dead_code)]
use nom::error::{ErrorKind, ParseError};
use nom::{Err, IResult, Needed};
use nom_derive::Parse;

/// An error type that records everything it is told.
#[derive(Debug, PartialEq, Clone)]
pub struct Trace<'a>(pub Vec<(&'a [u8], ErrorKind, bool)>);
impl<'a, X> nom::error::FromExternalError<&'a [u8], X> for Trace<'a> { fn from_external_error(i: &'a [u8], k: ErrorKind, _: X) -> Self { Trace(vec![(i, k, false), (i, ErrorKind::Eof, false)]) } }
impl<'a> ParseError<&'a [u8]> for Trace<'a> {
    fn from_error_kind(i: &'a [u8], k: ErrorKind) -> Self { Trace(vec![(i, k, false)]) }
    fn append(i: &'a [u8], k: ErrorKind, mut o: Self) -> Self { o.0.push((i, k, true)); o }
}

/// Probe: a parser whose three methods are all distinguishable, and that can fail in every way.
#[derive(Debug, PartialEq, Clone, Copy, Default)]
pub struct P0(pub u8, pub u8);
/// Another one, consuming a variable amount.
#[derive(Debug, PartialEq, Clone, Copy, Default)]
pub struct P1(pub u8, pub u8);
fn probe<'a, E: ParseError<&'a [u8]>>(i: &'a [u8], mode: u8, var: bool) -> IResult<&'a [u8], (u8, u8), E> {
    match i.first() {
        None => Err(Err::Incomplete(Needed::new(1))),
        Some(0xf3) => Err(Err::Error(E::from_error_kind(i, ErrorKind::Alpha))),
        Some(0xf4) => Err(Err::Failure(E::from_error_kind(i, ErrorKind::Digit))),
        Some(0xf5) => Err(Err::Incomplete(Needed::Unknown)),
        Some(&b) => {
            let n = if var { 1 + (b % 3) as usize } else { 1 };
            if i.len() < n { return Err(Err::Incomplete(Needed::new(n - i.len()))); }
            Ok((&i[n..], (mode, b)))
        }
    }
}
impl<'a, E: ParseError<&'a [u8]>> Parse<&'a [u8], E> for P0 {
    fn parse(i: &'a [u8]) -> IResult<&'a [u8], Self, E> { probe(i, 0, false).map(|(j, x)| (j, P0(x.0, x.1))) }
    fn parse_be(i: &'a [u8]) -> IResult<&'a [u8], Self, E> { probe(i, 1, false).map(|(j, x)| (j, P0(x.0, x.1))) }
    fn parse_le(i: &'a [u8]) -> IResult<&'a [u8], Self, E> { probe(i, 2, false).map(|(j, x)| (j, P0(x.0, x.1))) }
}
impl<'a, E: ParseError<&'a [u8]>> Parse<&'a [u8], E> for P1 {
    fn parse(i: &'a [u8]) -> IResult<&'a [u8], Self, E> { probe(i, 0, true).map(|(j, x)| (j, P1(x.0, x.1))) }
    fn parse_be(i: &'a [u8]) -> IResult<&'a [u8], Self, E> { probe(i, 1, true).map(|(j, x)| (j, P1(x.0, x.1))) }
    fn parse_le(i: &'a [u8]) -> IResult<&'a [u8], Self, E> { probe(i, 2, true).map(|(j, x)| (j, P1(x.0, x.1))) }
}
/// A type that only implements `parse` (the other two methods are the trait's defaults).
#[derive(Debug, PartialEq, Clone, Copy, Default)]
pub struct Pd(pub u8);
impl<'a, E: ParseError<&'a [u8]>> Parse<&'a [u8], E> for Pd {
    fn parse(i: &'a [u8]) -> IResult<&'a [u8], Self, E> { probe(i, 0, false).map(|(j, x)| (j, Pd(x.1))) }
}

// opaque user functions
pub fn m8(x: u8) -> u16 { 0x100 | (x as u16) }
pub fn m8b(x: u8) -> u8 { x.rotate_left(3) ^ 0xa5 }
pub fn is_ok8(x: u8) -> bool { x % 3 != 1 }
pub fn m16(x: u16) -> u32 { (x as u32).rotate_left(9) ^ 0x55 }
pub fn md<T>(x: T) -> W<T> { W(x) }
#[derive(Debug, PartialEq, Clone, Copy, Default)]
pub struct W<T>(pub T);
pub fn up<'a, E: ParseError<&'a [u8]>>(i: &'a [u8]) -> IResult<&'a [u8], u16, E> {
    match i { [] => Err(Err::Incomplete(Needed::new(1))), [0xf6, ..] => Err(Err::Error(E::from_error_kind(i, ErrorKind::Float))),
        [b, ..] => Ok((&i[1..], 0x300 | *b as u16)) }
}
pub fn up8<'a, E: ParseError<&'a [u8]>>(i: &'a [u8]) -> IResult<&'a [u8], u8, E> {
    match i { [] => Err(Err::Incomplete(Needed::new(1))), [0xf6, ..] => Err(Err::Error(E::from_error_kind(i, ErrorKind::Float))),
        [b, ..] => Ok((&i[1..], b.wrapping_mul(3))) }
}
/// a user parser with a length-like result
pub fn len8<'a, E: ParseError<&'a [u8]>>(i: &'a [u8]) -> IResult<&'a [u8], u8, E> {
    match i { [] => Err(Err::Incomplete(Needed::new(1))), [0xf6, ..] => Err(Err::Error(E::from_error_kind(i, ErrorKind::Float))), [b, ..] => Ok((&i[1..], *b)) }
}
pub fn len16<'a, E: ParseError<&'a [u8]>>(i: &'a [u8]) -> IResult<&'a [u8], u16, E> {
    match i { [] | [_] => Err(Err::Incomplete(Needed::new(1))), [a, b, ..] => Ok((&i[2..], u16::from_le_bytes([*a, *b]))) }
}
pub fn len64<'a, E: ParseError<&'a [u8]>>(i: &'a [u8]) -> IResult<&'a [u8], u64, E> {
    match i { [] => Err(Err::Incomplete(Needed::new(1))), [b, ..] => Ok((&i[1..], if *b == 0xff { u64::MAX } else { *b as u64 })) }
}
pub fn pick(x: u8) -> nom::number::Endianness { if x & 1 == 1 { nom::number::Endianness::Little } else { nom::number::Endianness::Big } }
#[derive(Debug, PartialEq, Clone, Copy, Eq, Default)]
pub struct Into16(pub u16);
impl From<u16> for Into16 { fn from(x: u16) -> Self { Into16(x ^ 0x0f0f) } }
impl From<u8> for Into16 { fn from(x: u8) -> Self { Into16(x as u16 ^ 0x0f) } }
pub fn vlen<T>(v: &Vec<T>) -> usize { v.len() }
pub fn dlen(d: &&[u8]) -> usize { d.len() }
pub fn osome<T>(d: &Option<T>) -> bool { d.is_some() }
pub fn un8(x: u8) -> usize { (x % 3) as usize }
pub fn m8c(x: u8) -> u8 { x ^ 0x3c }
pub fn up2<'a, E: ParseError<&'a [u8]>>(i: &'a [u8]) -> IResult<&'a [u8], u16, E> {
    match i { [] => Err(Err::Incomplete(Needed::new(1))), [b, ..] => Ok((&i[1..], 0x500 | *b as u16)) }
}
pub fn mkp<'a, E: ParseError<&'a [u8]>>(n: u8) -> impl Fn(&'a [u8]) -> IResult<&'a [u8], u16, E> + Clone { move |i| match i { [] => Err(Err::Incomplete(Needed::new(1))), [b, ..] => Ok((&i[1..], *b as u16 + n as u16)) } }
macro_rules! named { ($($n:ident)*) => { $( #[derive(Debug, PartialEq, Clone, Copy)] pub struct $n(pub u8); impl Default for $n { fn default() -> Self { $n(42) } } )* } }
named!(OptionX VecX PhantomDataX MyOption);
