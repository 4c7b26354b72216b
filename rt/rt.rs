//! Executable reading of the specification, and the driver that compares it with the real code.
//! Used to look for a concrete failing input; the deciding step is the verifier (see DESIGN.md).
#![allow(dead_code, clippy::all)]
use nom::error::{ErrorKind, ParseError};
use nom::{Err, IResult, Needed};
use std::fmt::Debug;

pub type In<'a> = &'a [u8];
pub type DE<'a> = nom::error::Error<&'a [u8]>;

pub fn complete<'a, O, E: ParseError<In<'a>>>(i: In<'a>, r: IResult<In<'a>, O, E>) -> IResult<In<'a>, O, E> {
    match r { Err(Err::Incomplete(_)) => Err(Err::Error(E::from_error_kind(i, ErrorKind::Complete))), r => r }
}
pub fn cond<'a, O, E>(c: bool, i: In<'a>, f: impl FnOnce(In<'a>) -> IResult<In<'a>, O, E>) -> IResult<In<'a>, Option<O>, E> {
    if c { match f(i) { Ok((j, o)) => Ok((j, Some(o))), Err(e) => Err(e) } } else { Ok((i, None)) }
}
pub fn count<'a, O, E: ParseError<In<'a>>>(n: usize, i0: In<'a>, f: impl Fn(In<'a>) -> IResult<In<'a>, O, E>) -> IResult<In<'a>, Vec<O>, E> {
    let (mut i, mut v, mut k) = (i0, Vec::new(), 0usize);
    while k < n {
        match f(i) {
            Ok((j, o)) => { v.push(o); i = j; }
            Err(Err::Error(e)) => return Err(Err::Error(E::append(i0, ErrorKind::Count, e))),
            Err(e) => return Err(e),
        }
        k += 1;
    }
    Ok((i, v))
}
pub fn length_count<'a, N: nom::ToUsize, O, E: ParseError<In<'a>>>(r: IResult<In<'a>, N, E>, f: impl Fn(In<'a>) -> IResult<In<'a>, O, E>) -> IResult<In<'a>, Vec<O>, E> {
    let (i, n) = r?;
    count(n.to_usize(), i, f)
}
pub fn map<'a, A, B, E>(r: IResult<In<'a>, A, E>, f: impl FnOnce(A) -> B) -> IResult<In<'a>, B, E> {
    match r { Ok((j, o)) => Ok((j, f(o))), Err(e) => Err(e) }
}
pub fn verify<'a, A, E: ParseError<In<'a>>>(i: In<'a>, r: IResult<In<'a>, A, E>, f: impl FnOnce(&A) -> bool) -> IResult<In<'a>, A, E> {
    match r { Ok((j, o)) => if f(&o) { Ok((j, o)) } else { Err(Err::Error(E::from_error_kind(i, ErrorKind::Verify))) }, Err(e) => Err(e) }
}
pub fn value<'a, O, E>(i: In<'a>, o: O) -> IResult<In<'a>, O, E> { Ok((i, o)) }
pub fn take<'a, E: ParseError<In<'a>>>(n: usize, i: In<'a>) -> IResult<In<'a>, In<'a>, E> {
    if n <= i.len() { Ok((&i[n..], &i[..n])) } else { Err(Err::Incomplete(Needed::new(n - i.len()))) }
}
pub fn tag<'a, E: ParseError<In<'a>>>(t: &[u8], i: In<'a>) -> IResult<In<'a>, In<'a>, E> {
    let n = if t.len() < i.len() { t.len() } else { i.len() };
    let mut k = 0;
    while k < n { if t[k] != i[k] { return Err(Err::Error(E::from_error_kind(i, ErrorKind::Tag))); } k += 1; }
    if i.len() < t.len() { Err(Err::Incomplete(Needed::new(t.len() - i.len()))) } else { Ok((&i[t.len()..], &i[..t.len()])) }
}
pub fn pos(o: In, i: In) -> usize { i.as_ptr() as usize - o.as_ptr() as usize }
pub fn skip<'a, E: ParseError<In<'a>>>(i: In<'a>, n: usize) -> Result<In<'a>, Err<E>> { take(n, i).map(|(j, _)| j) }
pub fn align<'a, E: ParseError<In<'a>>>(o: In<'a>, i: In<'a>, n: usize) -> Result<In<'a>, Err<E>> {
    let p = pos(o, i) as u128; let n = n as u128;
    let next = (p + n - 1) / n * n;
    skip(i, (next - p) as usize)
}
pub fn mv<'a, E: ParseError<In<'a>>>(o: In<'a>, i: In<'a>, n: isize) -> Result<In<'a>, Err<E>> {
    let p = pos(o, i) as i128 + n as i128;
    if p < 0 { Err(Err::Error(E::from_error_kind(i, ErrorKind::TooLarge))) }
    else if p > o.len() as i128 { Err(Err::Incomplete(Needed::Unknown)) }
    else { Ok(&o[p as usize..]) }
}
pub fn mv_abs<'a, E: ParseError<In<'a>>>(o: In<'a>, n: usize) -> Result<In<'a>, Err<E>> {
    if n > o.len() { Err(Err::Incomplete(Needed::Unknown)) } else { Ok(&o[n..]) }
}
pub fn error_if<'a, E: ParseError<In<'a>>>(c: bool, i: In<'a>) -> Result<(), Err<E>> {
    if c { Err(Err::Error(E::from_error_kind(i, ErrorKind::Verify))) } else { Ok(()) }
}
pub fn switch<'a, O, E: ParseError<In<'a>>>(i: In<'a>) -> IResult<In<'a>, O, E> { Err(Err::Error(E::from_error_kind(i, ErrorKind::Switch))) }

// ---------------------------------------------------------------- comparison
pub trait ErrView { fn view(&self, base: usize) -> String; }
impl<'a> ErrView for DE<'a> {
    fn view(&self, base: usize) -> String { format!("{:?}@{}+{}", self.code, (self.input.as_ptr() as usize).wrapping_sub(base) as isize, self.input.len()) }
}
impl<'a> ErrView for crate::h::Trace<'a> {
    fn view(&self, base: usize) -> String {
        self.0.iter().map(|(i, k, a)| format!("{}{:?}@{}+{}", if *a { "append:" } else { "" }, k, (i.as_ptr() as usize).wrapping_sub(base) as isize, i.len())).collect::<Vec<_>>().join(",")
    }
}
/// same outcome: same value and same remaining input, or same kind of failure at the same place
pub fn view<O: Debug, E: ErrView>(r: &IResult<In, O, E>, base: usize) -> String {
    match r {
        Ok((j, o)) => format!("Ok rem={}+{} value={:?}", (j.as_ptr() as usize).wrapping_sub(base) as isize, j.len(), o),
        Err(Err::Incomplete(_)) => "Incomplete".into(),
        Err(Err::Error(e)) => format!("Error {}", e.view(base)),
        Err(Err::Failure(e)) => format!("Failure {}", e.view(base)),
    }
}

pub struct Ctx { pub cases: u64, pub nontrivial: u64, pub fails: u64, pub inputs: Vec<(usize, Vec<u8>)>, pub trace: bool, pub given: bool, pub sample: Option<String> }
pub fn rng(s: &mut u64) -> u64 { *s ^= *s << 13; *s ^= *s >> 7; *s ^= *s << 17; *s }

pub fn make_inputs(seed: u64, maxlen: usize, rnd: usize) -> Vec<(usize, Vec<u8>)> {
    let mut s = 0x9E37_79B9_7F4A_7C15u64 ^ (seed.wrapping_mul(0xD134_2543_DE82_EF95) | 1);
    let mut out: Vec<(usize, Vec<u8>)> = Vec::new();
    let mut k = 0usize;
    let mut add = |v: Vec<u8>, out: &mut Vec<(usize, Vec<u8>)>| { k += 1; out.push((1 + (k % 7), v)) };
    for len in 0..=maxlen {
        add((0..len).map(|_| 0u8).collect(), &mut out);
        add((0..len).map(|_| 0xffu8).collect(), &mut out);
        for st in [0u8, 1, 2, 3, 0x10, 0x41, 0x7e, 0xf0] { add((0..len).map(|x| st.wrapping_add(x as u8)).collect(), &mut out); }
        add((0..len).map(|x| if x % 2 == 0 { 0 } else { 1 + (x / 2) as u8 }).collect(), &mut out);
        add((0..len).map(|x| if x % 2 == 1 { 0 } else { 1 + (x / 2) as u8 }).collect(), &mut out);
        for _ in 0..rnd {
            add((0..len).map(|_| (rng(&mut s) % 3) as u8).collect(), &mut out);
            add((0..len).map(|_| (rng(&mut s) % 8) as u8).collect(), &mut out);
            add((0..len).map(|x| if x % 2 == 0 { 0 } else { (rng(&mut s) % 6) as u8 }).collect(), &mut out);
            add((0..len).map(|_| (rng(&mut s) >> 24) as u8).collect(), &mut out);
            add((0..len).map(|_| { let r = rng(&mut s); let b = (r >> 24) as u8; match (r >> 40) % 5 { 0 => b, 1 => b & 3, 2 => 0, 3 => [0x7f, 0x80, 0xff, 0xfe, 1][(r >> 50) as usize % 5], _ => b % 10 } }).collect(), &mut out);
        }
    }
    // integers of every width that differ from a small number only in their upper part
    for w in [2usize, 4, 8, 16] { for v in [0u8, 1, 2, 3, 255] { for p in [1, w / 2, w - 1] { for be in [false, true] {
        let mut x = vec![0u8; w];
        x[0] = v; x[p] = 1;
        if be { x.reverse(); }
        if p == w / 2 { x.push(7); }
        add(x, &mut out);
    } } } }
    out
}

pub fn one_input(h: &str) -> Vec<(usize, Vec<u8>)> {
    let v: Vec<u8> = (0..h.len() / 2).map(|k| u8::from_str_radix(&h[2 * k..2 * k + 2], 16).unwrap()).collect();
    (1..=8).map(|o| (o, v.clone())).collect()
}
fn hex(v: &[u8]) -> String { v.iter().map(|b| format!("{:02x}", b)).collect() }

/// long buffers, with prefixes that give counts beyond 8 and 16 bits in either byte order
pub fn long_inputs() -> Vec<(usize, Vec<u8>)> {
    let mut out = Vec::new();
    let pre: [&[u8]; 14] = [&[], &[1, 1], &[1, 0], &[0, 1], &[0, 255], &[255, 0], &[1, 0, 0, 0], &[0, 0, 1, 2], &[2, 1, 0, 0], &[0, 1, 0, 2], &[2, 0, 1, 0], &[0, 1, 1, 0, 0, 0], &[0, 0, 0, 0, 0, 0, 1, 3], &[3, 1, 0, 0, 0, 0, 0, 0]];
    for (k, p) in pre.iter().enumerate() {
        for len in [300usize, 520, 70_000] {
            if len == 70_000 && p.len() < 4 && !p.is_empty() { continue; }
            let mut v = p.to_vec();
            let mut x = 1u8;
            while v.len() < len { v.push(x % 100); x = x.wrapping_add(1); }
            out.push((1 + k % 7, v));
        }
    }
    out
}
impl Ctx { pub fn long(&self) -> &'static [(usize, Vec<u8>)] {
    static L: std::sync::OnceLock<Vec<(usize, Vec<u8>)>> = std::sync::OnceLock::new();
    if self.given { &[] } else { L.get_or_init(long_inputs) }
} }

/// run one function of one specimen on one input and report a disagreement
pub fn case<'x, O: Debug, E: ErrView, A: Debug>(ctx: &mut Ctx, id: &str, func: &str, buf: &'x [u8], args: &A,
    real: impl Fn(In<'x>) -> IResult<In<'x>, O, E>, spec: impl Fn(In<'x>) -> IResult<In<'x>, O, E>) {
    let base = buf.as_ptr() as usize;
    ctx.cases += 1;
    if ctx.trace { eprintln!("CASE\t{}\t{}\t{:?}", func, hex(buf), args); }
    let want_r = spec(buf);
    let want = view(&want_r, base);
    let got = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| view(&real(buf), base))) {
        Ok(s) => s,
        Err(p) => format!("PANIC {}", p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()),
    };
    if want_r.is_ok() || !want.starts_with("Incomplete") { ctx.nontrivial += 1; }
    if want_r.is_ok() && (ctx.sample.is_none() || ctx.cases % 997 == 0) { ctx.sample = Some(format!("{}::{}({:?}, input {}) = {}", id, func, args, hex(buf), want)); }
    if got != want {
        ctx.fails += 1;
        println!("FAIL\t{}\t{}\t{}\t{:?}\t{}\t{}", id, func, hex(buf), args, got.replace(['\t', '\n'], " "), want.replace(['\t', '\n'], " "));
    }
}
