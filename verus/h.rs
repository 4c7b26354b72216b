verus! {
// user items the specimens refer to: opaque, known only through their contracts
pub mod h {
use vstd::prelude::*;
use super::nomv::*;
use super::nomv;
//@PROBES
pub uninterp spec fn sp_m8(x: u8) -> u16;
#[verifier::external_body] pub fn m8(x: u8) -> (r: u16) ensures r == sp_m8(x) { unimplemented!() }
pub uninterp spec fn sp_un8(x: u8) -> usize;
#[verifier::external_body] pub fn un8(x: u8) -> (r: usize) ensures r == sp_un8(x) { unimplemented!() }
pub uninterp spec fn sp_m8b(x: u8) -> u8;
#[verifier::external_body] pub fn m8b(x: u8) -> (r: u8) ensures r == sp_m8b(x) { unimplemented!() }
pub uninterp spec fn sp_is_ok8(x: u8) -> bool;
#[verifier::external_body] pub fn is_ok8(x: u8) -> (r: bool) ensures r == sp_is_ok8(x) { unimplemented!() }
pub uninterp spec fn sp_m16(x: u16) -> u32;
#[verifier::external_body] pub fn m16(x: u16) -> (r: u32) ensures r == sp_m16(x) { unimplemented!() }
pub struct W<T>(pub T);
pub uninterp spec fn sp_md<T>(x: T) -> W<T>;
#[verifier::external_body] pub fn md<T>(x: T) -> (r: W<T>) ensures r == sp_md(x) { unimplemented!() }
pub uninterp spec fn sp_pick(x: u8) -> nomv::Endianness;
#[verifier::external_body] pub fn pick(x: u8) -> (r: nomv::Endianness) ensures r == sp_pick(x) { unimplemented!() }
pub open spec fn sp_vlen<T>(v: &Vec<T>) -> usize { v.slen() as usize }
pub fn vlen<T>(v: &Vec<T>) -> (r: usize) ensures r == sp_vlen(v) { broadcast use nomv::vec_len; v.len() }
pub open spec fn sp_dlen(v: &Inp) -> usize { v.slen() as usize }
pub fn dlen(v: &Inp) -> (r: usize) ensures r == sp_dlen(v) { broadcast use nomv::inp_axioms; v.len() }
pub open spec fn sp_osome<T>(v: &Option<T>) -> bool { *v is Some }
pub fn osome<T>(v: &Option<T>) -> (r: bool) ensures r == sp_osome(v) { v.is_some() }
#[verifier::external_body] pub struct Into16 { z: u16 }
}
}
