//! Replay / bounded harness for bulletproofs_amcl: properties R01 (inner-product argument), R02 (constraint
//! systems), R03 (gadgets and sparse Merkle trees).
#[macro_use]
extern crate hcommon;
use amcl_wrapper::field_elem::{FieldElement as FE, FieldElementVector as FEV};
use amcl_wrapper::group_elem::{GroupElement, GroupElementVector};
use amcl_wrapper::group_elem_g1::{G1Vector, G1};
use hcommon::*;
use rand::{Rng, RngCore};
mod gadgets;
mod ipp;
mod r1cs;
mod tree;

pub fn fer(r: &mut R) -> FE { let mut b = [0u8; 40]; r.fill_bytes(&mut b); FE::from_msg_hash(&b) }
pub fn fe(r: &mut R) -> FE {
    match r.gen_range(0, 10) { 0 => FE::zero(), 1 => FE::one(), 2 => FE::minus_one(), 3 => FE::from(r.gen::<u32>()), _ => fer(r) }
}
pub fn fenz(r: &mut R) -> FE { loop { let x = fe(r); if !x.is_zero() { return x; } } }
pub fn fev(r: &mut R, n: usize) -> FEV { let v: Vec<FE> = (0..n).map(|_| fe(r)).collect(); v.into() }
pub fn g1(r: &mut R) -> G1 { &G1::generator() * &fer(r) }
pub fn g1v(r: &mut R, n: usize) -> G1Vector { let v: Vec<G1> = (0..n).map(|_| g1(r)).collect(); v.into() }
pub fn feq(a: &FE, b: &FE) -> bool { (a - b).is_zero() }

fn main() {
    let mut s = vec![];
    s.extend(ipp::all()); s.extend(r1cs::all()); s.extend(gadgets::all()); s.extend(tree::all());
    hcommon::main(&s);
}
