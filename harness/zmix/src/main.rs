//! Replay / bounded harness for libzmix: properties P01..P04, V01 (impl_PoK_VC!), G01, G02, E01.
//! Oracles recompute the scheme equations directly over amcl_wrapper.
#[macro_use]
extern crate hcommon;
use hcommon::*;
use rand::{Rng, RngCore};
use zmix::amcl_wrapper::extension_field_gt::GT;
use zmix::amcl_wrapper::field_elem::{FieldElement as FE, FieldElementVector as FEV};
use zmix::amcl_wrapper::group_elem::GroupElement;
use zmix::amcl_wrapper::group_elem_g1::{G1, G1Vector};
use zmix::amcl_wrapper::group_elem_g2::{G2, G2Vector};
mod cs;
mod groth;
mod ps;
mod vc;

pub fn fer(r: &mut R) -> FE { let mut b = [0u8; 40]; r.fill_bytes(&mut b); FE::from_msg_hash(&b) }
pub fn fe(r: &mut R) -> FE {
    match r.gen_range(0, 10) { 0 => FE::zero(), 1 => FE::one(), 2 => FE::minus_one(), 3 => FE::from(r.gen::<u32>()), _ => fer(r) }
}
pub fn fenz(r: &mut R) -> FE { loop { let x = fe(r); if !x.is_zero() { return x; } } }
pub fn fes(r: &mut R, n: usize) -> Vec<FE> { (0..n).map(|_| fe(r)).collect() }
pub fn g1(r: &mut R) -> G1 { &G1::generator() * &fer(r) }
pub fn g2(r: &mut R) -> G2 { &G2::generator() * &fer(r) }
pub fn feq(a: &FE, b: &FE) -> bool { (a - b).is_zero() }
pub fn gt_eq(a: &GT, b: &GT) -> bool { a == b }
pub fn pr(a: &G1, b: &G2) -> GT { GT::ate_pairing(a, b) }

fn main() {
    let mut s = vec![];
    s.extend(ps::all()); s.extend(vc::all()); s.extend(groth::all()); s.extend(cs::all());
    hcommon::main(&s);
}
