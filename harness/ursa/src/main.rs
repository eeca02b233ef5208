//! Replay / bounded harness for libursa: properties C01..C07, U01..U04, K01, A01, D01, F01.
#[macro_use]
extern crate hcommon;
use hcommon::*;
mod keys;
mod iss;
mod pres;
mod adv;
mod rev;
mod misc;
mod bn;
mod agg;
mod symm;
mod dsa;
mod ffi;

fn main() {
    if std::env::args().nth(1).as_deref() == Some("gen") { keys::gen(); return; }
    let mut s = vec![];
    s.extend(iss::all()); s.extend(pres::all()); s.extend(adv::all()); s.extend(rev::all()); s.extend(misc::all()); s.extend(bn::all()); s.extend(agg::all()); s.extend(symm::all()); s.extend(dsa::all()); s.extend(ffi::all());
    hcommon::main(&s);
}
