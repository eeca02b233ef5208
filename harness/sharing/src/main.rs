//! Replay / bounded harness for ursa_sharing: S01..S03, over a 61-bit prime field and a group given by its discrete logs.
#[macro_use]
extern crate hcommon;
use hcommon::*;
use rand::{CryptoRng, Rng, RngCore};
use std::convert::TryFrom;
use ursa_sharing::error::{SharingError, SharingResult};
use ursa_sharing::feldman::{FeldmanVerifier, Scheme as Feldman};
use ursa_sharing::generic_array::{typenum::{U12, U8}, GenericArray};
use ursa_sharing::pedersen::{PedersenVerifier, PedersenVssResult, Scheme as Pedersen};
use ursa_sharing::shamir::{Scheme as Shamir, Share};
use ursa_sharing::{Field, Group};

const P: u64 = (1 << 61) - 1;
fn add(a: u64, b: u64) -> u64 { (a + b) % P }
fn sub(a: u64, b: u64) -> u64 { (a + P - b) % P }
fn mul(a: u64, b: u64) -> u64 { ((a as u128 * b as u128) % P as u128) as u64 }
fn pw(mut a: u64, mut e: u64) -> u64 { let mut o = 1; while e > 0 { if e & 1 == 1 { o = mul(o, a); } a = mul(a, a); e >>= 1; } o }
fn inv(a: u64) -> u64 { pw(a, P - 2) }

/// scalars: 8 bytes
#[derive(Clone, Debug, PartialEq)]
pub struct S(u64);
/// group elements, by discrete log: 12 bytes, the last four are a tag
#[derive(Clone, Debug, PartialEq)]
pub struct G(u64);
impl Group for S {
    type Size = U8;
    fn zero() -> Self { S(0) }
    fn from_bytes<B: AsRef<[u8]>>(v: B) -> SharingResult<Self> {
        let v = v.as_ref(); if v.len() != 8 { return Err(SharingError::ShareInvalidValue); }
        let mut b = [0u8; 8]; b.copy_from_slice(v); let x = u64::from_be_bytes(b);
        if x < P { Ok(S(x)) } else { Err(SharingError::ShareInvalidValue) }
    }
    fn random(r: &mut (impl RngCore + CryptoRng)) -> Self { S(1 + r.next_u64() % (P - 1)) }
    fn is_zero(&self) -> bool { self.0 == 0 }
    fn is_valid(&self) -> bool { self.0 != 0 }
    fn negate(&mut self) { self.0 = sub(0, self.0) }
    fn add_assign(&mut self, r: &Self) { self.0 = add(self.0, r.0) }
    fn sub_assign(&mut self, r: &Self) { self.0 = sub(self.0, r.0) }
    fn scalar_mul_assign(&mut self, r: &S) { self.0 = mul(self.0, r.0) }
    fn to_bytes(&self) -> GenericArray<u8, U8> { GenericArray::clone_from_slice(&self.0.to_be_bytes()) }
}
impl Field for S {
    fn one() -> Self { S(1) }
    fn from_usize(v: usize) -> Self { S(v as u64 % P) }
    fn scalar_div_assign(&mut self, r: &Self) { self.0 = mul(self.0, inv(r.0)) }
}
impl Group<S> for G {
    type Size = U12;
    fn zero() -> Self { G(0) }
    fn from_bytes<B: AsRef<[u8]>>(v: B) -> SharingResult<Self> {
        let v = v.as_ref(); if v.len() != 12 || v[8..] != *b"grp!" { return Err(SharingError::ShareInvalidValue); }
        S::from_bytes(&v[..8]).map(|x| G(x.0))
    }
    fn random(r: &mut (impl RngCore + CryptoRng)) -> Self { G(S::random(r).0) }
    fn is_zero(&self) -> bool { self.0 == 0 }
    fn is_valid(&self) -> bool { self.0 != 0 }
    fn negate(&mut self) { self.0 = sub(0, self.0) }
    fn add_assign(&mut self, r: &Self) { self.0 = add(self.0, r.0) }
    fn sub_assign(&mut self, r: &Self) { self.0 = sub(self.0, r.0) }
    fn scalar_mul_assign(&mut self, r: &S) { self.0 = mul(self.0, r.0) }
    fn to_bytes(&self) -> GenericArray<u8, U12> { let mut b = self.0.to_be_bytes().to_vec(); b.extend(b"grp!"); GenericArray::clone_from_slice(&b) }
}
fn sb(x: u64) -> Vec<u8> { S(x).to_bytes().to_vec() }
fn gb(x: u64) -> Vec<u8> { Group::<S>::to_bytes(&G(x)).to_vec() }
fn sv(s: &Share) -> u64 { S::from_bytes(s.value()).unwrap().0 }
fn el(r: &mut R) -> u64 { match range(r, 0, 6) { 0 => 1, 1 => P - 1, 2 => range(r, 1, 300) as u64, _ => 1 + r.next_u64() % (P - 1) } }
fn tn(r: &mut R) -> (usize, usize) {
    match range(r, 0, 12) { 0 => (2, range(r, 250, 270)), 1 => { let n = range(r, 20, 40); (range(r, 2, n + 1), n) } _ => { let n = range(r, 2, 11); (range(r, 2, n + 1), n) } }
}
fn shuffle<T>(r: &mut R, v: &mut Vec<T>) { for i in (1..v.len()).rev() { let j = range(r, 0, i + 1); v.swap(i, j); } }
fn pick(r: &mut R, v: &[Share], m: usize) -> Vec<Share> { let mut v = v.to_vec(); if coin(r) { shuffle(r, &mut v); } else { let k = range(r, 0, v.len()); v.rotate_left(k); } v.truncate(m); v }
type Comb<T> = Box<dyn Fn(&[Share]) -> SharingResult<T>>;
/// shares of one of the three schemes, and its recombination to field and to group elements
fn split(r: &mut R, k: u32, t: usize, n: usize, x: u64) -> Result<(Vec<Share>, Comb<S>, Comb<G>), String> {
    let e = |e: SharingError| format!("honest split of {} of {} fails: {:?}", t, n, e);
    Ok(match k % 3 {
        0 => { let s = Shamir::new(t, n).map_err(e)?; (s.split_secret(r, &S(x)).map_err(e)?, Box::new(move |v: &[Share]| s.combine_shares(v)), Box::new(move |v: &[Share]| s.combine_shares::<S, G>(v))) }
        1 => { let s = Feldman::new(t, n).map_err(e)?; let g = if coin(r) { Some(G(el(r))) } else { None };
            (s.split_secret::<S, G>(r, &S(x), g).map_err(e)?.1, Box::new(move |v: &[Share]| s.combine_shares::<S, S>(v)), Box::new(move |v: &[Share]| s.combine_shares::<S, G>(v))) }
        _ => { let s = Pedersen::new(t, n).map_err(e)?; let g = if coin(r) { Some(G(el(r))) } else { None };
            let h = if coin(r) { Some(G(el(r))) } else { None };
            let o = s.split_secret::<S, G>(r, &S(x), g, h).map_err(e)?;
            let (b, c): (Comb<S>, Comb<G>) = (Box::new(move |v: &[Share]| s.combine_shares::<S, S>(v)), Box::new(move |v: &[Share]| s.combine_shares::<S, G>(v)));
            // the blinding shares recombine to the blinding
            let m = range(r, t, n + 1); let bs = pick(r, &o.blinding_shares, m);
            let w = b(&bs).map_err(e)?; ensure!(w == o.blinding, "blinding shares recombine to another value");
            (o.secret_shares, b, c) }
    })
}
fn recombine(r: &mut R, k: u32) -> Out {
    let (t, n) = tn(r); let x = el(r); let (sh, cs, cg) = split(r, k, t, n, x)?;
    ensure!(sh.len() == n, "{} shares instead of {}", sh.len(), n);
    let mut ids: Vec<u32> = sh.iter().map(|s| s.identifier()).collect(); ids.sort(); ids.dedup();
    ensure!(ids.len() == n && ids[0] > 0, "identifiers are not distinct and non-zero");
    for _ in 0..3 {
        let m = if coin(r) { t } else { range(r, t, n + 1) }; let sel = pick(r, &sh, m);
        let w = cs(&sel).map_err(|e| format!("{} of {}: {} shares not combined: {:?}", t, n, m, e))?;
        ensure!(w.0 == x, "{} of {}: {} shares recombine to another field element", t, n, m);
        let g = el(r); let gs: Vec<Share> = sel.iter().map(|s| Share::new(s.identifier() as usize, gb(mul(g, sv(s))))).collect();
        let w = cg(&gs).map_err(|e| format!("group shares not combined: {:?}", e))?;
        ensure!(w.0 == mul(g, x), "{} of {}: {} shares recombine to another group element", t, n, m);
        // t-1 shares of degree t-1 do not determine the secret: they are refused
        let few = pick(r, &sh, t - 1); ensure!(cs(&few).is_err(), "{} shares of a threshold of {} combined", t - 1, t);
    }
    Ok(())
}
fn rejects(r: &mut R, k: u32) -> Out {
    let (t, n) = tn(r); let x = el(r); let (sh, cs, cg) = split(r, k, t, n, x)?;
    let m = range(r, t, n + 1); let sel = pick(r, &sh, m); let i = range(r, 0, m); let mut j = range(r, 0, m); if i == j { j = (j + 1) % m; }
    let gs = |v: &[Share]| -> Vec<Share> { v.iter().map(|s| Share::new(s.identifier() as usize, gb(S::from_bytes(s.value()).map(|x| x.0).unwrap_or(0)))).collect() };
    let mut dup = sel.clone(); dup[i] = if coin(r) { sel[j].clone() } else { Share::new(sel[j].identifier() as usize, sb(el(r))) };
    ensure!(cs(&dup).is_err(), "duplicate identifier accepted"); ensure!(cg(&gs(&dup)).is_err(), "duplicate identifier accepted (group)");
    let mut more = sel.clone(); more.push(sel[i].clone()); shuffle(r, &mut more); ensure!(cs(&more).is_err(), "repeated share accepted");
    let mut z = sel.clone(); z[i] = Share::new(0, sel[i].value()); ensure!(cs(&z).is_err(), "identifier zero accepted"); ensure!(cg(&gs(&z)).is_err(), "identifier zero accepted (group)");
    let mut z = sel.clone(); z[i] = Share::new(sel[i].identifier() as usize, sb(0)); ensure!(cs(&z).is_err(), "zero-valued share accepted"); ensure!(cg(&gs(&z)).is_err(), "zero-valued share accepted (group)");
    let mut z = sel.clone(); let mut b = match range(r, 0, 4) { 0 => vec![], 1 => sel[i].value()[..7].to_vec(), 2 => vec![255; 8], _ => [sel[i].value(), &[0]].concat() };
    z[i] = Share::new(sel[i].identifier() as usize, &b); ensure!(cs(&z).is_err(), "undecodable share accepted");
    b.extend(b"grp?"); let mut z = gs(&sel); z[i] = Share::new(sel[i].identifier() as usize, &b); ensure!(cg(&z).is_err(), "undecodable group share accepted");
    ensure!(cs(&[]).is_err(), "no share accepted");
    let f = range(r, 0, t); ensure!(cs(&pick(r, &sh, f)).is_err(), "{} shares accepted with threshold {}", f, t);
    Ok(())
}
fn limits(r: &mut R, c: u32) -> Out {
    let (t, n) = if c < 36 { (c as usize / 6, c as usize % 6) } else { (range(r, 0, 12), range(r, 0, 12)) };
    let good = 2 <= t && t <= n;
    ensure!(Shamir::new(t, n).is_ok() == good && Feldman::new(t, n).is_ok() == good && Pedersen::new(t, n).is_ok() == good, "limits {} of {}: accepted or refused wrongly", t, n);
    if good {
        ensure!(Shamir::new(t, n).unwrap().split_secret(r, &S(0)).is_err(), "zero secret is split");
        ensure!(Feldman::new(t, n).unwrap().split_secret::<S, G>(r, &S(0), None).is_err(), "zero secret is split (Feldman)");
        ensure!(Pedersen::new(t, n).unwrap().split_secret::<S, G>(r, &S(0), None, None).is_err(), "zero secret is split (Pedersen)");
    }
    Ok(())
}
fn msm(c: &[u64], x: u64) -> u64 { c.iter().rev().fold(0, |a, b| add(mul(a, x), *b)) }
fn fv(v: &FeldmanVerifier<S, G>) -> (u64, Vec<u64>) { (v.g.0, v.commitments.iter().map(|c| <G as Group<S>>::from_bytes(&c.to_bytes()).unwrap().0).collect()) }
fn pv(v: &PedersenVerifier<S, G>) -> (u64, u64, Vec<u64>) { (v.g.0, v.h.0, v.commitments.iter().map(|c| <G as Group<S>>::from_bytes(&c.to_bytes()).unwrap().0).collect()) }
fn tamper(r: &mut R, s: &Share, n: usize) -> Share {
    match range(r, 0, 5) {
        0 => Share::new(s.identifier() as usize, sb(el(r))), 1 => Share::new(range(r, 0, n + 2), s.value()),
        2 => Share::new(s.identifier() as usize, sb(0)), 3 => Share::new(s.identifier() as usize, sb(sub(0, sv(s)))), _ => s.clone(),
    }
}
fn feldman(r: &mut R, _c: u32) -> Out {
    let (t, n) = tn(r); let s = Feldman::new(t, n).unwrap(); let x = el(r); let g = if coin(r) { Some(G(el(r))) } else { None };
    let (v, sh) = s.split_secret::<S, G>(r, &S(x), g.clone()).map_err(|e| format!("{:?}", e))?;
    if let Some(g) = g { ensure!(v.g == g, "the generator given is not the one of the verifier"); }
    let (g, cs) = fv(&v); ensure!(cs.len() == t, "{} commitments for threshold {}", cs.len(), t); ensure!(cs[0] == mul(g, x), "first commitment is not to the secret");
    for i in &sh { ensure!(s.verify_share(i, &v).is_ok(), "honest share {} of {}-of-{} rejected", i.identifier(), t, n); }
    for _ in 0..6 {
        let i = range(r, 0, n); let q = tamper(r, &sh[i], n);
        let mut w = v.clone(); let mode = range(r, 0, 6);
        match mode { 0 => { let j = range(r, 0, w.commitments.len()); let o = range(r, 0, w.commitments.len()); w.commitments.swap(j, o); } 1 => { w.commitments.pop(); } 2 => { w.g = G(el(r)); } _ => {} }
        let (g, cs) = fv(&w); let want = mode != 1 && sv(&q) != 0 && mul(g, sv(&q)) == msm(&cs, q.identifier() as u64);
        let got = nopanic("verify_share", || s.verify_share(&q, &w).is_ok())?;
        ensure!(got == want, "share {} with verifier change {}: accepted is {} instead of {}", q.identifier(), mode, got, want);
    }
    // a share of another polynomial agreeing at other identifiers only
    let d = el(r); let i = range(r, 0, n); ensure!(s.verify_share(&Share::new(i + 1, sb(add(sv(&sh[i]), d))), &v).is_err(), "wrong share accepted");
    ensure!(s.verify_share(&Share::new(i + 1, [sh[i].value(), &[0]].concat()), &v).is_err(), "undecodable share accepted");
    let e = FeldmanVerifier::<S, G> { g: v.g.clone(), commitments: vec![] };
    ensure!(nopanic("verify_share without commitments", || s.verify_share(&sh[i], &e).is_err())?, "share accepted without commitments");
    Ok(())
}
fn pedersen(r: &mut R, _c: u32) -> Out {
    let (t, n) = tn(r); let s = Pedersen::new(t, n).unwrap(); let x = el(r); let g = if coin(r) { Some(G(el(r))) } else { None }; let h = if coin(r) { Some(G(el(r))) } else { None };
    let o: PedersenVssResult<S, G> = s.split_secret(r, &S(x), g.clone(), h.clone()).map_err(|e| format!("{:?}", e))?; let v = &o.verifier;
    if let Some(g) = g { ensure!(v.g == g, "the generator g given is not the one of the verifier"); }
    if let Some(h) = h { ensure!(v.h == h, "the generator h given is not the one of the verifier"); }
    let (g, h, cs) = pv(v); ensure!(cs.len() == t, "{} commitments for threshold {}", cs.len(), t);
    ensure!(cs[0] == add(mul(g, x), mul(h, o.blinding.0)), "first commitment is not to the secret and the blinding");
    ensure!(o.secret_shares.len() == n && o.blinding_shares.len() == n, "not n shares");
    for i in 0..n { ensure!(s.verify_share(&o.secret_shares[i], &o.blinding_shares[i], v).is_ok(), "honest share {} of {}-of-{} rejected", i + 1, t, n); }
    for _ in 0..6 {
        let i = range(r, 0, n); let q = tamper(r, &o.secret_shares[i], n); let b = if coin(r) { o.blinding_shares[i].clone() } else { tamper(r, &o.blinding_shares[i], n) };
        let mut w = v.clone(); let mode = range(r, 0, 8);
        match mode { 0 => { let j = range(r, 0, t); let k = range(r, 0, t); w.commitments.swap(j, k); } 1 => { w.commitments.pop(); } 2 => { w.g = G(el(r)); } 3 => { w.h = G(el(r)); } 4 => { w.g = v.h.clone(); w.h = v.g.clone(); } _ => {} }
        let (g, h, cs) = pv(&w);
        let want = mode != 1 && q.identifier() == b.identifier() && sv(&q) != 0 && sv(&b) != 0 && add(mul(g, sv(&q)), mul(h, sv(&b))) == msm(&cs, q.identifier() as u64);
        let got = nopanic("verify_share", || s.verify_share(&q, &b, &w).is_ok())?;
        ensure!(got == want, "share {} blinding {} verifier change {}: accepted is {} instead of {}", q.identifier(), b.identifier(), mode, got, want);
    }
    let e = PedersenVerifier::<S, G> { g: v.g.clone(), h: v.h.clone(), commitments: vec![] };
    ensure!(nopanic("verify_share without commitments", || s.verify_share(&o.secret_shares[0], &o.blinding_shares[0], &e).is_err())?, "share accepted without commitments");
    Ok(())
}
fn wire_share(r: &mut R, _c: u32) -> Out {
    let mut v = vec![0u8; range(r, 0, 80)]; r.fill_bytes(&mut v); let id = if coin(r) { r.next_u32() } else { range(r, 0, 300) as u32 };
    let s = Share::new(id as usize, &v); let b = s.to_bytes(); let w = Share::try_from(&b[..]).map_err(|e| format!("{:?}", e))?;
    ensure!(w.identifier() == id && w.value() == &v[..], "decoded share differs"); ensure!(b.len() == 4 + v.len(), "encoded length");
    let mut m = vec![0u8; range(r, 0, 12)]; r.fill_bytes(&mut m); let o = nopanic("Share::try_from", || Share::try_from(&m[..]).map(|s| s.to_bytes()))?;
    match o { Ok(x) => ensure!(m.len() >= 4 && x == m, "malformed share accepted"), Err(_) => ensure!(m.len() < 4, "well-formed share rejected") }
    Ok(())
}
fn mangle(r: &mut R, b: &[u8], cnt: usize) -> Vec<u8> {
    let mut b = b.to_vec();
    match range(r, 0, 6) {
        0 => { let k = range(r, 0, b.len()); b.truncate(k); } 1 => b.push(r.gen()), 2 => { let k = range(r, 0, b.len()); b[k] ^= 1 << range(r, 0, 8); }
        3 => { let x: u32 = match range(r, 0, 4) { 0 => u32::max_value(), 1 => 0, 2 => 1 << 31, _ => r.gen() }; b[cnt..cnt + 4].copy_from_slice(&x.to_be_bytes()); }
        4 => { let n = range(r, 0, 60); b = vec![0; n]; r.fill_bytes(&mut b); } _ => { b.extend(gb(el(r))); }
    }
    b
}
fn wire_verifier(r: &mut R, _c: u32) -> Out {
    let (t, n) = tn(r); let x = el(r);
    let v = Feldman::new(t, n).unwrap().split_secret::<S, G>(r, &S(x), None).map_err(|e| format!("{:?}", e))?.0;
    let b = v.to_bytes(); let w = FeldmanVerifier::<S, G>::try_from(&b[..]).map_err(|e| format!("Feldman verifier of threshold {} not decoded: {:?}", t, e))?;
    ensure!(fv(&w) == fv(&v), "Feldman verifier of threshold {} decodes to another", t);
    let m = mangle(r, &b, 12); if let Ok(w) = nopanic("FeldmanVerifier::try_from", || FeldmanVerifier::<S, G>::try_from(&m[..]))? { ensure!(w.to_bytes() == m, "malformed Feldman verifier accepted"); }
    let v = Pedersen::new(t, n).unwrap().split_secret::<S, G>(r, &S(x), None, None).map_err(|e| format!("{:?}", e))?.verifier;
    let b = v.to_bytes(); let w = PedersenVerifier::<S, G>::try_from(&b[..]).map_err(|e| format!("Pedersen verifier of threshold {} not decoded: {:?}", t, e))?;
    ensure!(pv(&w) == pv(&v), "Pedersen verifier of threshold {} decodes to another", t);
    let m = mangle(r, &b, 24); if let Ok(w) = nopanic("PedersenVerifier::try_from", || PedersenVerifier::<S, G>::try_from(&m[..]))? { ensure!(w.to_bytes() == m, "malformed Pedersen verifier accepted"); }
    Ok(())
}
fn main() {
    macro_rules! sc { ($p:expr, $n:expr, $q:expr, $t:expr, $f:expr) => { Sc { prop: $p, name: $n, quick: $q, thorough: $t, f: $f } } }
    hcommon::main(&[
        sc!("S01", "recombine", 600, 20000, recombine), sc!("S01", "rejects", 600, 20000, rejects), sc!("S01", "limits", 80, 500, limits),
        sc!("S02", "feldman", 500, 20000, feldman), sc!("S02", "pedersen", 500, 20000, pedersen),
        sc!("S03", "share", 2000, 50000, wire_share), sc!("S03", "verifier", 1000, 30000, wire_verifier),
    ]);
}
