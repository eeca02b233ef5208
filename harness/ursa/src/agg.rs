//! U02: the BLS12-381 signatures (both group assignments).
use amcl_wrapper::group_elem::GroupElement;
use hcommon::*;
use rand::{seq::SliceRandom, Rng};
use ursa::keys::{KeyGenOption, PublicKey as UPk};
use ursa::signatures::SignatureScheme;
fn bytes(r: &mut R, n: usize) -> Vec<u8> { (0..n).map(|_| r.gen()).collect() }
macro_rules! agg { ($f:ident, $sf:ident, $m:ident) => {
fn $f(r: &mut R, _c: u32) -> Out {
    use ursa::signatures::bls::$m::*;
    let g = if r.gen() { Generator::generator() } else { Generator::random() };
    let n = r.gen_range(1usize, 6); let msg = { let k = r.gen_range(0, 60); bytes(r, k) };
    let ctx: Option<&'static [u8]> = if r.gen() { None } else { Some(b"some context") };
    let other: Option<&'static [u8]> = if ctx.is_some() { None } else { Some(b"another context") };
    let ks: Vec<_> = (0..n).map(|_| generate(&g)).collect(); let (pk, _) = generate(&g); let pks: Vec<PublicKey> = ks.iter().map(|k| k.0.clone()).collect();
    let sigs: Vec<Signature> = ks.iter().map(|k| Signature::new(&msg, ctx, &k.1)).collect();
    let mut m2 = msg.clone(); m2.push(7);
    for i in 0..n {
        let s = Signature::from_bytes(&sigs[i].to_bytes()).map_err(|e| format!("{:?}", e))?; let p = PublicKey::from_bytes(&pks[i].to_bytes()).map_err(|e| format!("{:?}", e))?;
        ensure!(s.verify(&msg, ctx, &p, &g), "honest signature rejected"); ensure!(!s.verify(&m2, ctx, &p, &g), "another message accepted"); ensure!(!s.verify(&msg, other, &p, &g), "another context accepted"); ensure!(!s.verify(&msg, ctx, &pk, &g), "another key accepted");
        let pop = ProofOfPossession::new(&p, ctx, &ks[i].1); let pop = ProofOfPossession::from_bytes(&pop.to_bytes()).map_err(|e| format!("{:?}", e))?;
        ensure!(pop.verify(ctx, &p, &g), "honest proof of possession rejected"); ensure!(!pop.verify(other, &p, &g) && !pop.verify(ctx, &pk, &g), "proof of possession for another context or key accepted");
    }
    // one message, many signers
    let a = AggregatedSignature::new(&sigs); let mut o = pks.clone(); o.shuffle(r); let a = AggregatedSignature::from_bytes(&a.to_bytes()).map_err(|e| format!("{:?}", e))?;
    ensure!(a.verify_no_rk(&msg, ctx, &o, &g), "honest aggregate of {} rejected", n); ensure!(!a.verify_no_rk(&m2, ctx, &o, &g) && !a.verify_no_rk(&msg, other, &o, &g) && !a.verify_no_rk(&msg, ctx, &o[1..], &g), "aggregate of something else accepted");
    let mut c = sigs[0].clone(); c.combine(&sigs[1..]); let mut cp = pks[0].clone(); cp.combine(&pks[1..]); ensure!(c.verify(&msg, ctx, &cp, &g), "combined signature does not verify for the combined key"); ensure!(n == 1 || !c.verify(&msg, ctx, &pks[0], &g), "combined signature verifies for one key");
    // rogue key mitigation
    let rs: Vec<Signature> = ks.iter().enumerate().map(|(i, k)| Signature::new_with_rk_mitigation(&msg, ctx, &k.1, i, &pks)).collect(); let apk = AggregatedPublicKey::new(&pks); let apk = AggregatedPublicKey::from_bytes(&apk.to_bytes()).map_err(|e| format!("{:?}", e))?;
    let mut rs2 = rs.clone(); rs2.shuffle(r); let ra = AggregatedSignature::new(&rs2);
    ensure!(ra.verify(&msg, ctx, &apk, &g), "honest aggregate with rogue key mitigation rejected"); ensure!(!ra.verify(&m2, ctx, &apk, &g) && !ra.verify(&msg, other, &apk, &g), "other message or context accepted");
    ensure!(!AggregatedSignature::new(&sigs).verify(&msg, ctx, &apk, &g), "aggregate without mitigation accepted for the mitigated key"); ensure!(n < 2 || !AggregatedSignature::new(&rs[1..]).verify(&msg, ctx, &apk, &g), "aggregate lacking a signer accepted");
    // distinct messages
    let ms: Vec<Vec<u8>> = (0..n).map(|i| { let mut v = msg.clone(); v.push(i as u8); v }).collect(); let ss: Vec<Signature> = (0..n).map(|i| Signature::new(&ms[i], ctx, &ks[i].1)).collect();
    let mut c = ss[0].clone(); c.combine(&ss[1..]); let mut inp: Vec<(&[u8], &PublicKey)> = (0..n).map(|i| (&ms[i][..], &pks[i])).collect(); inp.shuffle(r);
    ensure!(c.verify_multi(&inp, ctx, &g), "honest multi-message signature of {} rejected", n); ensure!(!c.verify_multi(&inp, other, &g), "another context accepted"); ensure!(!c.verify_multi(&inp[1..], ctx, &g), "a missing message accepted");
    if n > 1 { let mut sw = inp.clone(); let t = sw[0].1; sw[0].1 = sw[1].1; sw[1].1 = t; ensure!(!c.verify_multi(&sw, ctx, &g), "swapped keys accepted"); }
    let mut d = ss[0].clone(); d.combine(&ss[..1]); ensure!(!d.verify_multi(&[(&ms[0][..], &pks[0]), (&ms[0][..], &pks[0])], ctx, &g), "repeated message accepted");
    // batches
    let b: Vec<(&[u8], &Signature, &PublicKey)> = (0..n).map(|i| (&ms[i][..], &ss[i], &pks[i])).collect(); ensure!(Signature::batch_verify(&b, ctx, &g), "honest batch rejected"); ensure!(!Signature::batch_verify(&b, other, &g), "another context accepted");
    let k = r.gen_range(0, n); let mut bb = b.clone(); bb[k].1 = &sigs[k]; ensure!(!Signature::batch_verify(&bb, ctx, &g), "batch with a wrong signature accepted");
    if n > 1 { let mut x = b.clone(); let t = x[0].1; x[0].1 = x[1].1; x[1].1 = t; ensure!(!Signature::batch_verify(&x, ctx, &g), "batch with two signatures swapped accepted"); }
    let x: Vec<(&[u8], &AggregatedSignature, &AggregatedPublicKey)> = vec![(&msg[..], &ra, &apk); 2]; ensure!(AggregatedSignature::batch_verify(&x, ctx, &g), "honest batch of aggregates rejected");
    let x: Vec<(&[u8], &AggregatedSignature, &AggregatedPublicKey)> = vec![(&msg[..], &ra, &apk), (&m2[..], &ra, &apk)]; ensure!(!AggregatedSignature::batch_verify(&x, ctx, &g), "batch with a wrong aggregate accepted");
    for l in &[0usize, 1, 47, 48, 96, 97] { ensure!(nopanic("decode", || (Signature::from_bytes(&vec![9; *l]).is_ok(), PublicKey::from_bytes(&vec![9; *l]).is_ok())).is_ok(), "decode"); }
    Ok(())
}
fn $sf(r: &mut R, _c: u32) -> Out {
    use ursa::signatures::bls::$m::*; let b = Bls::new(); let e = |x: ursa::errors::UrsaCryptoError| format!("{:?}", x); let _ = e;
    let o = if r.gen() { None } else { Some(KeyGenOption::UseSeed(bytes(r, 32))) };
    let (pk, sk) = b.keypair(o).map_err(|e| format!("{:?}", e))?; let k = r.gen_range(0, 60); let m = bytes(r, k); let s = b.sign(&m, &sk).map_err(|e| format!("{:?}", e))?;
    ensure!(b.verify(&m, &s, &pk).map_err(|e| format!("{:?}", e))?, "honest signature rejected"); ensure!(s.len() == Bls::signature_size() && pk.0.len() == Bls::public_key_size() && sk.0.len() == Bls::private_key_size(), "sizes");
    let (p2, s2) = b.keypair(Some(KeyGenOption::FromSecretKey(sk.clone()))).map_err(|e| format!("{:?}", e))?; ensure!(p2 == pk && s2 == sk, "key pair of a private key");
    let (p3, _) = b.keypair(None).map_err(|e| format!("{:?}", e))?; ensure!(!b.verify(&m, &s, &p3).map_err(|e| format!("{:?}", e))?, "another key accepted");
    let mut m2 = m.clone(); m2.push(1); ensure!(!b.verify(&m2, &s, &pk).map_err(|e| format!("{:?}", e))?, "another message accepted");
    ensure!(nopanic("verify", || b.verify(&m, &s[1..], &pk).is_ok())? == false, "short signature"); ensure!(nopanic("verify", || b.verify(&m, &s, &UPk(vec![1, 2, 3])).is_ok())? == false, "short key");
    Ok(())
}
} }
agg!(normal, scheme_normal, normal);
agg!(small, scheme_small, small);
pub fn all() -> Vec<Sc> {
    let s = |name, quick, thorough, f| Sc { prop: "U02", name, quick, thorough, f };
    vec![s("normal", 8, 200, normal as fn(&mut R, u32) -> Out), s("small", 8, 200, small), s("scheme_normal", 8, 200, scheme_normal), s("scheme_small", 8, 200, scheme_small)]
}
