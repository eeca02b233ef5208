//! Replay / bounded harness for libzmix/bbs: properties B01..B05 and V01 (bbs part).
//! The oracle recomputes the scheme equations with pairing_plus directly.
#[macro_use]
extern crate hcommon;
use bbs::prelude::*;
use ff_zeroize::Field;
use hcommon::*;
use pairing_plus::bls12_381::{Bls12, Fq12, Fr, FrRepr, G1, G2};
use pairing_plus::serdes::SerDes;
use pairing_plus::{CurveAffine, CurveProjective, Engine};
use ff_zeroize::PrimeField;
use rand::Rng;
use std::collections::{BTreeMap, BTreeSet};
use std::convert::TryFrom;

fn fr(r: &mut R) -> Fr {
    match r.gen_range(0, 12) {
        0 => Fr::zero(),
        1 => Fr::one(),
        2 => { let mut x = Fr::one(); x.negate(); x }
        3 => Fr::from_repr(FrRepr::from(r.gen::<u64>())).unwrap(),
        _ => Fr::random(r),
    }
}
fn frnz(r: &mut R) -> Fr { loop { let x = fr(r); if !x.is_zero() { return x; } } }
fn frr(r: &mut R) -> Fr { loop { let x = Fr::random(r); if !x.is_zero() { return x; } } }
fn g1(r: &mut R) -> G1 { G1::random(r) }
fn mul(a: &G1, s: &Fr) -> G1 { let mut x = *a; x.mul_assign(*s); x }
fn mul2(a: &G2, s: &Fr) -> G2 { let mut x = *a; x.mul_assign(*s); x }
fn add(a: &G1, b: &G1) -> G1 { let mut x = *a; x.add_assign(b); x }
fn add2(a: &G2, b: &G2) -> G2 { let mut x = *a; x.add_assign(b); x }
fn sub(a: &G1, b: &G1) -> G1 { let mut x = *a; x.sub_assign(b); x }
fn fadd(a: &Fr, b: &Fr) -> Fr { let mut x = *a; x.add_assign(b); x }
fn fsub(a: &Fr, b: &Fr) -> Fr { let mut x = *a; x.sub_assign(b); x }
fn fmul(a: &Fr, b: &Fr) -> Fr { let mut x = *a; x.mul_assign(b); x }
fn fneg(a: &Fr) -> Fr { let mut x = *a; x.negate(); x }
fn fhash(d: &[u8]) -> Fr { *ProofChallenge::hash(d).as_ref() }
fn pair(a: &G1, b: &G2) -> Fq12 { Bls12::pairing(a.into_affine(), b.into_affine()) }
fn w_of(pk: &PublicKey) -> G2 { *pk.w.as_ref() }
fn h0(pk: &PublicKey) -> G1 { *pk.h0.as_ref() }
fn hi(pk: &PublicKey, i: usize) -> G1 { *pk.h[i].as_ref() }

/// key pair; kind 0: random generators, 1: deterministic, 2: crafted with generators that may coincide
fn keys(r: &mut R, n: usize) -> (PublicKey, SecretKey) {
    match r.gen_range(0, 4) {
        0 => Issuer::new_keys(n).unwrap(),
        1 => { let (d, sk) = Issuer::new_short_keys(None).unwrap(); (d.to_public_key(n).unwrap(), sk) }
        _ => {
            let sk = SecretKey::from(ser_fr(&frnz(r)));
            let s = de_fr(&sk.to_bytes_compressed_form()[..]);
            let mut h: Vec<GeneratorG1> = (0..n).map(|_| GeneratorG1::from(g1(r))).collect();
            if n > 1 && coin(r) { let i = r.gen_range(0, n); let j = r.gen_range(0, n); h[i] = h[j]; }
            (PublicKey { h0: GeneratorG1::from(g1(r)), h, w: GeneratorG2::from(mul2(&G2::one(), &s)) }, sk)
        }
    }
}
fn ser_fr(x: &Fr) -> [u8; 32] { let mut v = vec![]; x.serialize(&mut v, true).unwrap(); let mut o = [0u8; 32]; o.copy_from_slice(&v); o }
fn de_fr(b: &[u8]) -> Fr { let mut c = b; Fr::deserialize(&mut c, true).unwrap() }
fn ser_g1(x: &G1, c: bool) -> Vec<u8> { let mut v = vec![]; x.serialize(&mut v, c).unwrap(); v }
fn msg(x: &Fr) -> SignatureMessage { SignatureMessage::from(*x) }
fn messages(r: &mut R, n: usize) -> Vec<SignatureMessage> {
    let mut v: Vec<SignatureMessage> = (0..n).map(|_| msg(&fr(r))).collect();
    if n > 1 && r.gen_range(0, 3) == 0 { let i = r.gen_range(0, n); let j = r.gen_range(0, n); v[i] = v[j]; }
    v
}
fn nn(r: &mut R) -> usize { [1, 2, 3, 4, 5, 7, 9, 12][r.gen_range(0, 8)] }
fn big_b(pk: &PublicKey, s: &Fr, ms: &[SignatureMessage]) -> G1 {
    let mut b = add(&G1::one(), &mul(&h0(pk), s));
    for (i, m) in ms.iter().enumerate() { b = add(&b, &mul(&hi(pk, i), m.as_ref())); }
    b
}
fn sig_parts(s: &Signature) -> (G1, Fr, Fr) {
    let b = s.to_bytes_compressed_form();
    let mut c = &b[..];
    (G1::deserialize(&mut c, true).unwrap(), Fr::deserialize(&mut c, true).unwrap(), Fr::deserialize(&mut c, true).unwrap())
}
fn sig_from(a: &G1, e: &Fr, s: &Fr) -> Signature {
    let mut v = ser_g1(a, true);
    v.extend_from_slice(&ser_fr(e)); v.extend_from_slice(&ser_fr(s));
    Signature::try_from(&v[..]).unwrap()
}
/// the pairing equation, with no identity or zero component
fn sig_oracle(sig: &Signature, pk: &PublicKey, ms: &[SignatureMessage]) -> bool {
    let (a, e, s) = sig_parts(sig);
    if a.is_zero() || e.is_zero() || s.is_zero() { return false; }
    pair(&a, &add2(&w_of(pk), &mul2(&G2::one(), &e))) == pair(&big_b(pk, &s, ms), &G2::one())
}
fn verdict(r: Result<bool, BBSError>) -> Option<bool> { r.ok() }

// ------------------------------------------------------------------ B01
fn b01_honest(r: &mut R, _: u32) -> Out {
    let n = nn(r); let (pk, sk) = keys(r, n); let ms = messages(r, n);
    let sig = Issuer::sign(&ms, &sk, &pk).map_err(|e| format!("sign: {}", e))?;
    ensure!(sig_oracle(&sig, &pk, &ms), "issued signature does not satisfy the equation, n={}", n);
    ensure!(verdict(sig.verify(&ms, &pk)) == Some(true), "issued signature does not verify, n={}", n);
    let s2 = Signature::new(&ms, &sk, &pk).map_err(|e| format!("{}", e))?;
    ensure!(verdict(s2.verify(&ms, &pk)) == Some(true), "Signature::new does not verify, n={}", n);
    // every single changed message is rejected
    for i in 0..n {
        let mut m2 = ms.clone();
        m2[i] = msg(&fadd(m2[i].as_ref(), &frnz(r)));
        ensure!(verdict(sig.verify(&m2, &pk)) == Some(false), "message {} of {} changed and still accepted", i, n);
    }
    Ok(())
}
fn b01_oracle(r: &mut R, case: u32) -> Out {
    let n = nn(r); let (mut pk, sk) = keys(r, n); let mut ms = messages(r, n);
    let x = de_fr(&sk.to_bytes_compressed_form()[..]);
    // a signature crafted with the secret key for chosen (e, s)
    let e = frnz(r); let s = frnz(r);
    let mut xe = fadd(&x, &e);
    if xe.is_zero() { return Ok(()); }
    xe = xe.inverse().unwrap();
    let a = mul(&big_b(&pk, &s, &ms), &xe);
    let mut sig = sig_from(&a, &e, &s);
    match case % 12 {
        0 => {}
        1 => sig = sig_from(&add(&a, &g1(r)), &e, &s),
        2 => sig = sig_from(&a, &fadd(&e, &Fr::one()), &s),
        3 => sig = sig_from(&a, &e, &fadd(&s, &Fr::one())),
        4 => { let i = r.gen_range(0, n); ms[i] = msg(&fr(r)); }
        5 => { let i = r.gen_range(0, n); let j = r.gen_range(0, n); ms.swap(i, j); }
        6 => { pk.w = GeneratorG2::from(add2(&w_of(&pk), &G2::one())); }
        7 => { let i = r.gen_range(0, n); pk.h[i] = GeneratorG1::from(g1(r)); }
        8 => { pk.h0 = GeneratorG1::from(g1(r)); }
        9 => sig = sig_from(&{ let mut t = a; t.negate(); t }, &e, &s),
        10 => { // shift between messages with the same generator: still valid
            if n > 1 { pk.h[1] = pk.h[0]; let a = mul(&big_b(&pk, &s, &ms), &xe); sig = sig_from(&a, &e, &s); ms.swap(0, 1); } }
        _ => { // compensate a message change in s: accepted only if the equation says so
            let d = frnz(r); let k = frnz(r);
            pk.h[0] = GeneratorG1::from(mul(&h0(&pk), &k));
            let a = mul(&big_b(&pk, &s, &ms), &xe);
            ms[0] = msg(&fsub(ms[0].as_ref(), &d));
            sig = sig_from(&a, &e, &fadd(&s, &fmul(&d, &k)));
        }
    }
    let want = sig_oracle(&sig, &pk, &ms);
    ensure!(verdict(sig.verify(&ms, &pk)).unwrap_or(false) == want, "case {} n={}: verify says {} but the equation says {}", case % 12, n, !want, want);
    Ok(())
}
fn b01_identity(r: &mut R, case: u32) -> Out {
    let n = nn(r); let (pk, sk) = keys(r, n); let ms = messages(r, n);
    let x = de_fr(&sk.to_bytes_compressed_form()[..]);
    let e = frnz(r); let s = frnz(r);
    match case % 8 {
        0 => { // s = 0 with the equation satisfied
            let mut xe = fadd(&x, &e); if xe.is_zero() { return Ok(()); } xe = xe.inverse().unwrap();
            let z = Fr::zero(); let a = mul(&big_b(&pk, &z, &ms), &xe);
            ensure!(verdict(sig_from(&a, &e, &z).verify(&ms, &pk)) != Some(true), "signature with s = 0 accepted"); }
        1 => { // e = 0 with the equation satisfied
            let a = mul(&big_b(&pk, &s, &ms), &x.inverse().unwrap());
            ensure!(verdict(sig_from(&a, &Fr::zero(), &s).verify(&ms, &pk)) != Some(true), "signature with e = 0 accepted"); }
        2 => { // A = 0: needs B = 0, arranged with a known discrete logarithm of h0 and all messages zero
            let k = frnz(r);
            let mut p2 = pk.clone(); p2.h0 = GeneratorG1::from(mul(&G1::one(), &k));
            let s = fneg(&k.inverse().unwrap());
            let zs: Vec<SignatureMessage> = (0..n).map(|_| msg(&Fr::zero())).collect();
            ensure!(verdict(sig_from(&G1::zero(), &e, &s).verify(&zs, &p2)) != Some(true), "signature with identity A accepted"); }
        3 => { let mut p2 = pk.clone(); p2.h0 = GeneratorG1::default(); bad_key(&p2, &sk, &ms, &x, &e, &s, "h0")?; }
        4 => { for i in 0..n { let mut p2 = pk.clone(); p2.h[i] = GeneratorG1::default(); bad_key(&p2, &sk, &ms, &x, &e, &s, &format!("h[{}]", i))?; } }
        5 => { let mut p2 = pk.clone(); p2.w = GeneratorG2::default(); bad_key(&p2, &sk, &ms, &Fr::zero(), &e, &s, "w")?; }
        6 => { // wrong message counts
            let sig = Signature::new(&ms, &sk, &pk).map_err(|e| e.to_string())?;
            for m in 0..n + 3 { if m == n { continue; }
                let m2: Vec<SignatureMessage> = (0..m).map(|i| if i < n { ms[i] } else { msg(&Fr::zero()) }).collect();
                ensure!(sig.verify(&m2, &pk).is_err(), "{} messages for a key of {} not rejected with an error", m, n);
                if m > n { ensure!(Signature::new(&m2, &sk, &pk).is_err(), "signed {} messages with a key of {}", m, n); }
            } }
        _ => { ensure!(Signature::new(&ms, &SecretKey::from([0u8; 32]), &pk).is_err(), "zero secret key signs"); }
    }
    Ok(())
}
fn bad_key(p2: &PublicKey, sk: &SecretKey, ms: &[SignatureMessage], x: &Fr, e: &Fr, s: &Fr, what: &str) -> Out {
    let xe = fadd(x, e); if xe.is_zero() { return Ok(()); }
    let a = mul(&big_b(p2, s, ms), &xe.inverse().unwrap());
    ensure!(sig_from(&a, e, s).verify(ms, p2).is_err(), "key with identity {} not rejected with an error by verify", what);
    ensure!(p2.validate().is_err(), "key with identity {} validates", what);
    ensure!(Signature::new(ms, sk, p2).is_err(), "signed under a key with identity {}", what);
    Ok(())
}

// ------------------------------------------------------------------ B02
fn b02_flow(r: &mut R, case: u32) -> Out {
    let n = nn(r).min(6); let (pk, sk) = keys(r, n); let ms = messages(r, n);
    let hid: BTreeSet<usize> = if case < 32 && n <= 5 { (0..n).filter(|i| case >> i & 1 == 1).collect() } else { subset(r, n).into_iter().collect() };
    let nonce = Issuer::generate_signing_nonce();
    let hidden: BTreeMap<usize, SignatureMessage> = hid.iter().map(|i| (*i, ms[*i])).collect();
    let known: BTreeMap<usize, SignatureMessage> = (0..n).filter(|i| !hid.contains(i)).map(|i| (i, ms[i])).collect();
    let at = format!("n={} hidden={:?}", n, hid);
    let (ctx, bl) = Prover::new_blind_signature_context(&pk, &hidden, &nonce).map_err(|e| format!("{}: {}", at, e))?;
    let mut com = mul(&h0(&pk), bl.as_ref());
    for (i, m) in &hidden { com = add(&com, &mul(&hi(&pk, *i), m.as_ref())); }
    ensure!(*ctx.commitment.as_ref() == com, "{}: commitment is not h0^b prod h_i^m_i", at);
    let revealed: BTreeSet<usize> = known.keys().cloned().collect();
    ensure!(verdict(ctx.verify(&revealed, &pk, &nonce)) == Some(true), "{}: honest context rejected", at);
    let bs = Issuer::blind_sign(&ctx, &known, &sk, &pk, &nonce).map_err(|e| format!("{}: blind_sign: {}", at, e))?;
    let sig = Prover::complete_signature(&pk, &ms, &bs, &bl).map_err(|e| format!("{}: complete: {}", at, e))?;
    ensure!(sig_oracle(&sig, &pk, &ms), "{}: unblinded signature does not satisfy the equation", at);
    ensure!(verdict(sig.verify(&ms, &pk)) == Some(true), "{}: unblinded signature does not verify", at);
    // and not for other messages or blindings
    let i = r.gen_range(0, n); let mut m2 = ms.clone(); m2[i] = msg(&fadd(m2[i].as_ref(), &frnz(r)));
    ensure!(Prover::complete_signature(&pk, &m2, &bs, &bl).is_err(), "{}: completes for a changed message {}", at, i);
    let b2 = SignatureBlinding::from(fadd(bl.as_ref(), &frnz(r)));
    ensure!(Prover::complete_signature(&pk, &ms, &bs, &b2).is_err(), "{}: completes with another blinding", at);
    Ok(())
}
struct Ctx { com: G1, ch: Fr, t: G1, resp: Vec<Fr> }
fn ctx_parts(c: &BlindSignatureContext) -> Ctx {
    let b = c.to_bytes_compressed_form(); let mut p = &b[..];
    let com = G1::deserialize(&mut p, true).unwrap(); let ch = Fr::deserialize(&mut p, true).unwrap();
    let t = G1::deserialize(&mut p, true).unwrap();
    p = &p[4..]; let mut resp = vec![]; while !p.is_empty() { resp.push(Fr::deserialize(&mut p, true).unwrap()); }
    Ctx { com, ch, t, resp }
}
fn ctx_from(c: &Ctx) -> BlindSignatureContext {
    let mut v = ser_g1(&c.com, true); v.extend_from_slice(&ser_fr(&c.ch)); v.extend(ser_g1(&c.t, true));
    v.extend_from_slice(&(c.resp.len() as u32).to_be_bytes());
    for x in &c.resp { v.extend_from_slice(&ser_fr(x)); }
    BlindSignatureContext::from_bytes_compressed_form(&v).unwrap()
}
fn ctx_oracle(c: &Ctx, revealed: &BTreeSet<usize>, pk: &PublicKey, nonce: &Fr) -> bool {
    let mut bases = vec![h0(pk)];
    for i in 0..pk.h.len() { if !revealed.contains(&i) { bases.push(hi(pk, i)); } }
    if bases.len() != c.resp.len() { return false; }
    let mut t = mul(&c.com, &c.ch);
    for (b, x) in bases.iter().zip(&c.resp) { t = add(&t, &mul(b, x)); }
    let mut bytes = vec![];
    for b in &bases { bytes.extend(ser_g1(b, false)); }
    bytes.extend(ser_g1(&t, false)); bytes.extend(ser_g1(&c.com, false)); bytes.extend_from_slice(&ser_fr(nonce));
    t == c.t && fhash(&bytes) == c.ch
}
fn b02_adversarial(r: &mut R, case: u32) -> Out {
    let n = nn(r).min(5); let (pk, sk) = keys(r, n); let ms = messages(r, n);
    let hid: BTreeSet<usize> = subset(r, n).into_iter().collect();
    let mut nonce = Issuer::generate_signing_nonce();
    let hidden: BTreeMap<usize, SignatureMessage> = hid.iter().map(|i| (*i, ms[*i])).collect();
    let mut known: BTreeMap<usize, SignatureMessage> = (0..n).filter(|i| !hid.contains(i)).map(|i| (i, ms[i])).collect();
    let (ctx, _) = Prover::new_blind_signature_context(&pk, &hidden, &nonce).map_err(|e| e.to_string())?;
    let mut c = ctx_parts(&ctx);
    let mut pk2 = pk.clone();
    let rebuild = |c: &mut Ctx, pk: &PublicKey, bases: &[G1], nonce: &Fr| { // self-made transcript over arbitrary bases
        let mut bytes = vec![]; for b in bases { bytes.extend(ser_g1(b, false)); }
        let _ = pk; bytes.extend(ser_g1(&c.t, false)); bytes.extend(ser_g1(&c.com, false)); bytes.extend_from_slice(&ser_fr(nonce)); c.ch = fhash(&bytes); };
    match case % 14 {
        0 => nonce = Issuer::generate_signing_nonce(),
        1 => c.com = add(&c.com, &h0(&pk)),
        2 => c.ch = fadd(&c.ch, &Fr::one()),
        3 => c.t = add(&c.t, &g1(r)),
        4 => { let i = r.gen_range(0, c.resp.len()); c.resp[i] = fadd(&c.resp[i], &frnz(r)); }
        5 => { c.resp.pop(); }
        6 => c.resp.push(Fr::zero()),
        7 => { let i = r.gen_range(0, n); if known.remove(&i).is_none() { known.insert(i, ms[i]); } }
        8 => { let i = r.gen_range(0, n); pk2.h[i] = GeneratorG1::from(g1(r)); }
        9 => pk2.h0 = GeneratorG1::from(g1(r)),
        10 => { // commitment also covers a position announced as known: proof over the announced bases cannot exist
            if let Some(i) = known.keys().next().cloned() { c.com = add(&c.com, &hi(&pk, i)); let bases: Vec<G1> = std::iter::once(h0(&pk)).chain(hid.iter().map(|i| hi(&pk, *i))).collect(); rebuild(&mut c, &pk, &bases, nonce.as_ref()); } }
        11 => { // transcript hashed correctly but the Schnorr relation does not hold
            let bases: Vec<G1> = std::iter::once(h0(&pk)).chain(hid.iter().map(|i| hi(&pk, *i))).collect();
            c.com = g1(r); c.t = g1(r); rebuild(&mut c, &pk, &bases, nonce.as_ref()); }
        12 => { // Schnorr relation holds but the challenge is chosen freely
            let bases: Vec<G1> = std::iter::once(h0(&pk)).chain(hid.iter().map(|i| hi(&pk, *i))).collect();
            c.com = g1(r); c.ch = frr(r); let mut t = mul(&c.com, &c.ch); for (b, x) in bases.iter().zip(&c.resp) { t = add(&t, &mul(b, x)); } c.t = t; }
        _ => {}
    }
    let revealed: BTreeSet<usize> = known.keys().cloned().collect();
    let want = ctx_oracle(&c, &revealed, &pk2, nonce.as_ref());
    let cx = ctx_from(&c);
    let got = verdict(cx.verify(&revealed, &pk2, &nonce)).unwrap_or(false);
    ensure!(got == want, "case {} n={} hidden={:?}: context verdict {} but relation {}", case % 14, n, hid, got, want);
    let signed = Issuer::blind_sign(&cx, &known, &sk, &pk2, &nonce).is_ok();
    ensure!(signed == want, "case {} n={} hidden={:?}: issuer {} although the relation is {}", case % 14, n, hid, if signed { "signs" } else { "refuses" }, want);
    Ok(())
}
fn b02_range(r: &mut R, _: u32) -> Out {
    let n = nn(r).min(5); let (pk, sk) = keys(r, n); let nonce = Issuer::generate_signing_nonce();
    let ms = messages(r, n);
    for idx in &[n, n + 1, usize::max_value()] {
        let mut h = BTreeMap::new(); h.insert(*idx, ms[0]);
        ensure!(Prover::new_blind_signature_context(&pk, &h, &nonce).is_err(), "hidden index {} accepted for key of {}", idx, n);
        let mut h2 = BTreeMap::new(); h2.insert(0, ms[0]);
        let (ctx, _) = Prover::new_blind_signature_context(&pk, &h2, &nonce).map_err(|e| e.to_string())?;
        let mut known: BTreeMap<usize, SignatureMessage> = (1..n).map(|i| (i, ms[i])).collect(); known.insert(*idx, ms[0]);
        ensure!(Issuer::blind_sign(&ctx, &known, &sk, &pk, &nonce).is_err(), "known index {} signed for key of {}", idx, n);
        ensure!(BlindSignature::new(&ctx.commitment, &known, &sk, &pk).is_err(), "known index {} blind-signed for key of {}", idx, n);
    }
    // issuer-side check of key and secret key
    let (ctx, _) = Prover::new_blind_signature_context(&pk, &BTreeMap::new(), &nonce).map_err(|e| e.to_string())?;
    let known: BTreeMap<usize, SignatureMessage> = (0..n).map(|i| (i, ms[i])).collect();
    ensure!(BlindSignature::new(&ctx.commitment, &known, &SecretKey::from([0u8; 32]), &pk).is_err(), "zero secret key blind-signs");
    Ok(())
}

// ------------------------------------------------------------------ B03
fn b03_flow(r: &mut R, case: u32) -> Out {
    let n = if case < 40 { 1 + (case as usize % 5) } else { nn(r) };
    let (pk, sk) = keys(r, n); let ms = messages(r, n);
    let sig = Signature::new(&ms, &sk, &pk).map_err(|e| e.to_string())?;
    let rev: Vec<usize> = if case < 40 { (0..n).filter(|i| (case / 5) >> i & 1 == 1).collect() } else { subset(r, n) };
    let at = format!("n={} revealed={:?}", n, rev);
    let req = Verifier::new_proof_request(&rev, &pk).map_err(|e| format!("{}: {}", at, e))?;
    ensure!(req.revealed_messages.iter().cloned().collect::<Vec<_>>() == rev, "{}: request positions {:?}", at, req.revealed_messages);
    let ext: Vec<Option<Fr>> = (0..n).map(|_| if coin(r) { Some(fr(r)) } else { None }).collect();
    let pm: Vec<ProofMessage> = (0..n).map(|i| if rev.contains(&i) { ProofMessage::Revealed(ms[i]) } else { match ext[i] {
        Some(b) => ProofMessage::Hidden(HiddenMessage::ExternalBlinding(ms[i], ProofNonce::from(b))),
        None => ProofMessage::Hidden(HiddenMessage::ProofSpecificBlinding(ms[i])) } }).collect();
    for (i, p) in pm.iter().enumerate() { ensure!(p.get_message() == ms[i], "{}: get_message({})", at, i); }
    let pok = Prover::commit_signature_pok(&req, &pm, &sig).map_err(|e| format!("{}: commit: {}", at, e))?;
    let nonce = Verifier::generate_proof_nonce();
    let ch = Prover::create_challenge_hash(&[pok.clone()], None, &nonce).map_err(|e| e.to_string())?;
    let proof = Prover::generate_signature_pok(pok, &ch).map_err(|e| format!("{}: gen: {}", at, e))?;
    ensure!(proof.revealed_messages == rev.iter().map(|i| (*i, ms[*i])).collect::<BTreeMap<_, _>>(), "{}: revealed messages differ", at);
    let got = Verifier::verify_signature_pok(&req, &proof, &nonce).map_err(|e| format!("{}: honest proof rejected: {}", at, e))?;
    ensure!(got == rev.iter().map(|i| ms[*i]).collect::<Vec<_>>(), "{}: verifier returns other messages", at);
    let ch2 = Verifier::create_challenge_hash(&[proof.clone()], &[req.clone()], &nonce, None).map_err(|e| e.to_string())?;
    ensure!(ch == ch2, "{}: prover and verifier challenge differ", at);
    // responses: rank among the hidden messages
    let hidden: Vec<usize> = (0..n).filter(|i| !rev.contains(i)).collect();
    for (k, i) in hidden.iter().enumerate() {
        let resp = proof.proof.get_resp_for_message(k).map_err(|e| format!("{}: response {}: {}", at, k, e))?;
        if let Some(b) = ext[*i] {
            let want = fsub(&b, &fmul(ch.as_ref(), ms[*i].as_ref()));
            ensure!(*resp.as_ref() == want, "{}: response {} is not the one of message {}", at, k, i);
        }
    }
    for k in hidden.len()..hidden.len() + 3 { ensure!(proof.proof.get_resp_for_message(k).is_err(), "{}: response {} exists", at, k); }
    // arbitrary challenge through the low-level interface
    let p2 = PoKOfSignature::init(&sig, &pk, &pm).map_err(|e| e.to_string())?;
    let c = ProofChallenge::from(frnz(r));
    let rm: BTreeMap<usize, SignatureMessage> = rev.iter().map(|i| (*i, ms[*i])).collect();
    let pr = p2.gen_proof(&c).map_err(|e| e.to_string())?;
    ensure!(pr.verify(&pk, &rm, &c).map(|s| s.is_valid()).unwrap_or(false), "{}: proof for a given challenge rejected", at);
    Ok(())
}
fn b03_multi(r: &mut R, _: u32) -> Out {
    // linked proofs over several credentials with a common challenge and claims
    let k = r.gen_range(1, 4); let link = fr(r); let bl = fr(r);
    let mut poks = vec![]; let mut reqs = vec![]; let mut ranks = vec![]; let mut revs = vec![]; let mut mss = vec![];
    for _ in 0..k {
        let n = nn(r).min(6); let (pk, sk) = keys(r, n); let mut ms = messages(r, n);
        let pos = r.gen_range(0, n); ms[pos] = msg(&link);
        let sig = Signature::new(&ms, &sk, &pk).map_err(|e| e.to_string())?;
        let rev: Vec<usize> = subset(r, n).into_iter().filter(|i| *i != pos).collect();
        let pm: Vec<ProofMessage> = (0..n).map(|i| if rev.contains(&i) { ProofMessage::Revealed(ms[i]) } else if i == pos { ProofMessage::Hidden(HiddenMessage::ExternalBlinding(ms[i], ProofNonce::from(bl))) } else { ProofMessage::Hidden(HiddenMessage::ProofSpecificBlinding(ms[i])) }).collect();
        let req = Verifier::new_proof_request(&rev, &pk).map_err(|e| e.to_string())?;
        poks.push(Prover::commit_signature_pok(&req, &pm, &sig).map_err(|e| e.to_string())?);
        ranks.push((0..pos).filter(|i| !rev.contains(i)).count());
        reqs.push(req); revs.push(rev); mss.push(ms);
    }
    let nonce = Verifier::generate_proof_nonce();
    let claims: Vec<Vec<u8>> = (0..r.gen_range(0, 3)).map(|i| vec![i as u8; i]).collect();
    let cl: Vec<&[u8]> = claims.iter().map(|c| &c[..]).collect();
    let copt = if coin(r) { Some(&cl[..]) } else { None };
    let ch = Prover::create_challenge_hash(&poks, copt, &nonce).map_err(|e| e.to_string())?;
    let proofs: Vec<SignatureProof> = poks.into_iter().map(|p| Prover::generate_signature_pok(p, &ch).unwrap()).collect();
    let ch2 = Verifier::create_challenge_hash(&proofs, &reqs, &nonce, copt).map_err(|e| e.to_string())?;
    ensure!(ch == ch2, "{} proofs: prover and verifier challenge differ", k);
    let mut resp = vec![];
    for i in 0..k {
        let st = proofs[i].proof.verify(&reqs[i].verification_key, &proofs[i].revealed_messages, &ch).map_err(|e| e.to_string())?;
        ensure!(st.is_valid(), "{} proofs: proof {} rejected, revealed {:?}", k, i, revs[i]);
        resp.push(proofs[i].proof.get_resp_for_message(ranks[i]).map_err(|e| e.to_string())?);
    }
    ensure!(resp.iter().all(|x| *x == resp[0]), "{} proofs: linked responses differ", k);
    Ok(())
}
fn b03_refuse(r: &mut R, _: u32) -> Out {
    let n = nn(r).min(5); let (pk, sk) = keys(r, n); let ms = messages(r, n);
    let sig = Signature::new(&ms, &sk, &pk).map_err(|e| e.to_string())?;
    let mk = |m: &[SignatureMessage]| -> Vec<ProofMessage> { m.iter().map(|x| ProofMessage::Hidden(HiddenMessage::ProofSpecificBlinding(*x))).collect() };
    let mut m2 = ms.clone(); let i = r.gen_range(0, n); m2[i] = msg(&fadd(m2[i].as_ref(), &Fr::one()));
    ensure!(PoKOfSignature::init(&sig, &pk, &mk(&m2)).is_err(), "proof started for a message that is not signed");
    ensure!(PoKOfSignature::init(&sig, &pk, &mk(&ms[..n - 1])).is_err(), "proof started for too few messages");
    Ok(())
}

// ------------------------------------------------------------------ B04
#[derive(Clone)]
struct P { ap: G1, ab: G1, d: G1, t1: G1, r1: Vec<Fr>, t2: G1, r2: Vec<Fr> }
fn p_bytes(p: &P) -> Vec<u8> {
    let mut v = ser_g1(&p.ap, true); v.extend(ser_g1(&p.ab, true)); v.extend(ser_g1(&p.d, true));
    let vc = |t: &G1, rs: &[Fr]| { let mut o = ser_g1(t, true); o.extend_from_slice(&(rs.len() as u32).to_be_bytes()); for x in rs { o.extend_from_slice(&ser_fr(x)); } o };
    let a = vc(&p.t1, &p.r1); v.extend_from_slice(&(a.len() as u32).to_be_bytes()); v.extend(a); v.extend(vc(&p.t2, &p.r2));
    v
}
fn p_make(p: &P) -> PoKOfSignatureProof { PoKOfSignatureProof::try_from(&p_bytes(p)[..]).unwrap() }
fn p_parse(x: &PoKOfSignatureProof) -> P {
    let b = x.to_bytes_compressed_form(); let mut c = &b[..];
    let g = |c: &mut &[u8]| G1::deserialize(c, true).unwrap();
    let ap = g(&mut c); let ab = g(&mut c); let d = g(&mut c); c = &c[4..];
    let vc = |c: &mut &[u8]| { let t = G1::deserialize(c, true).unwrap(); let mut l = [0u8; 4]; l.copy_from_slice(&c[..4]); *c = &c[4..]; let rs = (0..u32::from_be_bytes(l)).map(|_| Fr::deserialize(c, true).unwrap()).collect::<Vec<_>>(); (t, rs) };
    let (t1, r1) = vc(&mut c); let (t2, r2) = vc(&mut c);
    P { ap, ab, d, t1, r1, t2, r2 }
}
fn p_oracle(p: &P, pk: &PublicKey, rev: &BTreeMap<usize, SignatureMessage>, ch: &Fr) -> bool {
    if p.ap.is_zero() || pk.validate().is_err() { return false; }
    if rev.keys().any(|k| *k >= pk.h.len()) { return false; }
    if pair(&p.ap, &w_of(pk)) != pair(&p.ab, &G2::one()) { return false; }
    if p.r1.len() != 2 { return false; }
    let l = add(&add(&mul(&p.ap, &p.r1[0]), &mul(&h0(pk), &p.r1[1])), &mul(&sub(&p.ab, &p.d), ch));
    if l != p.t1 { return false; }
    let mut pr = G1::one(); let mut bases = vec![p.d, h0(pk)];
    for i in 0..pk.h.len() { match rev.get(&i) { Some(m) => pr = add(&pr, &mul(&hi(pk, i), m.as_ref())), None => bases.push(hi(pk, i)) } }
    if bases.len() != p.r2.len() { return false; }
    pr.negate();
    let mut t = mul(&pr, ch); for (b, x) in bases.iter().zip(&p.r2) { t = add(&t, &mul(b, x)); }
    t == p.t2
}
/// any proof shape; key with known discrete logarithms so that each relation can be broken alone
fn b04_crafted(r: &mut R, case: u32) -> Out {
    let n = r.gen_range(1, 6);
    let x = frnz(r); let a0 = frr(r); let al: Vec<Fr> = (0..n).map(|_| frr(r)).collect();
    let g = G1::one();
    let mut pk = PublicKey { h0: GeneratorG1::from(mul(&g, &a0)), h: al.iter().map(|a| GeneratorG1::from(mul(&g, a))).collect(), w: GeneratorG2::from(mul2(&G2::one(), &x)) };
    let rev_i = subset(r, n); let mut rev: BTreeMap<usize, SignatureMessage> = rev_i.iter().map(|i| (*i, msg(&fr(r)))).collect();
    let mut ch = frnz(r);
    // honest-shape proof built from discrete logarithms: ap = u g, ab = x u g, d = v g
    let u = frnz(r); let v = frnz(r);
    let mut p = P { ap: mul(&g, &u), ab: mul(&g, &fmul(&u, &x)), d: mul(&g, &v), t1: G1::zero(), r1: vec![fr(r), fr(r)], t2: G1::zero(), r2: (0..2 + n - rev.len()).map(|_| fr(r)).collect() };
    let k = case % 16;
    match k {
        1 => p.ab = mul(&g, &fadd(&fmul(&u, &x), &frnz(r))),        // pairing broken, relations hold
        2 => { p.ap = G1::zero(); p.ab = G1::zero(); }               // identity
        5 => { p.r1.pop(); }
        6 => p.r1.push(Fr::zero()),
        7 => { p.r2.pop(); }
        8 => p.r2.push(Fr::zero()),
        9 => { let mut t = p.ab; t.negate(); p.ab = t; }
        10 => pk.h0 = GeneratorG1::default(),
        11 => { let i = r.gen_range(0, n); pk.h[i] = GeneratorG1::default(); }
        12 => { pk.w = GeneratorG2::default(); p.ab = G1::zero(); }
        _ => {}
    }
    // make both Schnorr relations hold for the chosen values
    let mut t1 = mul(&sub(&p.ab, &p.d), &ch);
    for (b, s) in [p.ap, h0(&pk)].iter().zip(&p.r1) { t1 = add(&t1, &mul(b, s)); }
    p.t1 = t1;
    let mut pr = g; let mut bases = vec![p.d, h0(&pk)];
    for i in 0..n { match rev.get(&i) { Some(m) => pr = add(&pr, &mul(&hi(&pk, i), m.as_ref())), None => bases.push(hi(&pk, i)) } }
    pr.negate();
    let mut t2 = mul(&pr, &ch); for (b, s) in bases.iter().zip(&p.r2) { t2 = add(&t2, &mul(b, s)); }
    p.t2 = t2;
    match k {
        3 => p.t1 = add(&p.t1, &g),                                  // first relation broken
        4 => p.t2 = add(&p.t2, &g),                                  // second relation broken
        13 => { let i = r.gen_range(0, n); let m = rev.get(&i).cloned(); match m { Some(m) => { rev.insert(i, msg(&fadd(m.as_ref(), &frnz(r)))); } None => { rev.insert(i, msg(&fr(r))); } } }
        14 => ch = fadd(&ch, &frnz(r)),
        15 => { rev.insert(n + r.gen_range(0, 3), msg(&fr(r))); }
        _ => {}
    }
    let want = p_oracle(&p, &pk, &rev, &ch);
    let px = p_make(&p);
    let got = px.verify(&pk, &rev, &ProofChallenge::from(ch)).map(|s| s.is_valid()).unwrap_or(false);
    ensure!(got == want, "crafted case {} n={} revealed={:?}: verifier {} but equations {}", k, n, rev.keys().collect::<Vec<_>>(), got, want);
    Ok(())
}
fn b04_mutated(r: &mut R, case: u32) -> Out {
    let n = nn(r).min(6); let (pk, sk) = keys(r, n); let ms = messages(r, n);
    let sig = Signature::new(&ms, &sk, &pk).map_err(|e| e.to_string())?;
    let rev = subset(r, n);
    let pm: Vec<ProofMessage> = (0..n).map(|i| if rev.contains(&i) { ProofMessage::Revealed(ms[i]) } else { ProofMessage::Hidden(HiddenMessage::ProofSpecificBlinding(ms[i])) }).collect();
    let pok = PoKOfSignature::init(&sig, &pk, &pm).map_err(|e| e.to_string())?;
    let ch = frr(r);
    let p0 = p_parse(&pok.gen_proof(&ProofChallenge::from(ch)).map_err(|e| e.to_string())?);
    let rm: BTreeMap<usize, SignatureMessage> = rev.iter().map(|i| (*i, ms[*i])).collect();
    ensure!(p_oracle(&p0, &pk, &rm, &ch), "honest proof does not satisfy the equations n={} {:?}", n, rev);
    let mut p = p0.clone(); let mut rm2 = rm.clone(); let mut c2 = ch;
    match case % 11 {
        0 => p.ap = add(&p.ap, &g1(r)), 1 => p.ab = add(&p.ab, &g1(r)), 2 => p.d = add(&p.d, &g1(r)), 3 => p.t1 = g1(r), 4 => p.t2 = g1(r),
        5 => { let i = r.gen_range(0, 2); p.r1[i] = fadd(&p.r1[i], &frnz(r)); }
        6 => { let i = r.gen_range(0, p.r2.len()); p.r2[i] = fadd(&p.r2[i], &frnz(r)); }
        7 => { if let Some(i) = rev.first() { rm2.remove(i); } }
        8 => { if let Some(i) = rev.last() { rm2.insert(*i, msg(&fadd(ms[*i].as_ref(), &frnz(r)))); } }
        9 => c2 = fadd(&c2, &frnz(r)),
        _ => { let k = frr(r); p.ap = mul(&p.ap, &k); p.ab = mul(&p.ab, &k); }
    }
    let want = p_oracle(&p, &pk, &rm2, &c2);
    let got = p_make(&p).verify(&pk, &rm2, &ProofChallenge::from(c2)).map(|s| s.is_valid()).unwrap_or(false);
    ensure!(got == want, "mutation {} n={} revealed={:?}: verifier {} but equations {}", case % 11, n, rev, got, want);
    Ok(())
}
fn b04_request(r: &mut R, case: u32) -> Out {
    let n = nn(r).min(6); let (pk, sk) = keys(r, n); let ms: Vec<SignatureMessage> = (0..n).map(|_| msg(&frr(r))).collect();
    let sig = Signature::new(&ms, &sk, &pk).map_err(|e| e.to_string())?;
    let rev = subset(r, n);
    let req = Verifier::new_proof_request(&rev, &pk).map_err(|e| e.to_string())?;
    let pm: Vec<ProofMessage> = (0..n).map(|i| if rev.contains(&i) { ProofMessage::Revealed(ms[i]) } else { ProofMessage::Hidden(HiddenMessage::ProofSpecificBlinding(ms[i])) }).collect();
    let pok = Prover::commit_signature_pok(&req, &pm, &sig).map_err(|e| e.to_string())?;
    let nonce = Verifier::generate_proof_nonce();
    let ch = Prover::create_challenge_hash(&[pok.clone()], None, &nonce).map_err(|e| e.to_string())?;
    let proof = Prover::generate_signature_pok(pok, &ch).map_err(|e| e.to_string())?;
    let mut p2 = proof.clone(); let mut req2 = req.clone(); let mut nonce2 = nonce;
    let k = case % 9;
    match k {
        0 => { let i = r.gen_range(0, n); if !req2.revealed_messages.remove(&i) { req2.revealed_messages.insert(i); } } // another request
        1 => { let i = r.gen_range(0, n); if p2.revealed_messages.remove(&i).is_none() { p2.revealed_messages.insert(i, ms[i]); } }
        2 => { match rev.first() { Some(i) => { p2.revealed_messages.insert(*i, msg(&fadd(ms[*i].as_ref(), &Fr::one()))); } None => { p2.revealed_messages.insert(0, ms[0]); } } }
        3 => nonce2 = Verifier::generate_proof_nonce(),
        4 => req2.verification_key.h0 = GeneratorG1::from(g1(r)),
        5 => { let i = r.gen_range(0, n); req2.verification_key.h[i] = GeneratorG1::from(g1(r)); }
        6 => req2.verification_key.w = GeneratorG2::from(add2(&w_of(&pk), &G2::one())),
        7 => { // challenge chosen freely: a proof valid for a challenge that is not the hash of its transcript
            let pok = Prover::commit_signature_pok(&req, &pm, &sig).map_err(|e| e.to_string())?;
            p2 = Prover::generate_signature_pok(pok, &ProofChallenge::from(frr(r))).map_err(|e| e.to_string())?; }
        _ => { // the holder reveals other positions than requested, with a proof made for them
            let i = r.gen_range(0, n); let mut rev2: BTreeSet<usize> = rev.iter().cloned().collect(); if !rev2.remove(&i) { rev2.insert(i); }
            let rv: Vec<usize> = rev2.iter().cloned().collect();
            let rq = Verifier::new_proof_request(&rv, &pk).map_err(|e| e.to_string())?;
            let pm: Vec<ProofMessage> = (0..n).map(|i| if rev2.contains(&i) { ProofMessage::Revealed(ms[i]) } else { ProofMessage::Hidden(HiddenMessage::ProofSpecificBlinding(ms[i])) }).collect();
            let pok = Prover::commit_signature_pok(&rq, &pm, &sig).map_err(|e| e.to_string())?;
            // the transcript as the verifier will hash it (bases of the request) decides the challenge
            let dummy = Prover::generate_signature_pok(pok.clone(), &ProofChallenge::from(Fr::one())).map_err(|e| e.to_string())?;
            let c = Verifier::create_challenge_hash(&[dummy], &[req.clone()], &nonce, None).map_err(|e| e.to_string())?;
            p2 = Prover::generate_signature_pok(pok, &c).map_err(|e| e.to_string())?; }
    }
    ensure!(Verifier::verify_signature_pok(&req2, &p2, &nonce2).is_err(), "request case {} n={} revealed={:?}: accepted", k, n, rev);
    for idx in &[n, n + 1] { ensure!(Verifier::new_proof_request(&[*idx], &pk).is_err(), "request of position {} of {}", idx, n); }
    Ok(())
}

// ------------------------------------------------------------------ B05
fn trunc<T, E>(b: &[u8], what: &str, f: impl Fn(&[u8]) -> Result<T, E>) -> Out {
    let step = if b.len() > 400 { b.len() / 157 } else { 1 };
    let mut l = 0;
    while l < b.len() {
        let p = &b[..l];
        match nopanic(&format!("{} cut to {} of {} bytes", what, l, b.len()), || f(p).is_ok()) { Err(e) => return Err(e), Ok(true) => return Err(format!("{} cut to {} of {} bytes accepted", what, l, b.len())), _ => {} }
        l += step;
    }
    Ok(())
}
fn noise<T, E>(r: &mut R, b: &[u8], what: &str, f: impl Fn(&[u8]) -> Result<T, E>) -> Out {
    for _ in 0..6 {
        let mut v = b.to_vec();
        if v.is_empty() { return Ok(()); }
        for _ in 0..r.gen_range(1, 4) { let i = if coin(r) { r.gen_range(0, v.len()) } else { r.gen_range(0, v.len().min(16)) }; v[i] = match r.gen_range(0, 4) { 0 => 0, 1 => 0xff, _ => r.gen() }; }
        if coin(r) { let l = r.gen_range(0, v.len() + 1); v.truncate(l); }
        nopanic(&format!("{} from {}", what, hex::encode(&v)), || { let _ = f(&v); })?;
        // length fields
        let mut v = b.to_vec(); let i = r.gen_range(0, v.len()); for j in i..(i + 4).min(v.len()) { v[j] = if coin(r) { 0xff } else { 0 }; }
        nopanic(&format!("{} from {}", what, hex::encode(&v)), || { let _ = f(&v); })?;
    }
    Ok(())
}
fn rt_sig(r: &mut R, n: usize) -> (PublicKey, SecretKey, Vec<SignatureMessage>, Signature) {
    let (pk, sk) = keys(r, n); let ms = messages(r, n); let s = Signature::new(&ms, &sk, &pk).unwrap(); (pk, sk, ms, s)
}
macro_rules! fixed { ($r:expr, $t:ty, $x:expr) => {{
    let x: $t = $x; let name = stringify!($t);
    let c = x.to_bytes_compressed_form(); let u = x.to_bytes_uncompressed_form();
    ensure!(<$t>::from(c) == x, "{} compressed", name);
    ensure!(<$t>::from(u) == x, "{} uncompressed", name);
    ensure!(<$t>::try_from(&c[..]).map(|y| y == x).unwrap_or(false), "{} try_from compressed", name);
    ensure!(<$t>::try_from(c.to_vec()).map(|y| y == x).unwrap_or(false), "{} try_from vec", name);
    let b: Box<[u8]> = x.clone().into(); ensure!(<$t>::from(b) == x, "{} boxed", name);
    trunc(&c, name, |d| <$t>::try_from(d))?; noise($r, &c, name, |d| <$t>::try_from(d))?;
}}; }
fn b05_fixed(r: &mut R, _: u32) -> Out {
    let zero = r.gen_range(0, 4) == 0;
    let p = if zero { G1::zero() } else { g1(r) }; let q = if zero { G2::zero() } else { G2::random(r) };
    fixed!(r, Commitment, Commitment::from(p)); fixed!(r, GeneratorG1, GeneratorG1::from(p)); fixed!(r, GeneratorG2, GeneratorG2::from(q));
    fixed!(r, DeterministicPublicKey, DeterministicPublicKey::from(q));
    macro_rules! scalar { ($t:ty) => {{
        let x = <$t>::from(fr(r)); let c = x.to_bytes_compressed_form();
        ensure!(<$t>::from(c) == x, "{}", stringify!($t)); ensure!(x.to_bytes_uncompressed_form()[..] == c[..], "{} forms", stringify!($t));
        ensure!(<$t>::try_from(&c[..]).map(|y| y == x).unwrap_or(false), "{} try_from", stringify!($t));
        let b: Box<[u8]> = x.into(); ensure!(<$t>::from(b) == x, "{} boxed", stringify!($t));
        trunc(&c, stringify!($t), |d| <$t>::try_from(d))?; noise(r, &c, stringify!($t), |d| <$t>::try_from(d))?;
    }}; }
    scalar!(SignatureMessage); scalar!(ProofNonce); scalar!(ProofChallenge); scalar!(SignatureBlinding);
    let sk = SecretKey::from(ser_fr(&frnz(r))); let c = sk.to_bytes_compressed_form();
    ensure!(SecretKey::from(c) == sk, "SecretKey"); ensure!(SecretKey::try_from(&c[..]).map(|y| y == sk).unwrap_or(false), "SecretKey try_from");
    trunc(&c, "SecretKey", |d| SecretKey::try_from(d))?;
    let n = nn(r).min(3); let (pk, sk, _, s) = rt_sig(r, n);
    fixed!(r, Signature, s);
    let bs = BlindSignature::new(&Commitment::from(g1(r)), &BTreeMap::new(), &sk, &pk).map_err(|e| e.to_string())?;
    fixed!(r, BlindSignature, bs);
    Ok(())
}
macro_rules! var { ($r:expr, $t:ty, $x:expr, $eq:expr) => {{
    let x: &$t = $x; let name = stringify!($t); let eq = $eq;
    let c = x.to_bytes_compressed_form(); let u = x.to_bytes_uncompressed_form();
    match nopanic(name, || <$t>::from_bytes_compressed_form(&c))? { Ok(y) => ensure!(eq(&y, x), "{} compressed: decoded value differs ({})", name, hex::encode(&c)), Err(_) => return Err(format!("{} compressed: own encoding rejected ({})", name, hex::encode(&c))) }
    match nopanic(name, || <$t>::from_bytes_uncompressed_form(&u))? { Ok(y) => ensure!(eq(&y, x), "{} uncompressed: decoded value differs ({})", name, hex::encode(&u)), Err(_) => return Err(format!("{} uncompressed: own encoding rejected ({})", name, hex::encode(&u))) }
    match nopanic(name, || <$t>::try_from(&c[..]))? { Ok(y) => ensure!(eq(&y, x), "{} try_from: decoded value differs", name), Err(_) => return Err(format!("{} try_from: own encoding rejected", name)) }
    match nopanic(name, || <$t>::try_from(u.clone()))? { Ok(y) => { let _ = y; } Err(_) => {} }
    trunc(&c, name, |d| <$t>::from_bytes_compressed_form(d))?; trunc(&u, name, |d| <$t>::from_bytes_uncompressed_form(d))?;
    noise($r, &c, name, |d| <$t>::from_bytes_compressed_form(d))?; noise($r, &u, name, |d| <$t>::from_bytes_uncompressed_form(d))?;
    noise($r, &c, name, |d| <$t>::try_from(d))?;
}}; }
fn eqv<T: ToVariableLengthBytes>(a: &T, b: &T) -> bool { a.to_bytes_uncompressed_form() == b.to_bytes_uncompressed_form() && a.to_bytes_compressed_form() == b.to_bytes_compressed_form() }
fn b05_var(r: &mut R, case: u32) -> Out {
    let n = match case { 0 => 8, 1 => 16, 2 => 17, 3 => 7, 4 => 9, 5 => 24, 6 => 1, _ => nn(r) };
    let (pk, _sk, ms, sig) = rt_sig(r, n);
    var!(r, PublicKey, &pk, |a: &PublicKey, b: &PublicKey| a == b);
    let rev = if case % 3 == 0 { vec![n - 1] } else if case % 3 == 1 { (0..n).collect() } else { subset(r, n) };
    let req = Verifier::new_proof_request(&rev, &pk).map_err(|e| e.to_string())?;
    var!(r, ProofRequest, &req, |a: &ProofRequest, b: &ProofRequest| a.revealed_messages == b.revealed_messages && a.verification_key == b.verification_key);
    let pm: Vec<ProofMessage> = (0..n).map(|i| if rev.contains(&i) { ProofMessage::Revealed(ms[i]) } else { ProofMessage::Hidden(HiddenMessage::ProofSpecificBlinding(ms[i])) }).collect();
    let pok = Prover::commit_signature_pok(&req, &pm, &sig).map_err(|e| e.to_string())?;
    let nonce = Verifier::generate_proof_nonce();
    let ch = Prover::create_challenge_hash(&[pok.clone()], None, &nonce).map_err(|e| e.to_string())?;
    let proof = Prover::generate_signature_pok(pok, &ch).map_err(|e| e.to_string())?;
    // decoded values still do their job
    for form in 0..2 {
        let rq = if form == 0 { ProofRequest::from_bytes_compressed_form(req.to_bytes_compressed_form()) } else { ProofRequest::from_bytes_uncompressed_form(req.to_bytes_uncompressed_form()) }.map_err(|e| format!("request form {}: {}", form, e))?;
        let pr = if form == 0 { SignatureProof::from_bytes_compressed_form(proof.to_bytes_compressed_form()) } else { SignatureProof::from_bytes_uncompressed_form(proof.to_bytes_uncompressed_form()) }.map_err(|e| format!("proof form {}: {}", form, e))?;
        let got = Verifier::verify_signature_pok(&rq, &pr, &nonce).map_err(|e| format!("decoded proof rejected, form {}: {}", form, e))?;
        ensure!(got == rev.iter().map(|i| ms[*i]).collect::<Vec<_>>(), "decoded proof discloses other messages, form {}", form);
    }
    var!(r, PoKOfSignatureProof, &proof.proof, eqv);
    var!(r, SignatureProof, &proof, |a: &SignatureProof, b: &SignatureProof| a.revealed_messages == b.revealed_messages && eqv(&a.proof, &b.proof));
    let hidden: BTreeMap<usize, SignatureMessage> = subset(r, n).into_iter().map(|i| (i, ms[i])).collect();
    let snonce = Issuer::generate_signing_nonce();
    let (ctx, _) = Prover::new_blind_signature_context(&pk, &hidden, &snonce).map_err(|e| e.to_string())?;
    let known: BTreeSet<usize> = (0..n).filter(|i| !hidden.contains_key(i)).collect();
    for form in 0..2 {
        let c2 = if form == 0 { BlindSignatureContext::from_bytes_compressed_form(ctx.to_bytes_compressed_form()) } else { BlindSignatureContext::from_bytes_uncompressed_form(ctx.to_bytes_uncompressed_form()) }.map_err(|e| format!("context form {}: {}", form, e))?;
        ensure!(verdict(c2.verify(&known, &pk, &snonce)) == Some(true), "decoded context rejected, form {}", form);
    }
    var!(r, BlindSignatureContext, &ctx, eqv);
    var!(r, ProofG1, &ctx.proof_of_hidden_messages, eqv);
    Ok(())
}
fn b05_garbage(r: &mut R, _: u32) -> Out {
    let l = r.gen_range(0, 700); let mut v: Vec<u8> = (0..l).map(|_| if coin(r) { 0 } else { r.gen() }).collect();
    if coin(r) { for x in v.iter_mut() { *x = if *x > 200 { *x } else { 0 }; } }
    if l > 4 && coin(r) { v[0] = 0; v[1] = 0; v[2] = 0; v[3] = r.gen_range(0, 64); }
    macro_rules! g { ($t:ty) => { nopanic(&format!("{} from {}", stringify!($t), hex::encode(&v)), || { let _ = <$t>::from_bytes_compressed_form(&v); let _ = <$t>::from_bytes_uncompressed_form(&v); let _ = <$t>::try_from(&v[..]); })?; }; }
    g!(PublicKey); g!(ProofRequest); g!(PoKOfSignatureProof); g!(SignatureProof); g!(BlindSignatureContext); g!(ProofG1);
    Ok(())
}

// ------------------------------------------------------------------ V01
fn v01_bbs(r: &mut R, case: u32) -> Out {
    let n = r.gen_range(1, 8);
    let mut bases: Vec<GeneratorG1> = (0..n).map(|_| GeneratorG1::from(if r.gen_range(0, 8) == 0 { G1::zero() } else { g1(r) })).collect();
    if n > 1 && coin(r) { bases[1] = bases[0]; }
    let secrets: Vec<SignatureMessage> = (0..n).map(|_| msg(&fr(r))).collect();
    let mut cm = ProverCommittingG1::new(); let mut given = vec![];
    for (i, b) in bases.iter().enumerate() {
        let ix = if coin(r) { given.push(None); cm.commit(b) } else { let k = fr(r); given.push(Some(k)); cm.commit_with(b, ProofNonce::from(k)) };
        ensure!(ix == i, "commit returns index {} at {}", ix, i);
    }
    for i in 0..n { let (b, f) = cm.get_index(i).map_err(|e| e.to_string())?; ensure!(b == bases[i], "get_index base {}", i); if let Some(k) = given[i] { ensure!(*f.as_ref() == k, "get_index blinding {}", i); } }
    ensure!(cm.get_index(n).is_err(), "get_index out of range");
    let com = bases.iter().zip(&secrets).fold(G1::zero(), |a, (b, s)| add(&a, &mul(b.as_ref(), s.as_ref())));
    let cd = cm.finish();
    let nonce = b"nonce";
    let mut extra = ser_g1(&com, false); extra.extend_from_slice(nonce);
    let hashed = coin(r);
    let ch = if hashed { cd.gen_challenge(&extra) } else { ProofChallenge::from(fr(r)) };
    ensure!(cd.clone().gen_proof(&ch, &secrets[..n - 1]).is_err(), "fewer secrets than bases");
    let mut more = secrets.clone(); more.push(secrets[0]);
    ensure!(cd.clone().gen_proof(&ch, &more).is_err(), "more secrets than bases");
    let pf = cd.gen_proof(&ch, &secrets).map_err(|e| e.to_string())?;
    let com_ = Commitment::from(com);
    ensure!(pf.verify(&bases, &com_, &ch).unwrap_or(false), "honest proof rejected, n={}", n);
    let full = pf.verify_complete_proof(&bases, &com_, &ch, nonce).unwrap_or(false);
    if hashed { ensure!(full, "honest complete proof rejected n={}", n); } else { ensure!(!full, "complete proof accepted with a challenge that is not the hash"); }
    ensure!(!hashed || !pf.verify_complete_proof(&bases, &com_, &ch, b"other").unwrap_or(false), "complete proof accepted for another nonce");
    ensure!(pf.verify(&bases[..n - 1], &com_, &ch).is_err(), "fewer bases accepted");
    let mut mb = bases.clone(); mb.push(bases[0]); ensure!(pf.verify(&mb, &com_, &ch).is_err(), "more bases accepted");
    ensure!(pf.get_challenge_contribution(&mb, &com_, &ch).is_err(), "more bases accepted by get_challenge_contribution");
    // mutated: verdict equals the equation
    let b = pf.to_bytes_compressed_form(); let mut c = &b[..];
    let mut t = G1::deserialize(&mut c, true).unwrap(); c = &c[4..]; let mut rs: Vec<Fr> = (0..n).map(|_| Fr::deserialize(&mut c, true).unwrap()).collect();
    let mut com2 = com; let mut ch2 = *ch.as_ref(); let mut bs2 = bases.clone();
    match case % 5 { 0 => t = add(&t, &g1(r)), 1 => { let i = r.gen_range(0, n); rs[i] = fadd(&rs[i], &frnz(r)); } 2 => com2 = add(&com2, &g1(r)), 3 => ch2 = fadd(&ch2, &frnz(r)), _ => { let i = r.gen_range(0, n); bs2[i] = GeneratorG1::from(g1(r)); } }
    let mut v = ser_g1(&t, true); v.extend_from_slice(&(n as u32).to_be_bytes()); for x in &rs { v.extend_from_slice(&ser_fr(x)); }
    let p2 = ProofG1::from_bytes_compressed_form(&v).map_err(|e| e.to_string())?;
    let mut l = mul(&com2, &ch2); for (b, x) in bs2.iter().zip(&rs) { l = add(&l, &mul(b.as_ref(), x)); }
    let contrib = p2.get_challenge_contribution(&bs2, &Commitment::from(com2), &ProofChallenge::from(ch2)).map_err(|e| e.to_string())?;
    ensure!(*contrib.as_ref() == l, "challenge contribution is not the recomputed commitment");
    ensure!(p2.verify(&bs2, &Commitment::from(com2), &ProofChallenge::from(ch2)).unwrap_or(false) == (l == t), "mutation {}: verdict differs from the equation", case % 5);
    Ok(())
}

fn main() {
    let s = |prop, name, quick, thorough, f| Sc { prop, name, quick, thorough, f };
    hcommon::main(&[
        s("B01", "honest", 60, 3000, b01_honest), s("B01", "oracle", 150, 6000, b01_oracle), s("B01", "identity", 64, 2000, b01_identity),
        s("B02", "flow", 80, 3000, b02_flow), s("B02", "adversarial", 210, 6000, b02_adversarial), s("B02", "range", 10, 200, b02_range),
        s("B03", "flow", 120, 4000, b03_flow), s("B03", "multi", 40, 1500, b03_multi), s("B03", "refuse", 10, 200, b03_refuse),
        s("B04", "crafted", 320, 12000, b04_crafted), s("B04", "mutated", 110, 5000, b04_mutated), s("B04", "request", 90, 4000, b04_request),
        s("B05", "fixed", 16, 800, b05_fixed), s("B05", "var", 32, 1200, b05_var), s("B05", "garbage", 3000, 300000, b05_garbage),
        s("V01", "bbs", 120, 6000, v01_bbs),
    ]);
}
