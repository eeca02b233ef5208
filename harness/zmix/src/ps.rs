use super::*;
use std::collections::{HashMap, HashSet};
use zmix::signatures::ps::blind_signature::{BlindSignature, BlindingKey};
use zmix::signatures::ps::keys::{keygen, Params, Sigkey, Verkey};
use zmix::signatures::ps::pok_sig::{PoKOfSignature, PoKOfSignatureProof};
use zmix::signatures::ps::signature::Signature;
// default features: SignatureGroup = G2, OtherGroup = G1
type SG = G2;
type OG = G1;

fn params(r: &mut R) -> Params {
    if coin(r) { let mut b = [0u8; 6]; r.fill_bytes(&mut b); Params::new(&b) } else { Params { g: g2(r), g_tilde: g1(r) } }
}
/// keys made by keygen or crafted (also with zero or repeated secrets)
fn keys(r: &mut R, n: usize, p: &Params) -> Result<(Verkey, Sigkey), String> {
    if coin(r) {
        let (vk, sk) = keygen(n, p);
        ensure!(sk.y.len() == n && vk.Y_tilde.len() == n, "keygen({}) made {} / {} message keys", n, sk.y.len(), vk.Y_tilde.len());
        ensure!(vk.X_tilde == &p.g_tilde * &sk.x, "keygen: X_tilde does not match x");
        for i in 0..n { ensure!(vk.Y_tilde[i] == &p.g_tilde * &sk.y[i], "keygen: Y_tilde[{}] does not match y", i); }
        return Ok((vk, sk));
    }
    let x = fenz(r); let mut y: Vec<FE> = (0..n).map(|_| fenz(r)).collect();
    if n > 1 && coin(r) { y[0] = y[n - 1].clone(); }
    Ok((Verkey { X_tilde: &p.g_tilde * &x, Y_tilde: y.iter().map(|v| &p.g_tilde * v).collect() }, Sigkey { x, y }))
}
fn expo(sk: &Sigkey, ms: &[FE]) -> FE { let mut e = sk.x.clone(); for i in 0..ms.len() { e = e + (&sk.y[i] * &ms[i]); } e }
fn oracle(sg: &Signature, ms: &[FE], vk: &Verkey, p: &Params) -> bool {
    if sg.sigma_1.is_identity() || sg.sigma_2.is_identity() { return false; }
    let mut t = vk.X_tilde.clone(); for i in 0..ms.len() { t = t + (&vk.Y_tilde[i] * &ms[i]); }
    gt_eq(&pr(&t, &sg.sigma_1), &pr(&p.g_tilde, &sg.sigma_2))
}
fn sk_sig(r: &mut R, sk: &Sigkey, ms: &[FE]) -> Signature { let s1 = g2(r); let s2 = &s1 * &expo(sk, ms); Signature { sigma_1: s1, sigma_2: s2 } }

fn sign_verify(r: &mut R, c: u32) -> Out {
    let n = if c < 3 { c as usize } else { range(r, 0, 9) };
    let p = params(r); let (vk, sk) = keys(r, n, &p)?; let ms = fes(r, n);
    let sg = Signature::new(&ms, &sk, &p).map_err(|e| format!("sign {} messages: {:?}", n, e))?;
    ensure!(!sg.sigma_1.is_identity(), "sigma_1 is the identity");
    ensure!(sg.sigma_2 == &sg.sigma_1 * &expo(&sk, &ms), "sigma_2 is not sigma_1^(x + sum y m) ({} messages)", n);
    if !sg.sigma_2.is_identity() { ensure!(sg.verify(&ms, &vk, &p).map_err(|e| format!("verify: {:?}", e))?, "honest signature on {} messages rejected", n); }
    let sg2 = Signature::new(&ms, &sk, &p).map_err(|e| format!("{:?}", e))?;
    ensure!(sg2.sigma_1 != sg.sigma_1, "two signatures use the same randomness");
    let mut m2 = ms.clone(); m2.push(fe(r));
    ensure!(Signature::new(&m2, &sk, &p).is_err(), "signing more messages than the key supports succeeded");
    ensure!(sg.verify(&m2, &vk, &p).map(|b| !b && sg.sigma_2.is_identity()).unwrap_or(true), "verify with an extra message did not fail");
    if n > 0 {
        ensure!(Signature::new(&ms[..n - 1], &sk, &p).is_err(), "signing fewer messages than the key supports succeeded");
        ensure!(sg.verify(&ms[..n - 1], &vk, &p).map(|b| !b && sg.sigma_2.is_identity()).unwrap_or(true), "verify with a missing message did not fail");
    }
    Ok(())
}
fn verify_equation(r: &mut R, _c: u32) -> Out {
    let n = range(r, 0, 6);
    let mut p = params(r); let (mut vk, sk) = keys(r, n, &p)?; let mut ms = fes(r, n);
    let mut sg = sk_sig(r, &sk, &ms);
    match r.gen_range(0, 11) {
        0 => {}
        1 => { if n > 0 { let i = r.gen_range(0, n); ms[i] = &ms[i] + &fenz(r); } }
        2 => { if n > 1 { let i = r.gen_range(0, n); let j = r.gen_range(0, n); ms.swap(i, j); } }
        3 => { sg.sigma_1 = SG::identity(); }
        4 => { sg.sigma_2 = SG::identity(); }
        5 => { sg.sigma_1 = SG::identity(); sg.sigma_2 = SG::identity(); }
        6 => { sg.sigma_2 = &sg.sigma_2 + &g2(r); }
        7 => { let k = fenz(r); sg.sigma_1 = &sg.sigma_1 * &k; if coin(r) { sg.sigma_2 = &sg.sigma_2 * &k; } }
        8 => { vk.X_tilde = &vk.X_tilde + &g1(r); }
        9 => { if n > 0 { let i = r.gen_range(0, n); vk.Y_tilde[i] = &vk.Y_tilde[i] + &g1(r); } }
        _ => { p.g_tilde = g1(r); }
    }
    let want = oracle(&sg, &ms, &vk, &p);
    let got = sg.verify(&ms, &vk, &p).map_err(|e| format!("verify: {:?}", e))?;
    ensure!(got == want, "verify returned {} where the equation gives {} ({} messages)", got, want, n);
    Ok(())
}
fn given_exp(r: &mut R, _c: u32) -> Out {
    let n = range(r, 0, 7); let off = range(r, 0, n + 1).min(n); let p = params(r); let (_, sk) = keys(r, n, &p)?;
    let ms = fes(r, n - off); let u = fenz(r);
    let (a, b) = Signature::sign_with_sigma_1_generated_from_given_exp(&ms, &sk, &u, off, &p.g).map_err(|e| format!("{:?}", e))?;
    let mut e = sk.x.clone(); for i in 0..ms.len() { e = e + (&sk.y[off + i] * &ms[i]); }
    ensure!(a == &p.g * &u && b == &a * &e, "signature part for offset {} of {} differs", off, n);
    let m2 = fes(r, n - off + 1);
    ensure!(Signature::sign_with_sigma_1_generated_from_given_exp(&m2, &sk, &u, off, &p.g).is_err(), "too many messages accepted");
    Ok(())
}

fn blind(r: &mut R, c: u32) -> Out {
    let n = range(r, 1, 8); let h = if c < 2 { [1, n][c as usize] } else { range(r, 1, n + 1) };
    let p = params(r); let (vk, sk) = keys(r, n, &p)?; let ms = fes(r, n); let t = fe(r);
    let bk = BlindingKey::new(&sk, &p);
    ensure!(bk.X == &p.g * &sk.x && bk.Y.len() == n && (0..n).all(|i| bk.Y[i] == &p.g * &sk.y[i]), "blinding key does not match the signing key");
    let mut com = &p.g * &t; for i in 0..h { com = com + (&bk.Y[i] * &ms[i]); }
    for alg in 0..2 {
        let f = |k: &[FE], x: &SG| if alg == 0 { BlindSignature::new(&com, k, &sk, &bk, &p) } else { BlindSignature::new_from_paper(&com, k, x, &bk, &p) };
        let bs = f(&ms[h..], &bk.X).map_err(|e| format!("blind sign {} hidden of {}: {:?}", h, n, e))?;
        let sg = BlindSignature::unblind(&bs, &t);
        ensure!(sg.sigma_1 == bs.sigma_1, "unblinding changes sigma_1");
        ensure!(sg.sigma_2 == &sg.sigma_1 * &expo(&sk, &ms), "unblinded signature is not a signature on hidden then known messages ({} hidden of {})", h, n);
        if !sg.sigma_2.is_identity() && !sg.sigma_1.is_identity() {
            ensure!(sg.verify(&ms, &vk, &p).map_err(|e| format!("{:?}", e))?, "unblinded signature rejected ({} hidden of {})", h, n);
            let w = &t + &fenz(r);
            ensure!(!BlindSignature::unblind(&bs, &w).verify(&ms, &vk, &p).unwrap_or(false), "signature unblinded with a wrong blinding accepted");
        }
        // no hidden message left
        let all = fes(r, n); ensure!(f(&all, &bk.X).is_err(), "blind signature without a hidden message was issued");
        let more = fes(r, n + 1); ensure!(nopanic("blind sign", || f(&more, &bk.X).is_err())?, "blind signature over too many messages was issued");
    }
    Ok(())
}
/// the commitment is built with the prover of the library
fn blind_protocol(r: &mut R, _c: u32) -> Out {
    use zmix::signatures::ps::blind_signature::ProverCommittingSignatureGroup as PC;
    let n = range(r, 1, 7); let h = range(r, 1, n + 1);
    let p = params(r); let (vk, sk) = keys(r, n, &p)?; let ms: Vec<FE> = (0..n).map(|_| fer(r)).collect();
    let bk = BlindingKey::new(&sk, &p);
    let t = fer(r); let mut bases = vec![p.g.clone()]; let mut exps = vec![t.clone()];
    let mut pc = PC::new(); pc.commit(&p.g, None);
    for i in 0..h { bases.push(bk.Y[i].clone()); exps.push(ms[i].clone()); pc.commit(&bk.Y[i], None); }
    let mut com = SG::identity(); for i in 0..=h { com = com + (&bases[i] * &exps[i]); }
    let pd = pc.finish(); let ch = pd.gen_challenge(com.to_bytes());
    let pf = pd.gen_proof(&ch, &exps).map_err(|e| format!("{:?}", e))?;
    ensure!(pf.verify(&bases, &com, &ch).unwrap_or(false), "proof of the commitment rejected");
    let bs = BlindSignature::new(&com, &ms[h..], &sk, &bk, &p).map_err(|e| format!("{:?}", e))?;
    let sg = BlindSignature::unblind(&bs, &t);
    ensure!(sg.verify(&ms, &vk, &p).unwrap_or(false), "blind issuance with {} hidden of {} does not verify", h, n);
    Ok(())
}

fn schnorr(pf: &PoKOfSignatureProof, vk: &Verkey, p: &Params, rev: &HashMap<usize, FE>, ch: &FE) -> bool {
    let mut bases = vec![p.g_tilde.clone()];
    for i in 0..vk.Y_tilde.len() { if !rev.contains_key(&i) { bases.push(vk.Y_tilde[i].clone()); } }
    if bases.len() != pf.proof_vc.responses.len() { return false; }
    let mut t = &pf.J * ch; for i in 0..bases.len() { t = t + (&bases[i] * &pf.proof_vc.responses[i]); }
    t == pf.proof_vc.commitment
}
fn pairing(pf: &PoKOfSignatureProof, vk: &Verkey, p: &Params, rev: &HashMap<usize, FE>) -> bool {
    let mut j = &pf.J + &vk.X_tilde; for (i, m) in rev { j = j + (&vk.Y_tilde[*i] * m); }
    gt_eq(&pr(&j, &pf.sig.sigma_1), &pr(&p.g_tilde, &pf.sig.sigma_2))
}
fn pok_oracle(pf: &PoKOfSignatureProof, vk: &Verkey, p: &Params, rev: &HashMap<usize, FE>, ch: &FE) -> bool {
    !pf.sig.sigma_1.is_identity() && !pf.sig.sigma_2.is_identity() && schnorr(pf, vk, p, rev, ch) && pairing(pf, vk, p, rev)
}
fn pok_honest(r: &mut R, _c: u32) -> Out {
    let n = range(r, 0, 8); let p = params(r); let (vk, sk) = keys(r, n, &p)?; let ms = fes(r, n);
    let sg = sk_sig(r, &sk, &ms);
    if sg.sigma_2.is_identity() { return Ok(()); }
    let rev: HashSet<usize> = subset(r, n).into_iter().collect(); let hid: Vec<usize> = (0..n).filter(|i| !rev.contains(i)).collect();
    let bl: Vec<FE> = hid.iter().map(|_| fe(r)).collect(); let given = coin(r);
    let pok = PoKOfSignature::init(&sg, &vk, &p, &ms, if given { Some(&bl[..]) } else { None }, rev.clone()).map_err(|e| format!("init: {:?}", e))?;
    let ch = if coin(r) { FE::from_msg_hash(&pok.to_bytes()) } else { fe(r) };
    let tr = pok.to_bytes(); let com = pok.pok_vc.commitment.clone();
    let pf = pok.gen_proof(&ch).map_err(|e| format!("gen_proof: {:?}", e))?;
    ensure!(pf.get_bytes_for_challenge(rev.clone(), &vk, &p) == tr, "verifier transcript differs from the prover's ({} of {} revealed)", rev.len(), n);
    ensure!(pf.proof_vc.commitment == com, "commitment changed");
    let rm: HashMap<usize, FE> = rev.iter().map(|i| (*i, ms[*i].clone())).collect();
    ensure!(pf.verify(&vk, &p, rm.clone(), &ch).map_err(|e| format!("verify: {:?}", e))?, "honest proof rejected, {:?} revealed of {}", rev, n);
    ensure!(pok_oracle(&pf, &vk, &p, &rm, &ch), "honest proof does not satisfy the equations");
    for (k, i) in hid.iter().enumerate() {
        let x = pf.get_resp_for_message(k).map_err(|e| format!("get_resp_for_message({}): {:?}", k, e))?;
        ensure!(feq(&x, &pf.proof_vc.responses[k + 1]), "get_resp_for_message({}) is another response", k);
        if given { ensure!(feq(&x, &(&bl[k] - (&ch * &ms[*i]))), "response of hidden message {} does not use the given blinding", i); }
    }
    ensure!(nopanic("get_resp_for_message", || pf.get_resp_for_message(hid.len()).is_err())?, "response past the hidden messages returned");
    // malformed requests
    let mut bad = rev.clone(); bad.insert(n + r.gen_range(0, 3));
    ensure!(nopanic("init", || PoKOfSignature::init(&sg, &vk, &p, &ms, None, bad.clone()).is_err())?, "revealed index out of range accepted");
    let mut b2 = bl.clone(); b2.push(fe(r));
    ensure!(nopanic("init", || PoKOfSignature::init(&sg, &vk, &p, &ms, Some(&b2[..]), rev.clone()).is_err())?, "wrong number of blindings accepted");
    let mut m2 = ms.clone(); m2.push(fe(r));
    ensure!(nopanic("init", || PoKOfSignature::init(&sg, &vk, &p, &m2, None, rev.clone()).is_err())?, "wrong number of messages accepted");
    Ok(())
}
fn pok_adversary(r: &mut R, _c: u32) -> Out {
    let n = range(r, 0, 6); let p = params(r); let (vk, sk) = keys(r, n, &p)?; let ms = fes(r, n);
    let sg = sk_sig(r, &sk, &ms);
    let rev: Vec<usize> = subset(r, n); let hid: Vec<usize> = (0..n).filter(|i| !rev.contains(i)).collect();
    let mut rm: HashMap<usize, FE> = rev.iter().map(|i| (*i, ms[*i].clone())).collect();
    let (k, t) = (fenz(r), fer(r)); let ch = fe(r);
    let mut bases = vec![p.g_tilde.clone()]; let mut sec = vec![t.clone()]; for i in &hid { bases.push(vk.Y_tilde[*i].clone()); sec.push(ms[*i].clone()); }
    let mut sigma = Signature { sigma_1: &sg.sigma_1 * &k, sigma_2: (&sg.sigma_2 + (&sg.sigma_1 * &t)) * &k };
    let mode = r.gen_range(0, 13);
    if mode == 1 { let i = r.gen_range(0, sec.len()); sec[i] = &sec[i] + &fenz(r); }        // another witness: Schnorr fine, pairing not
    let mut j = OG::identity(); for i in 0..sec.len() { j = j + (&bases[i] * &sec[i]); }
    let mut jv = j.clone();
    if mode == 2 { jv = &j + &g1(r); }
    let bl: Vec<FE> = sec.iter().map(|_| fer(r)).collect(); let mut com = OG::identity(); for i in 0..sec.len() { com = com + (&bases[i] * &bl[i]); }
    let mut rs = FEV::new(0); for i in 0..sec.len() { rs.push(&bl[i] - (&ch * &sec[i])); }
    let mut ch2 = ch.clone(); let mut vk2 = vk.clone(); let mut p2 = p.clone();
    match mode {
        3 => { let i = r.gen_range(0, rs.len()); rs[i] = &rs[i] + &fenz(r); }
        4 => { com = &com + &g1(r); }
        5 => { sigma = Signature { sigma_1: SG::identity(), sigma_2: SG::identity() }; }
        6 => { if coin(r) { sigma.sigma_1 = SG::identity(); } else { sigma.sigma_2 = SG::identity(); } }
        7 => { sigma.sigma_2 = &sigma.sigma_2 + &g2(r); }
        8 => { if let Some(i) = rev.first() { let m = &ms[*i] + &fenz(r); rm.insert(*i, m); } }
        9 => { ch2 = &ch2 + &fenz(r); }
        10 => { vk2.X_tilde = &vk2.X_tilde + &g1(r); }
        11 => { if n > 0 { let i = r.gen_range(0, n); vk2.Y_tilde[i] = &vk2.Y_tilde[i] + &g1(r); } }
        12 => { p2.g_tilde = g1(r); }
        _ => {}
    }
    let pf = PoKOfSignatureProof { sig: sigma, J: jv, proof_vc: zmix::signatures::ps::pok_sig::ProofOtherGroup { commitment: com, responses: rs } };
    let want = pok_oracle(&pf, &vk2, &p2, &rm, &ch2);
    let got = pf.verify(&vk2, &p2, rm.clone(), &ch2).unwrap_or(false);
    ensure!(got == want, "verify returned {} where the conditions give {} (mode {}, {} of {} revealed)", got, want, mode, rev.len(), n);
    // other shapes
    let mut rm2 = rm.clone(); rm2.insert(n + r.gen_range(0, 3), fe(r));
    ensure!(!nopanic("verify", || pf.verify(&vk2, &p2, rm2.clone(), &ch2).unwrap_or(false))?, "a revealed message at an index the key does not have was accepted");
    if let Some(i) = hid.first() { let mut rm3 = rm.clone(); rm3.insert(*i, ms[*i].clone()); ensure!(!nopanic("verify", || pf.verify(&vk2, &p2, rm3.clone(), &ch2).unwrap_or(false))?, "a proof with one response too many was accepted"); }
    if let Some(i) = rev.first() { let mut rm3 = rm.clone(); rm3.remove(i); ensure!(!nopanic("verify", || pf.verify(&vk2, &p2, rm3.clone(), &ch2).unwrap_or(false))?, "a proof with a missing response was accepted"); }
    Ok(())
}
fn json(r: &mut R, _c: u32) -> Out {
    let n = range(r, 0, 6); let p = params(r); let (vk, sk) = keys(r, n, &p)?; let ms = fes(r, n); let sg = sk_sig(r, &sk, &ms);
    let bk = BlindingKey::new(&sk, &p);
    fn rt<T: serde_like>(x: &T) -> Result<T, String> { x.rt() }
    let p2 = rt(&p)?; ensure!(p2.g == p.g && p2.g_tilde == p.g_tilde, "Params differ after JSON");
    let v2 = rt(&vk)?; ensure!(v2.X_tilde == vk.X_tilde && v2.Y_tilde == vk.Y_tilde, "Verkey differs after JSON");
    let s2 = rt(&sk)?; ensure!(feq(&s2.x, &sk.x) && s2.y.len() == n && (0..n).all(|i| feq(&s2.y[i], &sk.y[i])), "Sigkey differs after JSON");
    let g2 = rt(&sg)?; ensure!(g2.sigma_1 == sg.sigma_1 && g2.sigma_2 == sg.sigma_2, "Signature differs after JSON");
    let b2 = rt(&bk)?; ensure!(b2.X == bk.X && b2.Y == bk.Y, "BlindingKey differs after JSON");
    let mut b = sg.sigma_1.to_bytes(); b.extend(sg.sigma_2.to_bytes()); ensure!(sg.to_bytes() == b, "Signature::to_bytes is not sigma_1 then sigma_2");
    if let Ok(pok) = PoKOfSignature::init(&sg, &vk, &p, &ms, None, HashSet::new()) {
        let ch = fe(r);
        let pf = pok.gen_proof(&ch).map_err(|e| format!("{:?}", e))?;
        let q = rt(&pf)?; let k = pf.proof_vc.responses.len();
        ensure!(q.J == pf.J && q.sig.sigma_1 == pf.sig.sigma_1 && q.sig.sigma_2 == pf.sig.sigma_2 && q.proof_vc.commitment == pf.proof_vc.commitment && q.proof_vc.responses.len() == k && (0..k).all(|i| feq(&q.proof_vc.responses[i], &pf.proof_vc.responses[i])), "proof differs after JSON");
    }
    Ok(())
}
#[allow(non_camel_case_types)]
trait serde_like: Sized { fn rt(&self) -> Result<Self, String>; }
macro_rules! sl { ($($t:ty),*) => { $(impl serde_like for $t { fn rt(&self) -> Result<Self, String> { let j = serde_json::to_string(self).map_err(|e| e.to_string())?; serde_json::from_str(&j).map_err(|e| format!("{} from JSON: {}", stringify!($t), e)) } })* } }
sl!(Params, Verkey, Sigkey, Signature, BlindingKey, PoKOfSignatureProof);

pub fn all() -> Vec<Sc> {
    let s = |prop, name, quick, thorough, f| Sc { prop, name, quick, thorough, f };
    vec![
        s("P01", "sign_verify", 40, 600, sign_verify), s("P01", "verify_equation", 80, 1500, verify_equation), s("P01", "given_exponent", 20, 200, given_exp),
        s("P02", "blind_issuance", 40, 600, blind), s("P02", "blind_protocol", 20, 300, blind_protocol),
        s("P03", "honest_proof", 50, 800, pok_honest), s("P03", "adversarial_proof", 80, 1500, pok_adversary),
        s("P04", "json", 30, 300, json),
    ]
}
