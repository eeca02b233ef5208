//! C06, C07: revocation registries, witnesses and non-revocation proofs
use crate::iss::*;
use crate::keys::*;
use crate::pres::*;
use hcommon::*;
use rand::Rng;
use serde_json::{json, Value};
use std::collections::{BTreeSet, HashSet};
use ursa::cl::issuer::Issuer;
use ursa::cl::prover::Prover;
use ursa::cl::verifier::Verifier;
use ursa::cl::*;
use ursa::pair::PointG2;

pub struct Reg { pub max: u32, pub dflt: bool, pub rk: RevocationKeyPublic, pub sk: RevocationKeyPrivate, pub reg: RevocationRegistry, pub tails: SimpleTailsAccessor, pub valid: BTreeSet<u32>, pub deltas: Vec<RevocationRegistryDelta>, pub first: RevocationRegistry }
fn tail(t: &SimpleTailsAccessor, i: u32) -> PointG2 { let mut x = None; t.access_tail(i, &mut |y| x = Some(*y)).unwrap(); x.unwrap() }
fn accum(v: &Value) -> PointG2 { un(&v["accum"]) }
fn sum(t: &SimpleTailsAccessor, idx: impl Iterator<Item = u32>) -> PointG2 { let mut x = PointG2::new_inf().unwrap(); for i in idx { x = x.add(&tail(t, i)).unwrap(); } x }
pub fn registry(pk: &CredentialPublicKey, max: u32, dflt: bool) -> Reg {
    let (rk, sk, reg, mut g) = Issuer::new_revocation_registry_def(pk, max, dflt).unwrap();
    let tails = SimpleTailsAccessor::new(&mut g).unwrap();
    let valid = if dflt { (1..=max).collect() } else { BTreeSet::new() };
    let first = reg.clone();
    Reg { max, dflt, rk, sk, reg, tails, valid, deltas: vec![], first }
}
impl Reg {
    fn check(&self) -> Out {
        let want = sum(&self.tails, self.valid.iter().map(|i| self.max + 1 - i));
        ensure!(accum(&js(&self.reg)) == want, "the accumulator is not the product of the tails of {:?}", self.valid); Ok(())
    }
    fn witness(&self, i: u32) -> PointG2 { sum(&self.tails, self.valid.iter().filter(|j| **j != i).map(|j| self.max + 1 - j + i)) }
    /// one random legal operation
    fn step(&mut self, r: &mut R) -> Out {
        let inv: Vec<u32> = (1..=self.max).filter(|i| !self.valid.contains(i)).collect(); let val: Vec<u32> = self.valid.iter().cloned().collect();
        let d = match r.gen_range(0, 4) {
            0 if !val.is_empty() => { let i = val[r.gen_range(0, val.len())]; self.valid.remove(&i); Issuer::revoke_credential(&mut self.reg, self.max, i, &self.tails) }
            1 if !inv.is_empty() => { let i = inv[r.gen_range(0, inv.len())]; self.valid.insert(i); Issuer::recovery_credential(&mut self.reg, self.max, i, &self.tails) }
            _ => {
                let is: BTreeSet<u32> = inv.into_iter().filter(|_| r.gen()).collect(); let rv: BTreeSet<u32> = val.into_iter().filter(|_| r.gen()).collect();
                for i in &is { self.valid.insert(*i); } for i in &rv { self.valid.remove(i); }
                Issuer::update_revocation_registry(&mut self.reg, self.max, is, rv, &self.tails)
            }
        }.map_err(|e| format!("registry operation: {}", e))?;
        self.deltas.push(d); self.check()
    }
}
fn merged(ds: &[RevocationRegistryDelta], r: &mut R) -> Result<Vec<RevocationRegistryDelta>, String> {
    let mut out: Vec<RevocationRegistryDelta> = vec![];
    for d in ds {
        let j = out.last().map(|_| r.gen::<bool>()).unwrap_or(false);
        if j { out.last_mut().unwrap().merge(d).map_err(|e| format!("merge: {}", e))?; } else { out.push(d.clone()); }
    }
    Ok(out)
}
fn sets(d: &RevocationRegistryDelta) -> (BTreeSet<u32>, BTreeSet<u32>) {
    let v = js(d); let g = |k: &str| -> BTreeSet<u32> { v[k].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as u32).collect()).unwrap_or_default() };
    (g("issued"), g("revoked"))
}
fn history(r: &mut R, case: u32) -> Out {
    let is = issuer(r, &["a".into()], &["master_secret".into()], true);
    let max = 1 + r.gen_range(0, 6); let mut g = registry(&is.pk, max, case % 2 == 0); g.check()?;
    let mut w: Vec<Option<(Witness, usize)>> = (0..=max).map(|_| None).collect();
    let mut states = vec![g.valid.clone()];
    for _ in 0..r.gen_range(1, 8) {
        g.step(r)?; states.push(g.valid.clone());
        for i in 1..=max { if w[i as usize].is_none() && r.gen_range(0, 3) == 0 {
            let all: Vec<RevocationRegistryDelta> = g.deltas.clone(); let mut d = all[0].clone(); for x in &all[1..] { d.merge(x).map_err(|e| format!("merge: {}", e))?; }
            let x = Witness::new(i, max, g.dflt, &d, &g.tails).map_err(|e| format!("Witness::new: {}", e))?;
            ensure!(un::<PointG2>(&js(&x)["omega"]) == g.witness(i), "Witness::new for {} of {:?} (default {})", i, g.valid, g.dflt);
            w[i as usize] = Some((x, g.deltas.len()));
        } }
    }
    // any merge of consecutive deltas describes the net change
    let k = r.gen_range(0, g.deltas.len()); let l = r.gen_range(k, g.deltas.len());
    let mut m = g.deltas[k].clone(); for x in &g.deltas[k + 1..=l] { m.merge(x).map_err(|e| format!("merge: {}", e))?; }
    let (a, b2) = (&states[k], &states[l + 1]); let (i2, r2) = sets(&m);
    ensure!(i2 == b2.difference(a).cloned().collect() && r2 == a.difference(b2).cloned().collect(), "merged delta says issued {:?} revoked {:?}; {:?} became {:?}", i2, r2, a, b2);
    ensure!(accum(&js(&m)) == sum(&g.tails, b2.iter().map(|i| max + 1 - i)), "accumulator of the merged delta");
    if g.deltas.len() > 1 && l + 1 < g.deltas.len() { let mut x = g.deltas[l + 1].clone(); let y = &g.deltas[0]; let same = states[0] == states[l + 2]; if !same { ensure!(x.merge(y).is_err(), "deltas that do not follow each other were merged"); } }
    // witnesses updated over any partition of the later deltas
    for i in 1..=max { if let Some((x, at)) = w[i as usize].as_mut() {
        for d in merged(&g.deltas[*at..], r)? { x.update(i, max, &d, &g.tails).map_err(|e| format!("Witness::update: {}", e))?; }
        ensure!(un::<PointG2>(&js(&x)["omega"]) == g.witness(i), "updated witness of {} in {:?}", i, g.valid);
    } }
    let d2 = RevocationRegistryDelta::from_parts(Some(&g.first), &g.reg, &g.valid.iter().cloned().collect::<HashSet<u32>>(), &HashSet::new());
    ensure!(accum(&js(&d2)) == accum(&js(&g.reg)) && sets(&d2).0 == g.valid, "from_parts");
    ensure!(accum(&js(&RevocationRegistry::from(d2))) == accum(&js(&g.reg)), "registry from delta");
    Ok(())
}
struct Fails(u32, SimpleTailsAccessor);
impl RevocationTailsAccessor for Fails {
    fn access_tail(&self, i: u32, f: &mut dyn FnMut(&Tail)) -> Result<(), ursa::errors::UrsaCryptoError> {
        if i == self.0 { return Err(ursa::errors::prelude::err_msg(ursa::errors::prelude::UrsaCryptoErrorKind::IOError, "no tail")); } self.1.access_tail(i, f)
    }
}
fn refusals(r: &mut R, case: u32) -> Out {
    let is = issuer(r, &["a".into()], &["master_secret".into()], true);
    let max = 1 + r.gen_range(0, 5); let mut g = registry(&is.pk, max, case % 2 == 0);
    for _ in 0..2 { g.step(r)?; }
    let before = js(&g.reg);
    for i in [0, max + 1, max + 2, u32::max_value()].iter() {
        ensure!(nopanic("revoke", || Issuer::revoke_credential(&mut g.reg, max, *i, &g.tails).is_err())?, "index {} of {} revoked", i, max);
        ensure!(nopanic("recover", || Issuer::recovery_credential(&mut g.reg, max, *i, &g.tails).is_err())?, "index {} of {} recovered", i, max);
        let s: BTreeSet<u32> = vec![1, *i].into_iter().collect();
        ensure!(nopanic("update", || Issuer::update_revocation_registry(&mut g.reg, max, s, BTreeSet::new(), &g.tails).is_err())?, "index {} of {} updated", i, max);
        ensure!(js(&g.reg) == before, "a refused operation changed the registry");
    }
    // a tail that cannot be read leaves the registry as it was
    let bad = Fails(max + 1 - r.gen_range(1, max + 1), g.tails.clone()); let all: BTreeSet<u32> = (1..=max).collect();
    ensure!(Issuer::update_revocation_registry(&mut g.reg, max, all, BTreeSet::new(), &bad).is_err(), "missing tail ignored");
    ensure!(js(&g.reg) == before, "a failed update changed the registry");
    Ok(())
}

/// a credential with a revocation part at index `idx`
pub fn issue_rev(r: &mut R, is: &Issu, v: &Vals, g: &mut Reg, idx: u32) -> Result<(CredentialSignature, Witness), String> {
    let vals = values(v); let (n1, n2) = (nonce(r), nonce(r));
    let (bl, fac, blp) = Prover::blind_credential_secrets(&is.pk, &is.kcp, &vals, &n1).map_err(|e| format!("blind: {}", e))?;
    let (mut sig, sp, d) = Issuer::sign_credential_with_revoc("did:x", &bl, &blp, &n1, &n2, &known_of(v), &is.pk, &is.sk, idx, g.max, g.dflt, &mut g.reg, &g.sk, &g.tails).map_err(|e| format!("sign: {}", e))?;
    ensure!(d.is_none() == g.dflt, "delta of an issuance");
    if let Some(d) = d { g.valid.insert(idx); g.deltas.push(d); }
    g.check()?;
    ensure!(sig.extract_index() == Some(idx), "index of the credential");
    let w: Witness = un(&json!({ "omega": js(&g.witness(idx)) }));
    Prover::process_credential_signature(&mut sig, &vals, &sp, &fac, &is.pk, &n2, Some(&g.rk), Some(&g.reg), Some(&w)).map_err(|e| format!("process: {}", e))?;
    Ok((sig, w))
}
struct RCred { is: Issu, v: Vals, q: Req, sig: CredentialSignature, w: Option<Witness>, g: Option<Reg>, idx: u32 }
fn rcred(r: &mut R, ms: &ursa::bn::BigNumber, revoc: bool) -> Result<RCred, String> {
    let attrs = names(r, 1, 3); let is = issuer(r, &attrs, &["master_secret".into()], revoc);
    let mut v: Vals = attrs.iter().map(|a| (a.clone(), 0, num(r.gen_range(0, 1000)), None)).collect();
    let mut q = Req { rev: vec![], preds: vec![] };
    for (i, a) in attrs.iter().enumerate() { match r.gen_range(0, 3) { 0 => q.rev.push(a.clone()), 1 => { let x: i64 = d(&v[i].2).parse().unwrap(); if let Some((t, w)) = pred_for(r, x as i32, true) { q.preds.push((a.clone(), t, w)); } } _ => {} } }
    v.push(("master_secret".into(), 1, dup(ms), None));
    if !revoc { let c = issue(r, &is, &v)?; return Ok(RCred { is, v, q, sig: c.sig, w: None, g: None, idx: 0 }); }
    let max = 1 + r.gen_range(0, 4); let mut g = registry(&is.pk, max, r.gen());
    if r.gen() { g.step(r)?; }
    let idx = 1 + r.gen_range(0, max);
    if !g.dflt && g.valid.contains(&idx) || g.dflt && !g.valid.contains(&idx) {
        let x = if g.valid.contains(&idx) { g.valid.remove(&idx); Issuer::revoke_credential(&mut g.reg, max, idx, &g.tails) } else { g.valid.insert(idx); Issuer::recovery_credential(&mut g.reg, max, idx, &g.tails) }.unwrap();
        g.deltas.push(x);
    }
    let (sig, mut w) = issue_rev(r, &is, &v, &mut g, idx)?;
    // the registry moves on; the holder follows
    let at = g.deltas.len(); for _ in 0..r.gen_range(0, 3) { g.step(r)?; }
    if !g.valid.contains(&idx) { g.valid.insert(idx); let x = Issuer::recovery_credential(&mut g.reg, max, idx, &g.tails).unwrap(); g.deltas.push(x); }
    for dl in merged(&g.deltas[at..], r)? { w.update(idx, max, &dl, &g.tails).unwrap(); }
    Ok(RCred { is, v, q, sig, w: Some(w), g: Some(g), idx })
}
fn rbuild(cs: &[RCred], n: &Nonce) -> Result<Proof, String> {
    let mut pb = Prover::new_proof_builder().unwrap(); pb.add_common_attribute("master_secret").unwrap();
    for c in cs { pb.add_sub_proof_request(&subreq(&c.q), &c.is.schema, &c.is.nonschema, &c.sig, &values(&c.v), &c.is.pk, c.g.as_ref().map(|g| &g.reg), c.w.as_ref()).map_err(|e| format!("add_sub_proof_request: {}", e))?; }
    pb.finalize(n).map_err(|e| format!("finalize: {}", e))
}
fn rverify(cs: &[RCred], p: &Proof, n: &Nonce) -> Result<bool, String> {
    let mut v = Verifier::new_proof_verifier().unwrap(); v.add_common_attribute("master_secret").unwrap();
    for c in cs { v.add_sub_proof_request(&subreq(&c.q), &c.is.schema, &c.is.nonschema, &c.is.pk, c.g.as_ref().map(|g| &g.rk), c.g.as_ref().map(|g| &g.reg)).map_err(|e| format!("verifier: {}", e))?; }
    v.verify(p, n).map_err(|e| format!("verify: {}", e))
}
fn rpresent(r: &mut R, case: u32) -> Out {
    let ms = rb(r, 256); let mut cs = vec![rcred(r, &ms, true)?];
    if case % 3 == 1 { cs.push(rcred(r, &ms, false)?); } if case % 3 == 2 { let at = r.gen_range(0, 2); let c = rcred(r, &ms, true)?; cs.insert(at, c); }
    let n = nonce(r); let p = rbuild(&cs, &n)?;
    for p in [&p, &dup(&p)].iter() { match rverify(&cs, p, &n) { Ok(true) => {}, x => return Err(format!("honest presentation not accepted: {:?}", x)) } }
    Ok(())
}
fn racc(cs: &[RCred], p: &Value, n: &Nonce) -> Result<bool, String> {
    let p: Proof = match tryun(p) { Some(p) => p, None => return Ok(false) };
    nopanic("verify", || rverify(cs, &p, n) == Ok(true))
}
fn rtamper(r: &mut R, case: u32) -> Out {
    let ms = rb(r, 256); let mut cs = vec![rcred(r, &ms, true)?]; let n = nonce(r);
    let p = js(&rbuild(&cs, &n)?); ensure!(racc(&cs, &p, &n)?, "honest presentation rejected");
    let mut x = p.clone();
    let what: String = match case % 8 {
        0 => { x["proofs"][0]["non_revoc_proof"] = Value::Null; "non revocation proof removed".into() }
        // the registry moves on after the presentation, or the holder is revoked
        1 => { let c = &mut cs[0]; let g = c.g.as_mut().unwrap(); g.valid.remove(&c.idx); Issuer::revoke_credential(&mut g.reg, g.max, c.idx, &g.tails).unwrap(); "credential revoked after presenting".into() }
        2 => { let c = &mut cs[0]; let g = c.g.as_mut().unwrap(); Issuer::revoke_credential(&mut g.reg, g.max, c.idx, &g.tails).unwrap(); match rbuild(&cs, &n) { Ok(p) => x = js(&p), Err(_) => return Ok(()) } "credential revoked, old witness".into() }
        3 => { let c = &cs[0]; let g2 = registry(&c.is.pk, 3, true); let g = cs[0].g.as_mut().unwrap(); g.rk = g2.rk; "another registry key".into() }
        k => {
            let f = &mut x["proofs"][0]["non_revoc_proof"][if k % 2 == 0 { "x_list" } else { "c_list" }];
            let ks: Vec<String> = f.as_object().unwrap().keys().cloned().collect(); let a = &ks[r.gen_range(0, ks.len())]; let b2 = &ks[r.gen_range(0, ks.len())];
            // the same kind of value from another place
            if f[a] == f[b2] || f[a].as_str().map(|s| s.len()) .unwrap_or(0) / 100 != f[b2].as_str().map(|s| s.len()).unwrap_or(0) / 100 { return Ok(()); }
            f[a] = f[b2].clone(); format!("{} := {}", a, b2)
        }
    };
    ensure!(!racc(&cs, &x, &n)?, "presentation accepted although: {}", what);
    Ok(())
}
/// what the published tails let a revoked holder do
fn tails(r: &mut R, case: u32) -> Out {
    let ms = rb(r, 256); let mut c = rcred(r, &ms, true)?;
    let idx = c.idx; let g = c.g.as_mut().unwrap();
    g.valid.remove(&idx); Issuer::revoke_credential(&mut g.reg, g.max, idx, &g.tails).unwrap();
    let g = c.g.as_ref().unwrap();
    let om = g.witness(idx);
    let forged = match case % 3 { 0 => om.sub(&tail(&g.tails, g.max + 1)).unwrap(), 1 => om, _ => { let w: PointG2 = un(&js(c.w.as_ref().unwrap())["omega"]); w } };
    c.w = Some(un(&json!({ "omega": js(&forged) })));
    let n = nonce(r);
    let p = match rbuild(std::slice::from_ref(&c), &n) { Ok(p) => js(&p), Err(_) => return Ok(()) };
    ensure!(!racc(&[c], &p, &n)?, "a revoked holder presented with a witness made of published tails ({})", case % 3);
    Ok(())
}
/// issuing at an index that is not valid in the registry is refused by the holder; a wrong witness too
fn holder(r: &mut R, case: u32) -> Out {
    let is = issuer(r, &["a".into()], &["master_secret".into()], true);
    let max = 2 + r.gen_range(0, 3); let mut g = registry(&is.pk, max, case % 2 == 0); let idx = 1 + r.gen_range(0, max);
    let v: Vals = vec![("a".into(), 0, num(5), None), ("master_secret".into(), 1, rb(r, 256), None)];
    let vals = values(&v); let (n1, n2) = (nonce(r), nonce(r));
    let (bl, fac, blp) = Prover::blind_credential_secrets(&is.pk, &is.kcp, &vals, &n1).unwrap();
    let bad = [0, max + 1, u32::max_value()][r.gen_range(0, 3)]; let before = js(&g.reg);
    ensure!(nopanic("sign", || Issuer::sign_credential_with_revoc("did", &bl, &blp, &n1, &n2, &known_of(&v), &is.pk, &is.sk, bad, max, g.dflt, &mut g.reg, &g.sk, &g.tails).is_err())?, "index {} of {} issued", bad, max);
    ensure!(js(&g.reg) == before, "a refused issuance changed the registry");
    let (sig, sp, _) = Issuer::sign_credential_with_revoc("did", &bl, &blp, &n1, &n2, &known_of(&v), &is.pk, &is.sk, idx, max, g.dflt, &mut g.reg, &g.sk, &g.tails).map_err(|e| format!("{}", e))?;
    g.valid.insert(idx);
    let mut s = js(&sig); let mut om = g.witness(idx); let f = s["r_credential"].clone();
    match case % 5 {
        0 => om = om.add(&tail(&g.tails, 1)).unwrap(),
        1 => s["r_credential"]["g_i"] = f["sigma"].clone(),
        2 => s["r_credential"]["c"] = f["m2"].clone(),
        3 => s["r_credential"]["m2"] = f["c"].clone(),
        _ => s["r_credential"]["witness_signature"]["sigma_i"] = f["witness_signature"]["u_i"].clone(),
    }
    let w: Witness = un(&json!({ "omega": js(&om) }));
    let mut sig: CredentialSignature = un(&s);
    ensure!(Prover::process_credential_signature(&mut sig, &vals, &sp, &fac, &is.pk, &n2, Some(&g.rk), Some(&g.reg), Some(&w)).is_err(), "holder accepted a wrong revocation part ({})", case % 5);
    Ok(())
}
/// known finding: the revocation part of one credential is accepted with the primary part of another one
fn mixed(r: &mut R, case: u32) -> Out {
    if case > 0 { return Ok(()); }
    let ms = rb(r, 256); let is = issuer(r, &["a".into()], &["master_secret".into()], true);
    let mut g = registry(&is.pk, 3, false);
    let v1: Vals = vec![("a".into(), 0, num(1), None), ("master_secret".into(), 1, dup(&ms), None)];
    let v2: Vals = vec![("a".into(), 0, num(2), None), ("master_secret".into(), 1, dup(&ms), None)];
    let (s1, _) = issue_rev(r, &is, &v1, &mut g, 1)?; let (s2, _) = issue_rev(r, &is, &v2, &mut g, 2)?;
    Issuer::revoke_credential(&mut g.reg, 3, 1, &g.tails).unwrap(); g.valid.remove(&1);
    let mut s = js(&s1); s["r_credential"] = js(&s2)["r_credential"].clone();
    let w: Witness = un(&json!({ "omega": js(&g.witness(2)) }));
    let c = RCred { is, v: v1, q: Req { rev: vec!["a".into()], preds: vec![] }, sig: un(&s), w: Some(w), g: Some(g), idx: 2 };
    let n = nonce(r); let p = match rbuild(std::slice::from_ref(&c), &n) { Ok(p) => p, Err(_) => return Ok(()) };
    if racc(&[c], &js(&p), &n)? { known("cl-revocation-part-of-another-credential", "the primary part of a revoked credential with the non revocation part of another credential of the same holder is accepted: the proofs share no response for m2"); }
    Ok(())
}

pub fn all() -> Vec<Sc> {
    let s = |prop, name, quick, thorough, f| Sc { prop, name, quick, thorough, f };
    vec![s("C06", "history", 24, 300, history as fn(&mut R, u32) -> Out), s("C06", "refusals", 8, 60, refusals), s("C06", "tails", 9, 60, tails),
        s("C07", "rpresent", 12, 150, rpresent), s("C07", "rtamper", 48, 480, rtamper), s("C07", "holder", 24, 200, holder), s("C07", "tails", 6, 60, tails), s("C07", "mixed", 1, 1, mixed)]
}
