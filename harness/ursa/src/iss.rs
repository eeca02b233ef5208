//! C01..C03: keys, blind issuance, acceptance by the holder
use crate::keys::*;
use hcommon::*;
use rand::Rng;
use serde_json::{json, Value};
use ursa::bn::BigNumber;
use ursa::cl::issuer::Issuer;
use ursa::cl::prover::Prover;
use ursa::cl::*;

/// key generation and its proof
fn keydef(r: &mut R, case: u32) -> Out {
    let attrs = names(r, 1 + (case % 2) as usize, 4);
    let non = if case % 2 == 0 { vec!["master_secret".to_string()] } else { vec!["master_secret".into(), "extra".into()] };
    let (pk, sk, kcp) = Issuer::new_credential_def(&schema(&attrs), &nonschema(&non), case % 2 == 0).map_err(|e| format!("new_credential_def: {:?}", e))?;
    let (pj, kj, cj) = (js(&pk), js(&sk), js(&kcp));
    ensure!(kcp_ok(&pj["p_key"], &cj), "honest key correctness proof rejected for {:?}", attrs);
    let rs = pj["p_key"]["r"].as_object().unwrap();
    let mut want: Vec<String> = attrs.iter().chain(&non).cloned().collect(); want.sort(); want.dedup();
    let mut have: Vec<String> = rs.keys().cloned().collect(); have.sort();
    ensure!(have == want, "attribute bases {:?} for attributes {:?}", have, want);
    let mut caps: Vec<String> = cj["xr_cap"].as_array().unwrap().iter().map(|x| x[0].as_str().unwrap().to_string()).collect(); caps.sort();
    ensure!(caps == want, "key correctness proof covers {:?}", caps);
    ensure!(pj["r_key"].is_null() == (case % 2 == 1) && kj["r_key"].is_null() == (case % 2 == 1), "revocation key presence");
    // n = (2p+1)(2q+1); every base is a power of s (generates the same group): order divides p q
    let (p, q, n) = (bj(&kj["p_key"]["p"]), bj(&kj["p_key"]["q"]), bj(&pj["p_key"]["n"]));
    ensure!(mul(&add(&mul(&p, &num(2)), &num(1)), &add(&mul(&q, &num(2)), &num(1))) == n, "n is not the product of the safe primes");
    let pq = mul(&p, &q); let one = num(1);
    ensure!(p != q, "p = q");
    let mut els = vec![bj(&pj["p_key"]["z"]), bj(&pj["p_key"]["s"]), bj(&pj["p_key"]["rctxt"])]; for v in rs.values() { els.push(bj(v)); }
    for e in &els { ensure!(pw(e, &pq, &n) == one, "a base is not a quadratic residue"); ensure!(*e != one, "a base is trivial"); }
    // issuance works with it
    let mut v: Vals = attrs.iter().map(|a| (a.clone(), 0, small(r), None)).collect();
    for a in &non { v.push((a.clone(), 1, rb(r, 256), None)); }
    let is = Issu { attrs: attrs.clone(), non: non.clone(), schema: schema(&attrs), nonschema: nonschema(&non), n, s: bj(&pj["p_key"]["s"]), z: bj(&pj["p_key"]["z"]), rctxt: bj(&pj["p_key"]["rctxt"]), r: rs.iter().map(|(a, x)| (a.clone(), bj(x))).collect(), pk: un(&pj), sk: un(&kj), kcp };
    issue(r, &is, &v).map(|_| ())
}

/// the prover's check of the key correctness proof, reached through blinding
fn kcp_ok(pk: &Value, k: &Value) -> bool {
    let full = json!({"p_key": pk, "r_key": null});
    let (p, k) = match (tryun::<CredentialPublicKey>(&full), tryun::<CredentialKeyCorrectnessProof>(k)) { (Some(p), Some(k)) => (p, k), _ => return false };
    let v: Vals = pk["r"].as_object().unwrap().keys().map(|a| (a.clone(), if a == "master_secret" { 1 } else { 0 }, num(5), None)).collect();
    Prover::blind_credential_secrets(&p, &k, &values(&v), &num(77)).is_ok()
}

fn kcp_tamper(r: &mut R, case: u32) -> Out {
    let attrs = names(r, 1, 4); let non = vec!["master_secret".to_string()];
    let is = issuer(r, &attrs, &non, false);
    let pk = js(&is.pk)["p_key"].clone(); let kcp = js(&is.kcp);
    let chk = kcp_ok;
    ensure!(chk(&pk, &kcp), "honest key correctness proof rejected");
    let (mut pk2, mut k2) = (pk.clone(), kcp.clone());
    let m = k2["xr_cap"].as_array().unwrap().len(); let i = r.gen_range(0, m);
    let inc = |v: &Value| json!(d(&add(&bj(v), &num(1))));
    let what = match case % 11 {
        0 => { k2["c"] = inc(&k2["c"]); "c" }
        1 => { k2["xz_cap"] = inc(&k2["xz_cap"]); "xz_cap" }
        2 => { k2["xr_cap"][i][1] = inc(&k2["xr_cap"][i][1]); "xr_cap" }
        3 => { let j = k2["xr_cap"].as_array().unwrap().iter().position(|x| x[0] != "master_secret").unwrap(); k2["xr_cap"].as_array_mut().unwrap().remove(j); "xr_cap removed" }
        4 => { k2["xr_cap"].as_array_mut().unwrap().push(json!(["nothere", "5"])); "xr_cap extra" }
        5 => { pk2["z"] = json!(d(&mmul(&bj(&pk["z"]), &num(4), &is.n))); "z" }
        6 => { let a = is.attrs[0].clone(); pk2["r"][&a] = json!(d(&mmul(&bj(&pk["r"][&a]), &num(4), &is.n))); "r" }
        7 => { pk2["s"] = json!(d(&mmul(&bj(&pk["s"]), &num(4), &is.n))); "s" }
        8 => { pk2["r"]["another"] = json!(d(&num(4))); "unproved base" }
        9 => { k2["xr_cap"].as_array_mut().unwrap().swap(0, m - 1); "order" }
        // a proof over the z part only, with a recomputed challenge
        _ => {
            pk2["r"][&is.attrs[0]] = json!(d(&num(4)));
            let t = rb(r, 2000); let c = hash(&[by(&is.z), by(&pw(&is.s, &t, &is.n))]);
            k2 = json!({"c": d(&c), "xz_cap": kcp["xz_cap"], "xr_cap": []}); "no responses"
        }
    };
    ensure!(!chk(&pk2, &k2), "key correctness proof accepted after change of {}", what);
    Ok(())
}

pub struct Issued { pub sig: CredentialSignature, pub vals: Vals }
pub struct Run { pub bl: BlindedCredentialSecrets, pub fac: CredentialSecretsBlindingFactors, pub blp: BlindedCredentialSecretsCorrectnessProof, pub n1: Nonce, pub n2: Nonce, pub sig: CredentialSignature, pub sp: SignatureCorrectnessProof, pub known: CredentialValues, pub vals: CredentialValues }
pub fn known_of(v: &Vals) -> CredentialValues { values(&v.iter().filter(|x| x.1 == 0).map(cv).collect()) }
pub fn run(r: &mut R, is: &Issu, v: &Vals) -> Result<Run, String> {
    let vals = values(v); let known = known_of(v);
    let (n1, n2) = (nonce(r), nonce(r));
    let (bl, fac, blp) = Prover::blind_credential_secrets(&is.pk, &is.kcp, &vals, &n1).map_err(|e| format!("blind_credential_secrets: {:?}", e))?;
    let (sig, sp) = Issuer::sign_credential("did:prover", &bl, &blp, &n1, &n2, if r.gen() { &vals } else { &known }, &is.pk, &is.sk).map_err(|e| format!("sign_credential: {:?}", e))?;
    Ok(Run { bl, fac, blp, n1, n2, sig, sp, known, vals })
}
/// the key equation  z = a^e s^v rctxt^m2 prod r_i^m_i  (mod n)
pub fn keyeq(is: &Issu, sig: &Value, v: &Vals) -> bool {
    let p = &sig["p_credential"]; let n = &is.n;
    let mut x = pw(&bj(&p["a"]), &bj(&p["e"]), n);
    x = mmul(&x, &pw(&is.s, &bj(&p["v"]), n), n);
    x = mmul(&x, &pw(&is.rctxt, &bj(&p["m_2"]), n), n);
    for (a, k, m, _) in v { if *k != 2 { x = mmul(&x, &pw(&is.r[a], m, n), n); } }
    x == is.z
}
pub fn issue(r: &mut R, is: &Issu, v: &Vals) -> Result<Issued, String> {
    let mut c = run(r, is, v)?;
    Prover::process_credential_signature(&mut c.sig, &c.vals, &c.sp, &c.fac, &is.pk, &c.n2, None, None, None).map_err(|e| format!("process_credential_signature: {:?}", e))?;
    let j = js(&c.sig);
    ensure!(keyeq(is, &j, v), "the credential does not satisfy the key equation for {:?}", v.iter().map(|x| (&x.0, x.1)).collect::<Vec<_>>());
    let e = bj(&j["p_credential"]["e"]); let lo = pw2(596);
    ensure!(e >= lo && e <= add(&lo, &pw2(119)) && e.is_prime(None).unwrap(), "exponent outside the specified range");
    Ok(Issued { sig: c.sig, vals: cp(v) })
}
pub fn pw2(k: u32) -> BigNumber { num(2).exp(&num(k as u64), None).unwrap() }

pub fn rnd_vals(r: &mut R, is: &Issu, commits: bool) -> Vals {
    let mut v: Vals = is.attrs.iter().map(|a| {
        let k = if commits { r.gen_range(0, 3) } else { 0 };
        (a.clone(), k as u8, small(r), if k == 2 { Some(rb(r, 500)) } else { None })
    }).collect();
    for a in &is.non { v.push((a.clone(), 1, rb(r, 256), None)); }
    v
}
fn setup(r: &mut R) -> (Issu, Vals) {
    let attrs = names(r, 1, 5); let non = vec!["master_secret".to_string()];
    let is = issuer(r, &attrs, &non, false); let v = rnd_vals(r, &is, true); (is, v)
}
fn issuance(r: &mut R, _: u32) -> Out { let (is, v) = setup(r); issue(r, &is, &v).map(|_| ()) }

/// altered proofs of the blinded secrets are refused by the issuer
fn issuer_tamper(r: &mut R, case: u32) -> Out {
    let (is, mut v) = setup(r);
    if v.iter().all(|x| x.1 != 2) { if let Some(x) = v.iter_mut().find(|x| x.0 != "master_secret") { x.1 = 2; x.3 = Some(rb(r, 300)); } }
    let c = run(r, &is, &v)?;
    let (mut bl, mut blp, mut n1) = (js(&c.bl), js(&c.blp), dup(&c.n1));
    let inc = |v: &Value| json!(d(&add(&bj(v), &num(1))));
    let key = |v: &Value| v.as_object().unwrap().keys().next().cloned();
    let what = match case % 14 {
        0 => { n1 = add(&n1, &num(1)); "nonce" }
        1 => { blp["c"] = inc(&blp["c"]); "c" }
        2 => { blp["v_dash_cap"] = inc(&blp["v_dash_cap"]); "v_dash_cap" }
        3 => { let k = key(&blp["m_caps"]).unwrap(); blp["m_caps"][&k] = inc(&blp["m_caps"][&k]); "m_caps" }
        4 => { let k = key(&blp["m_caps"]).unwrap(); blp["m_caps"].as_object_mut().unwrap().remove(&k); "m_caps removed" }
        5 => { let k = match key(&blp["r_caps"]) { Some(k) => k, None => return Ok(()) }; blp["r_caps"][&k] = inc(&blp["r_caps"][&k]); "r_caps" }
        6 => { let k = match key(&blp["r_caps"]) { Some(k) => k, None => return Ok(()) }; blp["r_caps"].as_object_mut().unwrap().remove(&k); "r_caps removed" }
        7 => { bl["u"] = json!(d(&mmul(&bj(&bl["u"]), &is.s, &is.n))); "u" }
        8 => { let a = bl["hidden_attributes"].as_array_mut().unwrap(); if a.is_empty() { return Ok(()); } a.pop(); "hidden attribute removed" }
        9 => { match v.iter().find(|x| x.1 == 0) { Some(x) => { bl["hidden_attributes"].as_array_mut().unwrap().push(json!(x.0)); } None => return Ok(()) } "hidden attribute added" }
        10 => { let k = match key(&bl["committed_attributes"]) { Some(k) => k, None => return Ok(()) }; bl["committed_attributes"][&k] = json!(d(&mmul(&bj(&bl["committed_attributes"][&k]), &is.s, &is.n))); "commitment" }
        11 => { let k = match key(&bl["committed_attributes"]) { Some(k) => k, None => return Ok(()) }; bl["committed_attributes"].as_object_mut().unwrap().remove(&k); bl["hidden_attributes"].as_array_mut().unwrap().retain(|x| x != &json!(k)); "committed attribute withdrawn" }
        12 => { // a known attribute blinded as well: u carries an extra r_a^x
            let mut v2 = cp(&v); match v2.iter_mut().find(|x| x.1 == 0) { Some(x) => { x.1 = 1; x.2 = add(&x.2, &num(7)); } None => return Ok(()) }
            let (b2, _, p2) = Prover::blind_credential_secrets(&is.pk, &is.kcp, &values(&v2), &n1).map_err(|e| format!("blind: {:?}", e))?;
            bl = js(&b2); blp = js(&p2); "known attribute blinded as well" }
        _ => { bl["u"] = json!(d(&num(1))); "u = 1" }
    };
    let (b2, p2) = match (tryun::<BlindedCredentialSecrets>(&bl), tryun::<BlindedCredentialSecretsCorrectnessProof>(&blp)) { (Some(x), Some(y)) => (x, y), _ => return Ok(()) };
    let x = nopanic("sign_credential", || Issuer::sign_credential("did", &b2, &p2, &n1, &c.n2, &c.known, &is.pk, &is.sk).is_ok())?;
    ensure!(!x, "issuer signed after change of {}", what);
    Ok(())
}

/// altered signatures are refused by the holder
fn holder_tamper(r: &mut R, case: u32) -> Out {
    let (is, v) = setup(r); let c = run(r, &is, &v)?;
    let (mut s, mut sp, mut n2, mut v2, mut fac) = (js(&c.sig), js(&c.sp), dup(&c.n2), cp(&v), js(&c.fac));
    let inc = |v: &Value| json!(d(&add(&bj(v), &num(1))));
    let p = |v: &Value, k: &str| bj(&v["p_credential"][k]);
    let what = match case % 11 {
        0 => { s["p_credential"]["a"] = json!(d(&mmul(&p(&s, "a"), &is.s, &is.n))); "a" }
        1 => { s["p_credential"]["e"] = inc(&s["p_credential"]["e"]); "e" }
        2 => { s["p_credential"]["v"] = inc(&s["p_credential"]["v"]); "v" }
        3 => { s["p_credential"]["m_2"] = inc(&s["p_credential"]["m_2"]); "m_2" }
        4 => { sp["se"] = inc(&sp["se"]); "se" }
        5 => { sp["c"] = inc(&sp["c"]); "c" }
        6 => { n2 = add(&n2, &num(1)); "nonce" }
        7 => { let i = loop { let i = r.gen_range(0, v2.len()); if v2[i].1 != 2 { break i; } }; v2[i].2 = add(&v2[i].2, &num(1)); "value" }
        8 => { v2.pop(); "missing value" }
        9 => { fac["v_prime"] = inc(&fac["v_prime"]); "blinding factor" }
        // the same group element with a composite exponent: a' = a^(1/3), e' = 3 e
        _ => {
            let f = fixture(); let pq = mul(&bj(&f["priv"]["p_key"]["p"]), &bj(&f["priv"]["p_key"]["q"]));
            let i3 = num(3).inverse(&pq, None).unwrap();
            let (a, e) = (pw(&p(&s, "a"), &i3, &is.n), mul(&p(&s, "e"), &num(3)));
            let q = pw(&a, &e, &is.n); let de = e.inverse(&pq, None).unwrap();
            let (c2, se) = sigproof(r, &is, &q, &a, &de, &n2, &pq);
            s["p_credential"]["a"] = json!(d(&a)); s["p_credential"]["e"] = json!(d(&e)); sp = json!({"se": d(&se), "c": d(&c2)}); "composite exponent" }
    };
    let mut sig: CredentialSignature = un(&s); let sp: SignatureCorrectnessProof = un(&sp); let fac: CredentialSecretsBlindingFactors = un(&fac);
    let x = nopanic("process_credential_signature", || Prover::process_credential_signature(&mut sig, &values(&v2), &sp, &fac, &is.pk, &n2, None, None, None).is_ok())?;
    ensure!(!x, "holder accepted after change of {}", what);
    Ok(())
}
/// signature correctness proof made with the private key: returns (c, se)
fn sigproof(r: &mut R, is: &Issu, q: &BigNumber, a: &BigNumber, dinv: &BigNumber, n2: &BigNumber, pq: &BigNumber) -> (BigNumber, BigNumber) {
    let t = rb(r, 2000); let ac = pw(q, &t, &is.n);
    let c = hash(&[by(q), by(a), by(&ac), by(n2)]);
    (dup(&c), sub(&t, &mul(&c, dinv)).modulus(pq, None).unwrap())
}

pub fn all() -> Vec<Sc> {
    let s = |prop, name, quick, thorough, f| Sc { prop, name, quick, thorough, f };
    vec![s("C01", "keydef", 6, 40, keydef as fn(&mut R, u32) -> Out), s("C01", "kcp_tamper", 33, 330, kcp_tamper),
        s("C02", "issuance", 24, 300, issuance), s("C02", "issuer_tamper", 42, 420, issuer_tamper),
        s("C03", "issuance", 16, 200, issuance), s("C03", "holder_tamper", 48, 480, holder_tamper)]
}
