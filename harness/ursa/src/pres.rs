//! C04, C05: presentations
use crate::iss::*;
use crate::keys::*;
use hcommon::*;
use rand::Rng;
use serde_json::{json, Value};
use ursa::bn::BigNumber;
use ursa::cl::prover::Prover;
use ursa::cl::verifier::Verifier;
use ursa::cl::*;

#[derive(Clone)]
pub struct Req { pub rev: Vec<String>, pub preds: Vec<(String, &'static str, i32)> }
pub fn subreq(q: &Req) -> SubProofRequest {
    let mut b = Verifier::new_sub_proof_request_builder().unwrap();
    for a in &q.rev { b.add_revealed_attr(a).unwrap(); }
    for (a, t, v) in &q.preds { b.add_predicate(a, t, *v).unwrap(); }
    b.finalize().unwrap()
}
pub struct Cred { pub is: Issu, pub c: Issued, pub q: Req }
/// an attribute value that fits a predicate
fn predval(r: &mut R) -> i32 { match r.gen_range(0, 6) { 0 => 0, 1 => 1, 2 => -(r.gen_range(0, 1000) as i32), 3 => i32::max_value(), 4 => i32::min_value(), _ => r.gen_range(0, 100000) } }
pub fn bi(v: i64) -> BigNumber { BigNumber::from_dec(&v.to_string()).unwrap() }
/// a predicate that the value satisfies (or not)
pub fn pred_for(r: &mut R, v: i32, sat: bool) -> Option<(&'static str, i32)> {
    let t = ["GE", "GT", "LE", "LT"][r.gen_range(0, 4)];
    let w: i64 = v as i64 + match (t, sat) {
        ("GE", true) => -(r.gen_range(0, 50) as i64), ("GE", false) => 1 + r.gen_range(0, 50) as i64,
        ("GT", true) => -1 - (r.gen_range(0, 50) as i64), ("GT", false) => r.gen_range(0, 50) as i64,
        ("LE", true) => r.gen_range(0, 50) as i64, ("LE", false) => -1 - (r.gen_range(0, 50) as i64),
        (_, true) => 1 + r.gen_range(0, 50) as i64, (_, false) => -(r.gen_range(0, 50) as i64),
    };
    let w = if r.gen_range(0, 8) == 0 && sat { match t { "GE" | "GT" => i32::min_value() as i64, _ => i32::max_value() as i64 } } else { w };
    let holds = match t { "GE" => v as i64 >= w, "GT" => v as i64 > w, "LE" => v as i64 <= w, _ => (v as i64) < w };
    if w < i32::min_value() as i64 || w > i32::max_value() as i64 || holds != sat { return None; }
    Some((t, w as i32))
}
/// a credential with `common` attribute values shared with the others and a satisfiable request
pub fn cred(r: &mut R, common: &[(String, BigNumber)], nonneg: bool) -> Result<Cred, String> {
    let attrs = names(r, 1, 4); let non: Vec<String> = common.iter().map(|x| x.0.clone()).collect();
    let is = issuer(r, &attrs, &non, false);
    let mut q = Req { rev: vec![], preds: vec![] };
    let mut v: Vals = vec![];
    for a in &attrs {
        match r.gen_range(0, 3) {
            0 => { let x = small(r); q.rev.push(a.clone()); v.push((a.clone(), 0, x, None)); }
            1 => {
                let mut x = predval(r); if nonneg && x < 0 { x = 7; }
                for _ in 0..r.gen_range(1, 3) { if let Some((t, w)) = pred_for(r, x, true) { q.preds.push((a.clone(), t, w)); } }
                v.push((a.clone(), r.gen_range(0, 2) as u8, bi(x as i64), None));
            }
            _ => v.push((a.clone(), r.gen_range(0, 2) as u8, small(r), None)),
        }
    }
    for (a, x) in common { v.push((a.clone(), 1, dup(x), None)); }
    let c = issue(r, &is, &v)?;
    Ok(Cred { is, c, q })
}
pub fn build(cs: &[Cred], common: &[String], nonce: &Nonce) -> Result<Proof, String> {
    let mut pb = Prover::new_proof_builder().unwrap();
    for a in common { pb.add_common_attribute(a).map_err(|e| format!("{:?}", e))?; }
    for c in cs { pb.add_sub_proof_request(&subreq(&c.q), &c.is.schema, &c.is.nonschema, &c.c.sig, &values(&c.c.vals), &c.is.pk, None, None).map_err(|e| format!("add_sub_proof_request: {}", e))?; }
    pb.finalize(nonce).map_err(|e| format!("finalize: {}", e))
}
pub fn verify(cs: &[Cred], common: &[String], p: &Proof, nonce: &Nonce) -> Result<bool, String> {
    let mut v = Verifier::new_proof_verifier().unwrap();
    for a in common { v.add_common_attribute(a).map_err(|e| format!("{:?}", e))?; }
    for c in cs { v.add_sub_proof_request(&subreq(&c.q), &c.is.schema, &c.is.nonschema, &c.is.pk, None, None).map_err(|e| format!("verifier add: {}", e))?; }
    v.verify(p, nonce).map_err(|e| format!("verify: {}", e))
}
fn setup(r: &mut R, k: usize) -> Result<(Vec<Cred>, Vec<String>), String> {
    let mut common = vec![("master_secret".to_string(), rb(r, 256))];
    if r.gen_range(0, 3) == 0 { common.push(("link".into(), rb(r, 200))); }
    let mut cs = vec![]; for _ in 0..k { cs.push(cred(r, &common, false)?); }
    Ok((cs, common.iter().map(|x| x.0.clone()).collect()))
}
fn present(r: &mut R, case: u32) -> Out {
    let (cs, common) = setup(r, 1 + (case % 3) as usize)?; let n = nonce(r);
    let p = build(&cs, &common, &n)?;
    match verify(&cs, &common, &p, &n) { Ok(true) => {}, x => return Err(format!("honest presentation not accepted ({:?}); requests {:?}", x, cs.iter().map(|c| (&c.q.rev, &c.q.preds)).collect::<Vec<_>>())) }
    // and once more after a round trip through its text form
    match verify(&cs, &common, &dup(&p), &n) { Ok(true) => Ok(()), x => Err(format!("honest presentation not accepted after a round trip ({:?})", x)) }
}
fn unsatisfied(r: &mut R, _: u32) -> Out {
    let common = vec![("master_secret".to_string(), rb(r, 256))];
    let mut c = cred(r, &common, false)?; let x = predval(r);
    let a = c.is.attrs[0].clone();
    let i = c.c.vals.iter().position(|v| v.0 == a).unwrap(); c.c.vals[i].2 = bi(x as i64);
    c.c = { let v = cp(&c.c.vals); issue(r, &c.is, &v)? };
    c.q.rev.retain(|y| *y != a); c.q.preds.retain(|y| y.0 != a);
    let (t, w) = match pred_for(r, x, false) { Some(y) => y, None => return Ok(()) };
    c.q.preds.push((a, t, w)); let n = nonce(r);
    ensure!(nopanic("build", || build(&[c], &["master_secret".into()], &n).is_err())?, "a predicate {} {} that {} does not satisfy was accepted by the builder", t, w, x);
    Ok(())
}
/// the verifier accepts `p` (a panic counts as a failure of its own)
fn accepts(cs: &[Cred], common: &[String], p: &Value, n: &Nonce) -> Result<bool, String> {
    let p: Proof = match tryun(p) { Some(p) => p, None => return Ok(false) };
    nopanic("verify", || verify(cs, common, &p, n) == Ok(true))
}
fn inc(v: &Value) -> Value { json!(d(&add(&bj(v), &num(1)))) }
fn key(r: &mut R, v: &Value) -> Option<String> { let k: Vec<String> = v.as_object()?.keys().cloned().collect(); if k.is_empty() { None } else { Some(k[r.gen_range(0, k.len())].clone()) } }
fn tamper(r: &mut R, case: u32) -> Out {
    let (mut cs, common) = setup(r, 1 + (case % 2) as usize)?; let mut n = nonce(r); let mut vcommon = common.clone();
    let p = js(&build(&cs, &common, &n)?);
    ensure!(accepts(&cs, &common, &p, &n)?, "honest presentation rejected");
    let mut x = p.clone(); let i = r.gen_range(0, cs.len()); let k = x["proofs"].as_array().unwrap().len();
    let what = {
        let e = &mut x["proofs"][i]["primary_proof"]["eq_proof"];
        match (case / 2) % 26 {
            0 => { n = add(&n, &num(1)); "nonce" }
            1 => match key(r, &e["revealed_attrs"]) { Some(a) => { e["revealed_attrs"][&a] = inc(&e["revealed_attrs"][&a]); "revealed value" } None => return Ok(()) },
            2 => { e["a_prime"] = json!(d(&mmul(&bj(&e["a_prime"]), &cs[i].is.s, &cs[i].is.n))); "a_prime" }
            3 => { e["e"] = inc(&e["e"]); "e" }
            4 => { e["v"] = inc(&e["v"]); "v" }
            5 => match key(r, &e["m"]) { Some(a) => { e["m"][&a] = inc(&e["m"][&a]); "m" } None => return Ok(()) },
            6 => { e["m2"] = inc(&e["m2"]); "m2" }
            7 => match key(r, &e["m"]) { Some(a) => { e["m"].as_object_mut().unwrap().remove(&a); "m removed" } None => return Ok(()) },
            8 => match key(r, &e["revealed_attrs"]) { Some(a) => { e["revealed_attrs"].as_object_mut().unwrap().remove(&a); "revealed removed" } None => return Ok(()) },
            9 => { e["revealed_attrs"]["other"] = json!("5"); "revealed added" }
            10 => { x["aggregated_proof"]["c_hash"] = inc(&x["aggregated_proof"]["c_hash"]); "c_hash" }
            11 => { x["aggregated_proof"]["c_list"].as_array_mut().unwrap().pop(); "c_list shortened" }
            12 => { let l = x["aggregated_proof"]["c_list"].as_array_mut().unwrap(); let y = l[0].clone(); l.push(y); "c_list extended" }
            13 => { let l = x["aggregated_proof"]["c_list"].as_array_mut().unwrap(); if l.len() < 2 { return Ok(()); } l.swap(0, 1); "c_list order" }
            14 => { x["proofs"].as_array_mut().unwrap().pop(); "sub proof removed" }
            15 => { let l = x["proofs"].as_array_mut().unwrap(); let y = l[0].clone(); l.push(y); "sub proof added" }
            16 => { if k < 2 { return Ok(()); } x["proofs"].as_array_mut().unwrap().swap(0, 1); "sub proof order" }
            17..=21 => {
                let g = x["proofs"][i]["primary_proof"]["ge_proofs"].as_array_mut().unwrap(); if g.is_empty() { return Ok(()); }
                let j = r.gen_range(0, g.len());
                match (case / 2) % 26 {
                    17 => { g.remove(j); "predicate proof removed" }
                    18 => { let q = r.gen_range(0, 4).to_string(); g[j]["u"][&q] = inc(&g[j]["u"][&q]); "u" }
                    19 => { let q = ["0", "1", "2", "3", "DELTA"][r.gen_range(0, 5)]; g[j]["r"][q] = inc(&g[j]["r"][q]); "r" }
                    20 => { g[j]["mj"] = inc(&g[j]["mj"]); "mj" }
                    _ => if r.gen() { g[j]["alpha"] = inc(&g[j]["alpha"]); "alpha" } else { let q = ["0", "1", "2", "3", "DELTA"][r.gen_range(0, 5)]; g[j]["t"][q] = json!(d(&mmul(&bj(&g[j]["t"][q]), &cs[i].is.s, &cs[i].is.n))); "t" },
                }
            }
            // requests that differ from what was presented
            22 => { let a = match cs[i].is.attrs.iter().find(|a| !cs[i].q.rev.contains(a) && cs[i].q.preds.iter().all(|p| p.0 != **a)) { Some(a) => a.clone(), None => return Ok(()) }; cs[i].q.rev.push(a); "request reveals more" }
            23 => { if cs[i].q.rev.is_empty() { return Ok(()); } cs[i].q.rev.pop(); "request reveals less" }
            24 => { if cs[i].q.preds.is_empty() { return Ok(()); } let p = &mut cs[i].q.preds[0]; if p.2 == 0 { return Ok(()); } p.2 -= p.2.signum(); "predicate bound" }
            _ => match r.gen_range(0, 3) {
                0 => { let p = cs[i].q.preds.pop(); if p.is_none() || cs[i].q.preds.contains(&p.clone().unwrap()) { return Ok(()); } "fewer predicates requested" }
                1 => { let a = cs[i].is.attrs.iter().find(|a| !cs[i].q.rev.contains(a)).cloned(); match a { Some(a) => cs[i].q.preds.push((a, "GE", -1234567)), None => return Ok(()) }; "more predicates requested" }
                _ => { if k < 2 { return Ok(()); } vcommon.push(cs[0].is.attrs[0].clone()); if !cs[1].is.attrs.contains(&cs[0].is.attrs[0]) || cs.iter().any(|c| c.q.rev.contains(&cs[0].is.attrs[0])) { return Ok(()); } "an attribute not shared is required to be" }
            },
        }
    };
    ensure!(!accepts(&cs, &vcommon, &x, &n)?, "presentation accepted although: {} changed", what);
    Ok(())
}
/// credentials over different shared values are not accepted as sharing
fn not_shared(r: &mut R, _: u32) -> Out {
    let (a, b2) = (rb(r, 256), rb(r, 256)); let n = nonce(r);
    let cs = vec![cred(r, &[("master_secret".into(), a)], false)?, cred(r, &[("master_secret".into(), b2)], false)?];
    let com = vec!["master_secret".to_string()];
    for c in [vec![], com.clone()].iter() {
        let p = match build(&cs, c, &n) { Ok(p) => js(&p), Err(_) => continue };
        ensure!(!accepts(&cs, &com, &p, &n)?, "two different link secrets accepted as one");
        ensure!(accepts(&cs, &[], &p, &n)?, "presentation without a shared attribute rejected");
    }
    // sub proofs of two separate presentations put together
    let p1 = js(&build(&cs[..1], &com, &n)?); let p2 = js(&build(&cs[1..], &com, &n)?);
    let mut x = p1.clone(); let y = p2["proofs"][0].clone(); x["proofs"].as_array_mut().unwrap().push(y);
    let l: Vec<Value> = p2["aggregated_proof"]["c_list"].as_array().unwrap().clone(); x["aggregated_proof"]["c_list"].as_array_mut().unwrap().extend(l);
    ensure!(!accepts(&cs, &com, &x, &n)?, "sub proofs of two presentations accepted as one");
    Ok(())
}

pub fn all() -> Vec<Sc> {
    let s = |prop, name, quick, thorough, f| Sc { prop, name, quick, thorough, f };
    vec![s("C04", "present", 24, 300, present as fn(&mut R, u32) -> Out), s("C04", "unsatisfied", 16, 160, unsatisfied),
        s("C05", "tamper", 104, 1040, tamper), s("C05", "not_shared", 4, 60, not_shared)]
}
