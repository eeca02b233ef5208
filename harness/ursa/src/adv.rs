//! C05: a presentation prover of its own that deviates from the protocol where a cheating holder would.
use crate::iss::*;
use crate::keys::*;
use crate::pres::*;
use hcommon::*;
use rand::Rng;
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use ursa::bn::BigNumber;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Dev { Honest, Predicate, NoSignature, Revealed, HashOmitsCList, CListSwapped, MissingResponse, PredicateClaim, HashOmitsPredicates, AlphaFree }

fn fsq(d: u64) -> [u64; 4] {
    let s = |x: u64| { let mut r = (x as f64).sqrt() as u64; while r * r > x { r -= 1; } r };
    let mut a = s(d);
    loop { let mut b2 = s(d - a * a); loop { let rem = d - a * a - b2 * b2; let mut c = s(rem); loop { let e = s(rem - c * c); if e * e == rem - c * c { return [a, b2, c, e]; } if c == 0 { break; } c -= 1; } if b2 == 0 { break; } b2 -= 1; } if a == 0 { return [0; 4]; } a -= 1; }
}
/// z-style product of powers
fn prod(n: &BigNumber, xs: &[(&BigNumber, &BigNumber)]) -> BigNumber { let mut x = num(1); for (b, e) in xs { x = mmul(&x, &pw(b, e, n), n); } x }

fn prove(r: &mut R, c: &Cred, dev: Dev, nonce: &BigNumber) -> Option<Value> {
    let is = &c.is; let n = &is.n;
    let vals: BTreeMap<String, BigNumber> = c.c.vals.iter().map(|v| (v.0.clone(), dup(&v.2))).collect();
    let two596 = pw2(596);
    let sj = js(&c.c.sig)["p_credential"].clone();
    let (m2, mut a, mut e, mut v) = (bj(&sj["m_2"]), bj(&sj["a"]), bj(&sj["e"]), bj(&sj["v"]));
    if dev == Dev::NoSignature {
        // z = a^1 s^v rctxt^m2 prod r^m  for an `a` computed from the public key alone
        v = rb(r, 2000); e = num(1);
        let mut x = prod(n, &[(&is.s, &v), (&is.rctxt, &m2)]); for (k, m) in &vals { x = mmul(&x, &pw(&is.r[k], m, n), n); }
        a = mmul(&is.z, &x.inverse(n, None).unwrap(), n);
    }
    let rr = rb(r, 2128); let ap = mmul(&a, &pw(&is.s, &rr, n), n);
    let (vp, ep) = (sub(&v, &mul(&e, &rr)), sub(&e, &two596));
    let (et, vt, m2t) = (rb(r, 456), rb(r, 3060), rb(r, 593));
    let hidden: Vec<String> = vals.keys().filter(|k| !c.q.rev.contains(k)).cloned().collect();
    let mt: BTreeMap<String, BigNumber> = hidden.iter().map(|k| (k.clone(), rb(r, 593))).collect();
    let mut t = prod(n, &[(&ap, &et), (&is.s, &vt), (&is.rctxt, &m2t)]); for (k, x) in &mt { t = mmul(&t, &pw(&is.r[k], x, n), n); }
    let mut taus = vec![by(&t)]; let mut cl: Vec<Vec<u8>> = vec![by(&ap)];
    struct Ne { u: Vec<BigNumber>, r: Vec<BigNumber>, ut: Vec<BigNumber>, rt: Vec<BigNumber>, mjt: BigNumber, mv: BigNumber, at: BigNumber, t: Vec<BigNumber>, alpha: BigNumber, p: (String, &'static str, i32) }
    let mut nes: Vec<Ne> = vec![]; let mut netaus = vec![];
    let mut preds: Vec<(String, &'static str, i32)> = c.q.preds.clone(); preds.sort_by_key(|p| (p.0.clone(), ["GE", "LE", "GT", "LT"].iter().position(|x| *x == p.1), p.2)); preds.dedup();
    for p in &preds {
        let mut q = p.clone();
        let mut x = dec(&vals[&p.0]);
        if dev == Dev::Predicate { x = p.2 as i64 + match p.1 { "GE" => 3, "GT" => 4, "LE" => -3, _ => -4 }; }
        if dev == Dev::PredicateClaim { q.2 = match p.1 { "GE" | "GT" => i32::min_value() + 1, _ => i32::max_value() - 1 }; }
        let less = q.1 == "LE" || q.1 == "LT";
        let dl = match q.1 { "GE" => x - q.2 as i64, "GT" => x - q.2 as i64 - 1, "LE" => q.2 as i64 - x, _ => q.2 as i64 - x - 1 };
        if dl < 0 || dl > 1 << 30 { return None; }
        let us = fsq(dl as u64);
        let u: Vec<BigNumber> = us.iter().map(|y| num(*y)).collect(); let rv: Vec<BigNumber> = (0..5).map(|_| rb(r, 2128)).collect();
        let mut tt: Vec<BigNumber> = (0..4).map(|i| prod(n, &[(&is.z, &u[i]), (&is.s, &rv[i])])).collect();
        tt.push(prod(n, &[(&is.z, &num(dl as u64)), (&is.s, &rv[4])]));
        let ut: Vec<BigNumber> = (0..4).map(|_| rb(r, 592)).collect(); let rt: Vec<BigNumber> = (0..5).map(|_| rb(r, 672)).collect();
        let at = rb(r, 2787);
        let mjt = if dev == Dev::Predicate { rb(r, 593) } else { dup(&mt[&p.0]) };
        let neg = |x: &BigNumber| if less { sub(&num(0), x) } else { dup(x) };
        for i in 0..4 { netaus.push(by(&prod(n, &[(&is.z, &ut[i]), (&is.s, &rt[i])]))); }
        netaus.push(by(&prod(n, &[(&is.z, &mjt), (&is.s, &neg(&rt[4]))])));
        let mut qv = pw(&is.s, &at, n); for i in 0..4 { qv = mmul(&qv, &pw(&tt[i], &ut[i], n), n); } netaus.push(by(&qv));
        for x in &tt { cl.push(by(x)); }
        let mut ur = num(0); for i in 0..4 { ur = add(&ur, &mul(&u[i], &rv[i])); }
        let alpha = sub(&rv[4], &ur);
        nes.push(Ne { u, r: rv, ut, rt, mjt, mv: BigNumber::from_dec(&x.to_string()).unwrap(), at, t: tt, alpha, p: q });
    }
    if dev == Dev::HashOmitsPredicates { cl.truncate(1); } else { taus.extend(netaus); }
    if dev == Dev::CListSwapped { cl = cl.iter().map(|_| vec![1u8]).collect(); }
    let mut h = taus; if dev != Dev::HashOmitsCList { h.extend(cl.clone()); } else { cl.clear(); } h.push(by(nonce));
    let ch = hash(&h);
    let resp = |t: &BigNumber, x: &BigNumber| d(&add(t, &mul(&ch, x)));
    let m: Map<String, Value> = mt.iter().map(|(k, x)| (k.clone(), json!(resp(x, &vals[k])))).filter(|x| dev != Dev::MissingResponse || x.0 == "master_secret").collect();
    let rev: Map<String, Value> = c.q.rev.iter().map(|k| (k.clone(), json!(d(&if dev == Dev::Revealed { add(&vals[k], &num(1)) } else { dup(&vals[k]) })))).collect();
    let eq = json!({"revealed_attrs": rev, "a_prime": d(&ap), "e": resp(&et, &ep), "v": resp(&vt, &vp), "m": m, "m2": resp(&m2t, &m2)});
    let ge: Vec<Value> = nes.iter().map(|g| {
        let mut u = Map::new(); let mut rm = Map::new(); let mut t = Map::new();
        for i in 0..4 { u.insert(i.to_string(), json!(resp(&g.ut[i], &g.u[i]))); rm.insert(i.to_string(), json!(resp(&g.rt[i], &g.r[i]))); t.insert(i.to_string(), json!(d(&g.t[i]))); }
        rm.insert("DELTA".into(), json!(resp(&g.rt[4], &g.r[4]))); t.insert("DELTA".into(), json!(d(&g.t[4])));
        let al = if dev == Dev::AlphaFree { d(&g.at) } else { resp(&g.at, &g.alpha) };
        json!({"u": u, "r": rm, "mj": resp(&g.mjt, &g.mv), "alpha": al, "t": t, "predicate": {"attr_name": g.p.0, "p_type": g.p.1, "value": g.p.2}})
    }).collect();
    Some(json!({"proofs": [{"primary_proof": {"eq_proof": eq, "ge_proofs": ge}, "non_revoc_proof": null}], "aggregated_proof": {"c_hash": d(&ch), "c_list": cl}}))
}
fn dec(x: &BigNumber) -> i64 { d(x).parse().unwrap_or(0) }

fn cheat(r: &mut R, case: u32) -> Out {
    use Dev::*;
    const ALL: [Dev; 10] = [Honest, Predicate, NoSignature, Revealed, HashOmitsCList, CListSwapped, MissingResponse, PredicateClaim, HashOmitsPredicates, AlphaFree];
    let dev = ALL[(case % 10) as usize];
    let common = vec![("master_secret".to_string(), rb(r, 256))];
    let mut c = cred(r, &common, false)?;
    // small values and bounds keep the harness's own four-square search quick
    for v in c.c.vals.iter_mut() { if v.0 != "master_secret" { v.2 = num(r.gen_range(0, 1000)); } }
    c.c = { let v = cp(&c.c.vals); issue(r, &c.is, &v)? };
    let attrs = c.is.attrs.clone(); c.q.preds.clear(); c.q.rev.retain(|_| true);
    for a in attrs.iter().filter(|a| !c.q.rev.contains(a)).cloned().collect::<Vec<_>>() {
        let x = dec(&c.c.vals.iter().find(|v| v.0 == a).unwrap().2) as i32;
        for _ in 0..r.gen_range(0, 3) {
            let sat = dev != Predicate && dev != PredicateClaim;
            if let Some((t, w)) = pred_for(r, x, sat) { if (w as i64).abs() < 100000 { c.q.preds.push((a.clone(), t, w)); } }
        }
    }
    if c.q.preds.is_empty() && [Predicate, PredicateClaim, HashOmitsPredicates, AlphaFree].contains(&dev) { return Ok(()); }
    if c.q.rev.is_empty() && dev == Revealed { return Ok(()); }
    if dev == MissingResponse && c.q.rev.len() == attrs.len() { return Ok(()); }
    let n = nonce(r);
    let p = match prove(r, &c, dev, &n) { Some(p) => p, None => return Ok(()) };
    let com = vec!["master_secret".to_string()];
    let pr: ursa::cl::Proof = match tryun(&p) { Some(p) => p, None => return Err("the harness's own proof does not parse".into()) };
    let ok = nopanic("verify", || verify(&[c], &com, &pr, &n) == Ok(true))?;
    ensure!(ok == (dev == Honest), "a presentation by a cheating prover ({:?}) was {}", dev, if ok { "accepted" } else { "rejected" });
    Ok(())
}
pub fn all() -> Vec<Sc> { vec![Sc { prop: "C05", name: "cheat", quick: 60, thorough: 600, f: cheat }] }
