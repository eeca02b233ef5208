//! Issuer keys over fixed safe primes for arbitrary schemas (key generation proper is exercised by C01).
use hcommon::R;
use rand::{Rng, RngCore};
use serde_json::{json, Value};
use ursa::bn::BigNumber;
use ursa::cl::issuer::Issuer;
use ursa::cl::*;

pub fn b(x: &str) -> BigNumber { BigNumber::from_dec(x).unwrap() }
pub fn bj(v: &Value) -> BigNumber { b(v.as_str().unwrap()) }
pub fn d(x: &BigNumber) -> String { x.to_dec().unwrap() }
pub fn num(n: u64) -> BigNumber { b(&n.to_string()) }
pub fn add(x: &BigNumber, y: &BigNumber) -> BigNumber { x.add(y).unwrap() }
pub fn sub(x: &BigNumber, y: &BigNumber) -> BigNumber { x.sub(y).unwrap() }
pub fn mul(x: &BigNumber, y: &BigNumber) -> BigNumber { x.mul(y, None).unwrap() }
pub fn mmul(x: &BigNumber, y: &BigNumber, n: &BigNumber) -> BigNumber { x.mod_mul(y, n, None).unwrap() }
/// x^e mod n for an exponent of either sign
pub fn pw(x: &BigNumber, e: &BigNumber, n: &BigNumber) -> BigNumber {
    if e.is_negative() { let i = x.inverse(n, None).unwrap(); i.mod_exp(&sub(&num(0), e), n, None).unwrap() } else { x.mod_exp(e, n, None).unwrap() }
}
pub fn rb(r: &mut R, bits: usize) -> BigNumber {
    let mut v = vec![0u8; (bits + 7) / 8]; r.fill_bytes(&mut v);
    if bits % 8 != 0 { v[0] &= (1 << (bits % 8)) - 1; }
    BigNumber::from_bytes(&v).unwrap()
}
pub fn hash(parts: &[Vec<u8>]) -> BigNumber { BigNumber::from_bytes(&BigNumber::hash(&parts.concat()).unwrap()).unwrap() }
pub fn by(x: &BigNumber) -> Vec<u8> { x.to_bytes().unwrap() }
pub fn js<T: serde::Serialize>(x: &T) -> Value { serde_json::to_value(x).unwrap() }
pub fn un<T: serde::de::DeserializeOwned>(v: &Value) -> T { serde_json::from_value(v.clone()).unwrap() }
pub fn tryun<T: serde::de::DeserializeOwned>(v: &Value) -> Option<T> { serde_json::from_value(v.clone()).ok() }
pub fn dup<T: serde::Serialize + serde::de::DeserializeOwned>(x: &T) -> T { un(&js(x)) }

pub fn gen() {
    let s = schema(&["x".to_string()]);
    let mut nb = Issuer::new_non_credential_schema_builder().unwrap(); nb.add_attr("master_secret").unwrap();
    let n = nb.finalize().unwrap();
    let (p, k, c) = Issuer::new_credential_def(&s, &n, true).unwrap();
    println!("{}", json!({"pub": js(&p), "priv": js(&k), "proof": js(&c)}));
}
pub fn fixture() -> Value { serde_json::from_str(include_str!("../fixture.json")).unwrap() }

pub struct Issu {
    pub attrs: Vec<String>, pub non: Vec<String>,
    pub schema: CredentialSchema, pub nonschema: NonCredentialSchema,
    pub pk: CredentialPublicKey, pub sk: CredentialPrivateKey, pub kcp: CredentialKeyCorrectnessProof,
    pub n: BigNumber, pub s: BigNumber, pub z: BigNumber, pub rctxt: BigNumber, pub r: std::collections::BTreeMap<String, BigNumber>,
}
pub fn schema(a: &[String]) -> CredentialSchema {
    let mut b = Issuer::new_credential_schema_builder().unwrap(); for x in a { b.add_attr(x).unwrap(); } b.finalize().unwrap()
}
pub fn nonschema(a: &[String]) -> NonCredentialSchema {
    let mut b = Issuer::new_non_credential_schema_builder().unwrap(); for x in a { b.add_attr(x).unwrap(); } b.finalize().unwrap()
}
/// an issuer for the given attributes, over fixture primes
pub fn issuer(r: &mut R, attrs: &[String], non: &[String], revoc: bool) -> Issu {
    let f = fixture();
    let (p, q) = (bj(&f["priv"]["p_key"]["p"]), bj(&f["priv"]["p_key"]["q"]));
    let n = bj(&f["pub"]["p_key"]["n"]);
    let pq = mul(&p, &q);
    let x = rb(r, 2000); let s = mmul(&x, &x, &n);
    let rnd = |r: &mut R| add(&num(2), &rb(r, 2100).modulus(&sub(&pq, &num(3)), None).unwrap());
    let mut all: Vec<String> = attrs.to_vec(); all.extend(non.iter().cloned()); all.sort(); all.dedup();
    let xz = rnd(r); let z = pw(&s, &xz, &n); let rctxt = pw(&s, &rnd(r), &n);
    let xs: Vec<(String, BigNumber)> = all.iter().map(|a| (a.clone(), rnd(r))).collect();
    let rs: std::collections::BTreeMap<String, BigNumber> = xs.iter().map(|(a, x)| (a.clone(), pw(&s, x, &n))).collect();
    // key correctness proof
    let tz = rnd(r); let ts: Vec<BigNumber> = xs.iter().map(|_| rnd(r)).collect();
    let mut parts = vec![by(&z)];
    for (a, _) in &xs { parts.push(by(&rs[a])); }
    parts.push(by(&pw(&s, &tz, &n)));
    for t in &ts { parts.push(by(&pw(&s, t, &n))); }
    let c = hash(&parts);
    let kcp = json!({"c": d(&c), "xz_cap": d(&add(&mul(&c, &xz), &tz)),
        "xr_cap": xs.iter().zip(&ts).map(|((a, x), t)| json!([a, d(&add(&mul(&c, x), t))])).collect::<Vec<_>>()});
    let rj: serde_json::Map<String, Value> = rs.iter().map(|(a, v)| (a.clone(), json!(d(v)))).collect();
    let mut pk = json!({"p_key": {"n": d(&n), "s": d(&s), "r": rj, "rctxt": d(&rctxt), "z": d(&z)}, "r_key": null});
    let mut sk = json!({"p_key": {"p": d(&p), "q": d(&q)}, "r_key": null});
    if revoc { pk["r_key"] = f["pub"]["r_key"].clone(); sk["r_key"] = f["priv"]["r_key"].clone(); }
    Issu { attrs: attrs.to_vec(), non: non.to_vec(), schema: schema(attrs), nonschema: nonschema(non), pk: un(&pk), sk: un(&sk), kcp: un(&kcp), n, s, z, rctxt, r: rs }
}

/// attribute values as the harness sees them: (name, kind 0 known / 1 hidden / 2 commitment, value)
pub type Vals = Vec<(String, u8, BigNumber, Option<BigNumber>)>;
pub fn cv(x: &(String, u8, BigNumber, Option<BigNumber>)) -> (String, u8, BigNumber, Option<BigNumber>) { (x.0.clone(), x.1, dup(&x.2), x.3.as_ref().map(dup)) }
pub fn cp(v: &Vals) -> Vals { v.iter().map(cv).collect() }
pub fn values(v: &Vals) -> CredentialValues {
    let mut b = Issuer::new_credential_values_builder().unwrap();
    for (a, k, x, f) in v {
        match k { 0 => b.add_value_known(a, x).unwrap(), 1 => b.add_value_hidden(a, x).unwrap(), _ => b.add_value_commitment(a, x, f.as_ref().unwrap()).unwrap() }
    }
    b.finalize().unwrap()
}
pub fn names(r: &mut R, lo: usize, hi: usize) -> Vec<String> {
    const POOL: [&str; 10] = ["name", "age", "height", "sex", "a", "B b", "zip", "status", "p", "x1"];
    let k = r.gen_range(lo, hi + 1); let mut v: Vec<String> = vec![];
    while v.len() < k { let x = POOL[r.gen_range(0, POOL.len())].to_string(); if !v.contains(&x) { v.push(x); } }
    v
}
pub fn small(r: &mut R) -> BigNumber {
    match r.gen_range(0, 6) { 0 => num(0), 1 => num(1), 2 => num(r.gen_range(0, 100)), 3 => num(r.gen::<u32>() as u64 / 2), 4 => rb(r, 255), _ => num(r.gen_range(0, 100000)) }
}
pub fn nonce(r: &mut R) -> Nonce { rb(r, 80) }
