//! F01 The C interface does what the library does.
use hcommon::*;
use rand::Rng;
use std::ffi::{CStr, CString};
use std::os::raw::{c_char, c_void};
use std::ptr::null;
use ursa::bls::*;
use ursa::cl::{issuer::Issuer, RevocationRegistryDelta, RevocationTailsGenerator};
use ursa::ffi::{bls::*, cl::issuer::*, cl::verifier::*, cl::*, ErrorCode};
use ursa::pair::{GroupOrderElement, PointG2};

type P = *const c_void;
fn e<X: std::fmt::Debug>(x: X) -> String { format!("{:?}", x) }
fn good(c: ErrorCode) -> bool { c as i64 == 0 }
macro_rules! out { ($f:ident ( $($a:expr),* )) => {{ let mut p: P = null(); let c = $f($($a,)* &mut p); ensure!(good(c) && !p.is_null(), "{} fails", stringify!($f)); p }} }
fn read(x: P, f: extern "C" fn(P, *mut *const u8, *mut usize) -> ErrorCode) -> Result<Vec<u8>, String> {
    let mut b: *const u8 = null(); let mut n = 0usize; ensure!(good(f(x, &mut b, &mut n)), "as_bytes fails");
    ensure!(!b.is_null() && n < 10_000, "as_bytes gives {} bytes", n); Ok(unsafe { std::slice::from_raw_parts(b, n) }.to_vec())
}
fn bls(r: &mut R, _: u32) -> Out {
    let g = out!(ursa_bls_generator_new()); let gb = read(g, ursa_bls_generator_as_bytes)?; let gen = Generator::from_bytes(&gb).map_err(e)?;
    let n = r.gen_range(1, 6); let ml = r.gen_range(1, 100); let m: Vec<u8> = (0..ml).map(|_| r.gen()).collect(); let mut m2 = m.clone(); let i = r.gen_range(0, ml); m2[i] ^= 1 << r.gen_range(0, 8);
    let (mut sks, mut vks, mut sigs, mut cs) = (vec![], vec![], vec![], vec![]);
    for i in 0..n {
        let seed: Vec<u8> = (0..32).map(|_| r.gen()).collect();
        let sk = out!(ursa_bls_sign_key_new(if i == 0 { null() } else { seed.as_ptr() }, seed.len())); let kb = read(sk, ursa_bls_sign_key_as_bytes)?;
        if i > 0 { ensure!(kb == SignKey::new(Some(&seed)).map_err(e)?.as_bytes(), "a seeded key differs from the library's"); }
        let key = SignKey::from_bytes(&kb).map_err(e)?; let vk = out!(ursa_bls_ver_key_new(g, sk)); let s = out!(ursa_bls_sign(m.as_ptr(), m.len(), sk));
        ensure!(read(vk, ursa_bls_ver_key_as_bytes)? == VerKey::new(&gen, &key).map_err(e)?.as_bytes(), "verification key differs from the library's");
        let sb = read(s, ursa_bls_signature_as_bytes)?; ensure!(sb == Bls::sign(&m, &key).map_err(e)?.as_bytes(), "signature differs from the library's");
        let pop = out!(ursa_bls_pop_new(vk, sk)); let mut ok = false; ensure!(good(ursa_bls_verify_pop(pop, vk, g, &mut ok)) && ok, "proof of possession refused");
        let again = out!(ursa_bls_pop_from_bytes(read(pop, ursa_bls_pop_as_bytes)?.as_ptr(), read(pop, ursa_bls_pop_as_bytes)?.len()));
        ensure!(read(again, ursa_bls_pop_as_bytes)? == read(pop, ursa_bls_pop_as_bytes)?, "proof of possession bytes do not round trip");
        ensure!(good(ursa_bls_verify(s, m.as_ptr(), m.len(), vk, g, &mut ok)) && ok, "honest signature refused");
        ensure!(good(ursa_bls_verify(s, m2.as_ptr(), m2.len(), vk, g, &mut ok)) && !ok, "signature of another message accepted");
        if i > 0 { ensure!(good(ursa_bls_verify(s, m.as_ptr(), m.len(), vks[0], g, &mut ok)) && !ok, "signature of another key accepted"); ensure!(good(ursa_bls_verify_pop(pop, vks[0], g, &mut ok)) && !ok, "proof of possession of another key accepted"); }
        sks.push(sk); vks.push(vk); sigs.push(s); cs.push(Signature::from_bytes(&sb).map_err(e)?);
        ensure!(good(ursa_bls_pop_free(pop)) && good(ursa_bls_pop_free(again)), "free fails");
    }
    let ms = out!(ursa_bls_multi_signature_new(sigs.as_ptr(), n)); let mut ok = false;
    ensure!(read(ms, ursa_bls_multi_signature_as_bytes)? == MultiSignature::new(&cs.iter().collect::<Vec<_>>()).map_err(e)?.as_bytes(), "multi-signature of {} differs from the library's", n);
    ensure!(good(ursa_bls_verify_multi_sig(ms, m.as_ptr(), m.len(), vks.as_ptr(), n, g, &mut ok)) && ok, "multi-signature of {} refused", n);
    ensure!(good(ursa_bls_verify_multi_sig(ms, m2.as_ptr(), m2.len(), vks.as_ptr(), n, g, &mut ok)) && !ok, "multi-signature of another message accepted");
    if n > 1 { ensure!(good(ursa_bls_verify_multi_sig(ms, m.as_ptr(), m.len(), vks.as_ptr(), n - 1, g, &mut ok)) && !ok, "multi-signature accepted for fewer keys"); }
    let mut x: P = null(); ensure!(!good(ursa_bls_sign(null(), 3, sks[0], &mut x)) && !good(ursa_bls_sign(m.as_ptr(), 0, sks[0], &mut x)) && !good(ursa_bls_sign(m.as_ptr(), ml, null(), &mut x)) && x.is_null(), "ursa_bls_sign takes null arguments");
    ensure!(!good(ursa_bls_verify_pop(null(), vks[0], g, &mut ok)) && !good(ursa_bls_ver_key_new(null(), sks[0], &mut x)) && !good(ursa_bls_generator_new(std::ptr::null_mut())), "null arguments are taken");
    for i in 0..n { ensure!(good(ursa_bls_sign_key_free(sks[i])) && good(ursa_bls_ver_key_free(vks[i])) && good(ursa_bls_signature_free(sigs[i])), "free fails"); }
    ensure!(good(ursa_bls_multi_signature_free(ms)) && good(ursa_bls_generator_free(g)) && !good(ursa_bls_generator_free(null())), "free fails"); Ok(())
}
fn value(x: P, f: extern "C" fn(P, *mut *const c_char) -> ErrorCode) -> Result<serde_json::Value, String> {
    let mut s: *const c_char = null(); ensure!(good(f(x, &mut s)) && !s.is_null(), "to_json fails");
    let v: serde_json::Value = serde_json::from_slice(unsafe { CString::from_raw(s as *mut c_char) }.to_bytes()).map_err(e)?; Ok(sorted(v))
}
fn sorted(mut v: serde_json::Value) -> serde_json::Value {
    if let Some(o) = v.as_object_mut() { for x in o.values_mut() { if let Some(a) = x.as_array_mut() { a.sort_by_key(|y| y.as_u64()); } } } v
}
fn deltas(r: &mut R, _: u32) -> Out {
    let pts: Vec<PointG2> = (0..3).map(|_| PointG2::new()).collect::<Result<_, _>>().map_err(e)?; let set = |r: &mut R, lo: u32| -> Vec<u32> { (lo..lo + 20).filter(|_| r.gen_range(0, 3) == 0).collect() };
    let (i1, r1, i2, r2) = (set(r, 1), set(r, 21), set(r, 21), set(r, 1)); let broken = r.gen_range(0, 4) == 0;
    let j1 = serde_json::json!({"prevAccum": pts[0], "accum": pts[1], "issued": i1, "revoked": r1}).to_string();
    let j2 = serde_json::json!({"prevAccum": if broken { &pts[0] } else { &pts[1] }, "accum": pts[2], "issued": i2, "revoked": r2}).to_string();
    let mut d1: RevocationRegistryDelta = serde_json::from_str(&j1).map_err(e)?; let d2: RevocationRegistryDelta = serde_json::from_str(&j2).map_err(e)?;
    let (c1, c2) = (CString::new(j1).map_err(e)?, CString::new(j2).map_err(e)?); let (mut x1, mut x2): (P, P) = (null(), null());
    ensure!(good(ursa_cl_revocation_registry_delta_from_json(c1.as_ptr(), &mut x1)) && good(ursa_cl_revocation_registry_delta_from_json(c2.as_ptr(), &mut x2)), "the JSON of a registry delta is refused");
    ensure!(value(x1, ursa_cl_revocation_registry_delta_to_json)? == sorted(serde_json::to_value(&d1).map_err(e)?), "the JSON of a registry delta does not round trip");
    let mut m: P = null(); let c = good(ursa_cl_issuer_merge_revocation_registry_deltas(x1, x2, &mut m));
    let w = d1.merge(&d2); ensure!(c == w.is_ok() && c == !broken, "deltas merge: {}, in the library: {}", c, w.is_ok());
    if c {
        let want = sorted(serde_json::to_value(&d1).map_err(e)?); ensure!(value(x1, ursa_cl_revocation_registry_delta_to_json)? == want, "the merged delta differs from the library's");
        // the object given out lies in fresh memory of the size of a delta: a smaller one would be read beyond its end
        ensure!(!m.is_null() && m as usize > 4096, "the merge gives out no delta"); ensure!(value(m, ursa_cl_revocation_registry_delta_to_json)? == want, "the delta given out is not the merged one");
        ensure!(good(ursa_cl_revocation_registry_delta_free(m)), "free fails");
    } else { ensure!(m.is_null(), "a result is written when the merge fails"); }
    ensure!(good(ursa_cl_revocation_registry_delta_free(x1)) && good(ursa_cl_revocation_registry_delta_free(x2)), "free fails"); Ok(())
}
fn tails(r: &mut R, _: u32) -> Out {
    let size: u32 = r.gen_range(1, 9); let j = serde_json::json!({"size": size, "current_index": 0, "g_dash": PointG2::new().map_err(e)?, "gamma": GroupOrderElement::new().map_err(e)?}).to_string();
    let mut w: RevocationTailsGenerator = serde_json::from_str(&j).map_err(e)?; let c = CString::new(j).map_err(e)?; let mut g: P = null(); ensure!(good(ursa_cl_revocation_tails_generator_from_json(c.as_ptr(), &mut g)), "the JSON of a tails generator is refused");
    let mut t: P = null(); let mut n = 0; ensure!(good(ursa_cl_tails_generator_count(g, &mut n)) && n == size, "{} tails counted of {}", n, size);
    for _ in 0..size { ensure!(good(ursa_cl_tails_generator_next(g, &mut t)) && !t.is_null(), "a tail is missing"); let x = w.try_next().map_err(e)?; ensure!(Some(unsafe { &*(t as *const PointG2) }) == x.as_ref(), "another tail than the library's"); ensure!(good(ursa_cl_tail_free(t)), "free"); }
    ensure!(good(ursa_cl_tails_generator_next(g, &mut t)) && t.is_null(), "an exhausted generator of {} gives another tail", size); ensure!(good(ursa_cl_revocation_tails_generator_free(g)), "free"); Ok(())
}
fn builders(r: &mut R, _: u32) -> Out {
    let b = out!(ursa_cl_credential_schema_builder_new()); let mut sb = Issuer::new_credential_schema_builder().map_err(e)?;
    for i in 0..r.gen_range(1, 6) { let a = format!("attr{}", i); let c = CString::new(a.clone()).map_err(e)?; ensure!(good(ursa_cl_credential_schema_builder_add_attr(b, c.as_ptr())), "add_attr"); sb.add_attr(&a).map_err(e)?; }
    let empty = CString::new("").map_err(e)?; ensure!(!good(ursa_cl_credential_schema_builder_add_attr(b, empty.as_ptr())) && !good(ursa_cl_credential_schema_builder_add_attr(b, null())) && !good(ursa_cl_credential_schema_builder_add_attr(null(), empty.as_ptr())), "an empty name is taken");
    let s = out!(ursa_cl_credential_schema_builder_finalize(b)); let want = sb.finalize().map_err(e)?;
    ensure!(e(unsafe { &*(s as *const ursa::cl::CredentialSchema) }) == e(&want), "schema differs from the library's"); ensure!(good(ursa_cl_credential_schema_free(s)), "free");
    let b = out!(ursa_cl_credential_values_builder_new()); let mut vb = Issuer::new_credential_values_builder().map_err(e)?;
    for i in 0..r.gen_range(1, 7) {
        let (n, v, bl) = (format!("a{}", i), format!("{}", r.gen_range(0u64, 1 << 60)), format!("{}", r.gen_range(0u64, 1 << 60))); let (cn, cv, cb) = (CString::new(n.clone()).map_err(e)?, CString::new(v.clone()).map_err(e)?, CString::new(bl.clone()).map_err(e)?);
        let (c, x) = match r.gen_range(0, 3) {
            0 => (ursa_cl_credential_values_builder_add_dec_known(b, cn.as_ptr(), cv.as_ptr()), vb.add_dec_known(&n, &v)),
            1 => (ursa_cl_credential_values_builder_add_dec_hidden(b, cn.as_ptr(), cv.as_ptr()), vb.add_dec_hidden(&n, &v)),
            _ => (ursa_cl_credential_values_builder_add_dec_commitment(b, cn.as_ptr(), cv.as_ptr(), cb.as_ptr()), vb.add_dec_commitment(&n, &v, &bl)) };
        x.map_err(e)?; ensure!(good(c), "a value is refused");
    }
    let v = out!(ursa_cl_credential_values_builder_finalize(b)); let want = vb.finalize().map_err(e)?;
    ensure!(e(unsafe { &*(v as *const ursa::cl::CredentialValues) }) == e(&want), "credential values differ from the library's"); ensure!(good(ursa_cl_credential_values_free(v)), "free");
    let b = out!(ursa_cl_sub_proof_request_builder_new()); let mut rb = ursa::cl::verifier::Verifier::new_sub_proof_request_builder().map_err(e)?;
    for i in 0..r.gen_range(1, 5) {
        let n = format!("a{}", i); let cn = CString::new(n.clone()).map_err(e)?; let t = ["GE", "LE", "GT", "LT"][r.gen_range(0, 4)]; let ct = CString::new(t).map_err(e)?; let v: i32 = r.gen();
        if r.gen() { rb.add_revealed_attr(&n).map_err(e)?; ensure!(good(ursa_cl_sub_proof_request_builder_add_revealed_attr(b, cn.as_ptr())), "revealed attribute refused"); }
        else { rb.add_predicate(&n, t, v).map_err(e)?; ensure!(good(ursa_cl_sub_proof_request_builder_add_predicate(b, cn.as_ptr(), ct.as_ptr(), v)), "predicate refused"); }
    }
    let q = out!(ursa_cl_sub_proof_request_builder_finalize(b)); let want = rb.finalize().map_err(e)?;
    ensure!(e(unsafe { &*(q as *const ursa::cl::SubProofRequest) }) == e(&want), "sub proof request differs from the library's"); ensure!(good(ursa_cl_sub_proof_request_free(q)), "free");
    let n = out!(ursa_cl_new_nonce()); let mut s: *const c_char = null(); ensure!(good(ursa_cl_nonce_to_json(n, &mut s)), "nonce_to_json"); let mut n2: P = null(); ensure!(good(ursa_cl_nonce_from_json(s, &mut n2)), "nonce_from_json");
    let mut s2: *const c_char = null(); ensure!(good(ursa_cl_nonce_to_json(n2, &mut s2)) && unsafe { CStr::from_ptr(s) == CStr::from_ptr(s2) }, "the JSON of a nonce does not round trip");
    unsafe { drop(CString::from_raw(s as *mut c_char)); drop(CString::from_raw(s2 as *mut c_char)); } ensure!(good(ursa_cl_nonce_free(n)) && good(ursa_cl_nonce_free(n2)), "free"); Ok(())
}
pub fn all() -> Vec<Sc> {
    let s = |n, q, t, f| Sc { prop: "F01", name: n, quick: q, thorough: t, f };
    vec![s("bls", 6, 200, bls as fn(&mut R, u32) -> Out), s("deltas", 10, 400, deltas), s("tails", 10, 300, tails), s("builders", 20, 600, builders)]
}
