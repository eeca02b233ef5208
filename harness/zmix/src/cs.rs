//! E01: Camenisch-Shoup verifiable encryption. Key pairs are made from fixed safe primes, plus one freshly generated.
use crate::*;
use zmix::verifiable_encryption::bn::BigNumber;
use zmix::verifiable_encryption::cs_verifiable_encryption::*;
const P: [&str; 3] = ["E9255A978C64B0A0F1C9CDD4EF262A06EBC00CC578931297676E86AEF4BFD63017B2B8007C12CBB8E8F3A3D9FDF21044FE837C86F1F8A3DBD705CF7108D4297170A521751713F00998A5FD3C4A5947D0693D1DB6D99A93D03DA795718FEF428034868247DA8701754C6C69C2378BE185E70A072C5736DAF0D19C3DC263691ABB", "F2A4AD097FBDD05449CB6F760F6F22F1B2360534CB5435C36C84F60A0A8B3878C983181C8C48EC8C57DA87CC9228CE91A54FF08A1D24B6A7C3CD0B18F1197763A950E8E2899CAAB194712F9FEA29BBC17BF19EB2E5C70A0D15E2CD140F42E35E16B12FDA022636E8CA7E6BD334715B26D7F56AC8DB090B8C7DF3987ADAEEA803", "DCD5830F8BE51D27ED4C1FD648081D3264930C49FC473424290DB892A1A6B23978E2B2796A6E483BE6355FF3FFC6C8A9D148D66F34E7B84CC57911847270FF56947EF96881B07E0A285D75E6A6DF532C73F5498221B83B0D6A105786C59522A2867A01B5691DB67718D8AD54081670D090DCF86F172DBA4857CC83FA85BDB2D3"];
fn b<T, E: std::fmt::Debug>(what: &str, r: Result<T, E>) -> Result<T, String> { r.map_err(|e| format!("{}: {:?}", what, e)) }
fn num(x: u32) -> BigNumber { BigNumber::from_u32(x as usize).unwrap() }
fn mexp(x: &BigNumber, e: &BigNumber, n: &BigNumber) -> BigNumber { x.mod_exp(e, n, None).unwrap() }
fn bytes(r: &mut R, n: usize) -> Vec<u8> { let mut v = vec![0u8; n]; r.fill_bytes(&mut v); v }
fn below(r: &mut R, n: &BigNumber) -> BigNumber { BigNumber::from_bytes(&bytes(r, 600)).unwrap().modulus(n, None).unwrap() }
fn label(r: &mut R) -> Vec<u8> { match r.gen_range(0, 6) { 0 => vec![], 1 => bytes(r, 1), 2 => { let n = r.gen_range(400, 2500); bytes(r, n) } _ => { let n = r.gen_range(1, 60); bytes(r, n) } } }
fn key(r: &mut R, count: usize) -> CSKeypair {
    let mut ctx = BigNumber::new_context().unwrap();
    let (i, j) = match r.gen_range(0, 3) { 0 => (0, 1), 1 => (0, 2), _ => (1, 2) };
    let n = BigNumber::from_hex(P[i]).unwrap().mul(&BigNumber::from_hex(P[j]).unwrap(), None).unwrap();
    let pg = PaillierGroup::new(&n, &mut ctx).unwrap();
    let q = pg.modulus.rshift(2).unwrap();
    let x1: Vec<_> = (0..count).map(|_| below(r, &q)).collect();
    let (x2, x3) = (below(r, &q), below(r, &q));
    let y = |x: &BigNumber| mexp(&pg.g, x, &pg.modulus);
    let y1 = x1.iter().map(|x| y(x)).collect();
    let (y2, y3) = (y(&x2), y(&x3));
    let t = num(2).inverse(&n, None).unwrap().lshift1().unwrap();
    CSKeypair { pub_key: CSEncPubkey { n, two_inv_times_2: t, y1, y2, y3, paillier_group: pg }, pri_key: CSEncPrikey { x1, x2, x3 } }
}
fn msgs(r: &mut R, k: &CSKeypair, m: usize) -> Vec<BigNumber> {
    let n = &k.pub_key.n;
    (0..m).map(|_| match r.gen_range(0, 6) { 0 => num(0), 1 => num(1), 2 => n.decrement().unwrap(), 3 => num(r.gen::<u32>()), _ => below(r, n) }).collect()
}
fn copy(c: &CSCiphertext) -> CSCiphertext {
    CSCiphertext { u: c.u.try_clone().unwrap(), e: c.e.iter().map(|x| x.try_clone().unwrap()).collect(), v: c.v.try_clone().unwrap() }
}
fn same(a: &CSCiphertext, c: &CSCiphertext) -> bool { a.u == c.u && a.v == c.v && a.e.len() == c.e.len() && a.e.iter().zip(&c.e).all(|(x, y)| x == y) }
fn sizes(r: &mut R, case: u32) -> (usize, usize) { let c = 1 + r.gen_range(0, 4); (c, if case % 3 == 0 { c } else { r.gen_range(0, c + 1) }) }
fn check(r: &mut R, k: &CSKeypair, m: usize) -> Out {
    let ms = msgs(r, k, m); let l = label(r);
    let ct = b("encrypt", encrypt(&ms, &l, &k.pub_key))?;
    ensure!(ct.e.len() == m, "{} messages give {} e-values", m, ct.e.len());
    let d = b("decrypt", decrypt(&l, &ct, &k.pub_key, &k.pri_key))?;
    ensure!(d.len() == m && d.iter().zip(&ms).all(|(x, y)| x == y), "{} messages decrypt to something else", m);
    Ok(())
}
fn roundtrip(r: &mut R, case: u32) -> Out {
    let (c, m) = sizes(r, case); let k = key(r, c);
    check(r, &k, m)?;
    let ms = msgs(r, &k, c + 1);
    ensure!(encrypt(&ms, b"x", &k.pub_key).is_err(), "more messages than the key supports are encrypted");
    ensure!(encrypt_and_prove_phase_1(&ms, &ms, b"x", &k.pub_key).is_err(), "more messages than the key supports are proved");
    Ok(())
}
fn generated(r: &mut R, _case: u32) -> Out {
    let k = b("CSKeypair::new", CSKeypair::new(2))?; let p = &k.pub_key; let g = &p.paillier_group;
    ensure!(g.modulus == p.n.sqr(None).unwrap() && g.h == p.n.increment().unwrap() && g.n_by_4 == p.n.rshift(2).unwrap(), "the group of a generated key");
    ensure!(p.y1.len() == 2 && k.pri_key.x1.len() == 2, "two messages are asked for");
    for i in 0..2 { ensure!(p.y1[i] == mexp(&g.g, &k.pri_key.x1[i], &g.modulus), "y1[{}] of a generated key", i); }
    ensure!(p.y2 == mexp(&g.g, &k.pri_key.x2, &g.modulus) && p.y3 == mexp(&g.g, &k.pri_key.x3, &g.modulus), "y2, y3 of a generated key");
    check(r, &k, 2)?; check(r, &k, 1)?;
    ensure!(CSKeypair::new(0).is_err(), "a key for no messages");
    Ok(())
}
fn altered(r: &mut R, case: u32) -> Out {
    let (c, _) = sizes(r, case); let m = c; let k = key(r, c); let ms = msgs(r, &k, m); let l = label(r); let n2 = &k.pub_key.paillier_group.modulus;
    let ct = b("encrypt", encrypt(&ms, &l, &k.pub_key))?;
    let bad = |what: &str, l: &[u8], x: &CSCiphertext| -> Out { ensure!(nopanic("decrypt", || decrypt(l, x, &k.pub_key, &k.pri_key).is_err())?, "{} is decrypted", what); Ok(()) };
    let mut l2 = l.clone(); if l2.is_empty() { l2.push(0) } else if r.gen() { let i = r.gen_range(0, l2.len()); l2[i] ^= 1 << r.gen_range(0, 8); } else { l2.push(0) }
    bad("another label", &l2, &ct)?;
    if !l.is_empty() { bad("a shortened label", &l[..l.len() - 1], &ct)?; }
    let mut x = copy(&ct); x.v = n2.sub(&x.v).unwrap(); bad("the ciphertext with -v", &l, &x)?;
    let mut x = copy(&ct); x.v = x.v.mod_mul(&num(2), n2, None).unwrap(); bad("the ciphertext with 2v", &l, &x)?;
    let mut x = copy(&ct); x.u = x.u.mod_mul(&num(3), n2, None).unwrap(); bad("the ciphertext with 3u", &l, &x)?;
    let mut x = copy(&ct); x.u = n2.sub(&x.u).unwrap(); bad("the ciphertext with -u", &l, &x)?;
    let i = r.gen_range(0, m); let h = &k.pub_key.paillier_group.h;
    let mut x = copy(&ct); x.e[i] = x.e[i].mod_mul(h, n2, None).unwrap(); bad("the ciphertext with h e_i", &l, &x)?;
    let mut x = copy(&ct); x.e[i] = x.e[i].mod_mul(&num(5), n2, None).unwrap(); bad("the ciphertext with 5 e_i", &l, &x)?;
    let mut x = copy(&ct); x.e.pop(); bad("the ciphertext without its last e", &l, &x)?;
    let mut x = copy(&ct); x.e.push(num(1)); bad("the ciphertext with one e more", &l, &x)?;
    if m > 1 && ct.e[0] != ct.e[m - 1] { let mut x = copy(&ct); x.e.swap(0, m - 1); bad("the ciphertext with two e swapped", &l, &x)?; }
    let k2 = key(r, c);
    ensure!(decrypt(&l, &ct, &k.pub_key, &k2.pri_key).is_err(), "decrypted with another private key");
    // a tag that fits an e that is not a ciphertext of a message: refused, not decrypted to something
    let mut x = copy(&ct); x.e[i] = x.e[i].mod_mul(&num(7), n2, None).unwrap();
    let mut arr = vec![x.u.to_bytes().unwrap()]; for e in &x.e { arr.push(e.to_bytes().unwrap()); } arr.push(l.clone());
    let hs = zmix::ursa::cl::hash::get_hash_as_int(&arr).unwrap();
    let ex = hs.mul(&k.pri_key.x3, None).unwrap().add(&k.pri_key.x2).unwrap();
    x.v = k.pub_key.paillier_group.abs(&mexp(&x.u, &ex, n2), None).unwrap();
    bad("an e-value that encrypts no message", &l, &x)?;
    Ok(())
}
fn proof(r: &mut R, case: u32) -> Out {
    let (c, m) = sizes(r, case); let k = key(r, c); let p = &k.pub_key; let ms = msgs(r, &k, m); let l = label(r);
    let bl: Vec<_> = (0..m).map(|_| below(r, &p.n)).collect();
    let (ct, t, rr, rt) = b("phase 1", encrypt_and_prove_phase_1(&ms, &bl, &l, p))?;
    let ch = match r.gen_range(0, 4) { 0 => num(r.gen_range(0, 3)), 1 => below(r, &p.n), _ => BigNumber::from_bytes(&bytes(r, 32)).unwrap() };
    let rh = b("phase 2", encrypt_and_prove_phase_2(&rr, &rt, &ch, p, None))?;
    let s: Vec<_> = (0..m).map(|i| bl[i].sub(&ms[i].mul(&ch, None).unwrap()).unwrap()).collect();
    let back = b("reconstruct", reconstruct_blindings_ciphertext(&ct, &s, &rh, &ch, &l, p))?;
    ensure!(same(&back, &t), "the proof of {} messages of {} does not reconstruct its commitment", m, c);
    let d = b("decrypt", decrypt(&l, &ct, p, &k.pri_key))?;
    ensure!(d.len() == m && d.iter().zip(&ms).all(|(x, y)| x == y), "the proved ciphertext decrypts to something else");
    let differs = |what: &str, x: &CSCiphertext, s: &[BigNumber], rh: &BigNumber, ch: &BigNumber, l: &[u8]| -> Out {
        let got = nopanic("reconstruct", || reconstruct_blindings_ciphertext(x, s, rh, ch, l, p).ok())?;
        ensure!(got.map_or(true, |y| !same(&y, &t)), "{} reconstructs the commitment", what); Ok(())
    };
    let one = num(1);
    differs("another challenge", &ct, &s, &rh, &ch.add(&one).unwrap(), &l)?;
    differs("another response for r", &ct, &s, &rh.add(&one).unwrap(), &ch, &l)?;
    let mut l2 = l.clone(); l2.push(1); differs("another label", &ct, &s, &rh, &ch, &l2)?;
    let n2 = &p.paillier_group.modulus; let unit = ch == num(0);
    if !unit {
        let mut x = copy(&ct); x.u = x.u.mod_mul(&num(3), n2, None).unwrap(); differs("another u", &x, &s, &rh, &ch, &l)?;
        let mut x = copy(&ct); x.v = x.v.mod_mul(&num(3), n2, None).unwrap(); differs("another v", &x, &s, &rh, &ch, &l)?;
    }
    if m > 0 {
        let i = r.gen_range(0, m);
        let mut s2: Vec<_> = s.iter().map(|x| x.try_clone().unwrap()).collect(); s2[i] = s2[i].add(&one).unwrap();
        differs("another message response", &ct, &s2, &rh, &ch, &l)?;
        let mut x = copy(&ct); x.e[i] = x.e[i].mod_mul(&p.paillier_group.h, n2, None).unwrap(); differs("another message", &x, &s, &rh, &ch, &l)?;
        let mut x = copy(&ct); x.e.pop();
        ensure!(nopanic("reconstruct with fewer e than responses", || reconstruct_blindings_ciphertext(&x, &s, &rh, &ch, &l, p).is_err())?, "a ciphertext with fewer e than responses is not refused");
        ensure!(nopanic("reconstruct with fewer responses", || reconstruct_blindings_ciphertext(&ct, &s[..m - 1], &rh, &ch, &l, p).is_err())?, "fewer responses than e are not refused");
        ensure!(encrypt_and_prove_phase_1(&ms, &bl[..m - 1], &l, p).is_err(), "fewer blindings than messages");
    }
    let many: Vec<_> = (0..c + 1).map(|_| num(1)).collect();
    let mut x = copy(&ct); x.e = (0..c + 1).map(|_| num(1)).collect();
    ensure!(nopanic("reconstruct with too many", || reconstruct_blindings_ciphertext(&x, &many, &rh, &ch, &l, p).is_err())?, "more responses than the key supports");
    Ok(())
}
fn group(r: &mut R, _case: u32) -> Out {
    let k = key(r, 1); let g = &k.pub_key.paillier_group; let n2 = &g.modulus; let half = n2.rshift(1).unwrap();
    for x in [num(0), num(1), half.try_clone().unwrap(), half.increment().unwrap(), n2.decrement().unwrap(), n2.increment().unwrap(), below(r, n2), below(r, n2)].iter() {
        let a = b("abs", g.abs(x, None))?; let y = x.modulus(n2, None).unwrap();
        ensure!(a == y || a == n2.sub(&y).unwrap(), "abs is neither a nor -a"); ensure!(!(a > half), "abs is more than half");
        ensure!(b("abs", g.abs(&a, None))? == a, "abs of abs");
        ensure!(b("sqr", g.sqr(x, None))? == x.mul(x, None).unwrap().modulus(n2, None).unwrap(), "sqr");
    }
    ensure!(!(b("rand_for_enc", g.rand_for_enc())? >= g.n_by_4), "randomness at least n/4");
    Ok(())
}
fn boundary(r: &mut R, _case: u32) -> Out {
    // the hash runs over u, the e and the label without lengths: the last e can be moved into the label
    let k = key(r, 2); let ms = msgs(r, &k, 2); let l = label(r);
    let ct = b("encrypt", encrypt(&ms, &l, &k.pub_key))?;
    let mut x = copy(&ct); let last = x.e.pop().unwrap(); let mut l2 = last.to_bytes().unwrap(); l2.extend(&l);
    if decrypt(&l2, &x, &k.pub_key, &k.pri_key).is_ok() { known("cs-label-boundary", "a ciphertext of two messages without its last e, under the label prefixed with the bytes of that e, is decrypted to one message"); }
    Ok(())
}
pub fn all() -> Vec<Sc> {
    let s = |name, quick, thorough, f| Sc { prop: "E01", name, quick, thorough, f };
    vec![s("cs_roundtrip", 12, 120, roundtrip), s("cs_altered", 6, 60, altered), s("cs_proof", 8, 80, proof), s("cs_label_boundary", 2, 10, boundary), s("cs_group", 6, 60, group), s("cs_generated_key", 1, 3, generated)]
}
