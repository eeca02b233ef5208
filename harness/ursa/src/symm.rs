//! A01 authenticated symmetric encryption.
use hcommon::*;
use rand::Rng;
use ursa::encryption::symm::prelude::*;

type T = EncryptorType;
const TYPES: [(T, &str, usize, usize, usize); 5] = [
    (T::Aes128CbcHmac256, "aes-128-cbc-hmac-256", 32, 16, 32), (T::Aes256CbcHmac512, "aes-256-cbc-hmac-512", 64, 16, 64),
    (T::Aes128Gcm, "aes-128-gcm", 16, 12, 16), (T::Aes256Gcm, "aes-256-gcm", 32, 12, 16), (T::XChaCha20Poly1305, "xchacha20poly1305", 32, 24, 16)];
fn bytes(r: &mut R, n: usize) -> Vec<u8> { (0..n).map(|_| r.gen()).collect() }
/// the operations of one cipher, however it was made
struct Ops { name: String, key: usize, nonce: usize, tag: usize, cbc: bool,
    ee: Box<dyn Fn(&[u8], &[u8]) -> Option<Vec<u8>>>, de: Box<dyn Fn(&[u8], &[u8]) -> Option<Vec<u8>>>,
    e: Box<dyn Fn(&[u8], &[u8], &[u8]) -> Option<Vec<u8>>>, d: Box<dyn Fn(&[u8], &[u8], &[u8]) -> Option<Vec<u8>>>,
    eb: Option<Box<dyn Fn(&[u8], &[u8]) -> Option<Vec<u8>>>>, db: Option<Box<dyn Fn(&[u8], &[u8]) -> Option<Vec<u8>>>> }
fn dynamic(i: usize, k: &[u8]) -> Ops {
    let (t, n, ks, ns, tag) = TYPES[i];
    let m = |k: &[u8]| t.gen_encryptor(k.to_vec());
    let (a, b, c, d) = (m(k), m(k), m(k), m(k));
    Ops { name: format!("{} (dynamic)", n), key: ks, nonce: ns, tag, cbc: i < 2,
        ee: Box::new(move |x, y| a.encrypt_easy(x, y).ok()), de: Box::new(move |x, y| b.decrypt_easy(x, y).ok()),
        e: Box::new(move |x, y, z| c.encrypt(x, y, z).ok()), d: Box::new(move |x, y, z| d.decrypt(x, y, z).ok()), eb: None, db: None }
}
fn fixed<E: Encryptor + 'static>(name: &str, ks: usize, ns: usize, tag: usize, cbc: bool, k: &[u8]) -> Ops {
    let m = |k: &[u8]| SymmetricEncryptor::<E>::new_with_key(k.to_vec()).unwrap();
    let (a, b, c, d, e, f) = (m(k), m(k), m(k), m(k), m(k), m(k));
    Ops { name: name.to_string(), key: ks, nonce: ns, tag, cbc,
        ee: Box::new(move |x, y| a.encrypt_easy(x, y).ok()), de: Box::new(move |x, y| b.decrypt_easy(x, y).ok()),
        e: Box::new(move |x, y, z| c.encrypt(x, y, z).ok()), d: Box::new(move |x, y, z| d.decrypt(x, y, z).ok()),
        eb: Some(Box::new(move |x, y| { let mut o = vec![]; e.encrypt_buffer(x, &mut &y[..], &mut o).ok().map(|_| o) })),
        db: Some(Box::new(move |x, y| { let mut o = vec![]; f.decrypt_buffer(x, &mut &y[..], &mut o).ok().map(|_| o) })) }
}
const KINDS: u32 = 11;
fn keysize(i: u32) -> usize { if i < 5 { TYPES[i as usize].2 } else if i < 10 { TYPES[i as usize - 5].2 } else { 32 } }
fn ops(i: u32, k: &[u8]) -> Ops {
    match i {
        0..=4 => dynamic(i as usize, k),
        5 => fixed::<Aes128CbcHmac256>("Aes128CbcHmac256", 32, 16, 32, true, k), 6 => fixed::<Aes256CbcHmac512>("Aes256CbcHmac512", 64, 16, 64, true, k),
        7 => fixed::<Aes128Gcm>("Aes128Gcm", 16, 12, 16, false, k), 8 => fixed::<Aes256Gcm>("Aes256Gcm", 32, 12, 16, false, k),
        9 => fixed::<XChaCha20Poly1305>("XChaCha20Poly1305", 32, 24, 16, false, k),
        _ => fixed::<ChaCha20Poly1305>("ChaCha20Poly1305", 32, 12, 16, false, k),
    }
}
fn overhead(o: &Ops, m: usize) -> usize { if o.cbc { (m / 16 + 1) * 16 + o.tag } else { m + o.tag } }
fn roundtrip(r: &mut R, c: u32) -> Out {
    let k = bytes(r, keysize(c % KINDS)); let o = ops(c % KINDS, &k);
    // every short message, then some longer ones
    let mut lens: Vec<usize> = (0..70).collect(); for _ in 0..6 { lens.push(r.gen_range(70, 700)); } lens.push(r.gen_range(4000, 9000));
    for n in lens {
        let m = bytes(r, n); let l = if r.gen_range(0, 3) == 0 { 0 } else { r.gen_range(0, 50) }; let ad = bytes(r, l);
        let z = bytes(r, o.nonce);
        let x = (o.e)(&z, &ad, &m).ok_or(format!("{}: {} bytes are not encrypted", o.name, n))?;
        ensure!(x.len() == overhead(&o, n), "{}: {} bytes become {} bytes", o.name, n, x.len());
        ensure!((o.d)(&z, &ad, &x) == Some(m.clone()), "{}: decrypting the encryption of {} bytes (aad {}) gives {:?}", o.name, n, ad.len(), (o.d)(&z, &ad, &x).map(hex::encode));
        ensure!((o.e)(&z, &ad, &m) == Some(x.clone()), "{}: encryption is not a function of key, nonce, aad and message", o.name);
        let y = (o.ee)(&ad, &m).ok_or(format!("{}: encrypt_easy refuses {} bytes", o.name, n))?;
        ensure!(y.len() == o.nonce + overhead(&o, n), "{}: encrypt_easy makes {} bytes of {}", o.name, y.len(), n);
        ensure!((o.de)(&ad, &y) == Some(m.clone()), "{}: decrypt_easy of encrypt_easy of {} bytes (aad {}) gives {:?}", o.name, n, ad.len(), (o.de)(&ad, &y).map(hex::encode));
        ensure!((o.d)(&y[..o.nonce], &ad, &y[o.nonce..]) == Some(m.clone()), "{}: encrypt_easy of {} bytes is not nonce and ciphertext", o.name, n);
        let mut w = z.clone(); w.extend(&x); ensure!((o.de)(&ad, &w) == Some(m.clone()), "{}: decrypt_easy of nonce and ciphertext of {} bytes", o.name, n);
        let y2 = (o.ee)(&ad, &m).unwrap(); ensure!(y2[..o.nonce] != y[..o.nonce], "{}: encrypt_easy repeats its nonce", o.name);
        if let (Some(eb), Some(db)) = (&o.eb, &o.db) {
            let b = eb(&ad, &m).ok_or(format!("{}: encrypt_buffer refuses {} bytes", o.name, n))?;
            ensure!(b.len() == y.len() && (o.de)(&ad, &b) == Some(m.clone()) && db(&ad, &y) == Some(m.clone()), "{}: the buffer functions disagree on {} bytes", o.name, n);
        }
        // the dynamic and the static form are the same cipher
        if c % KINDS >= 5 && c % KINDS < 10 { let d = ops(c % KINDS - 5, &k); ensure!((d.e)(&z, &ad, &m) == Some(x.clone()) && (d.de)(&ad, &y) == Some(m.clone()), "{}: dynamic and static form disagree on {} bytes", o.name, n); }
    }
    Ok(())
}
fn long(r: &mut R, c: u32) -> Out {
    let k = bytes(r, keysize(c % KINDS)); let o = ops(c % KINDS, &k);
    for &(n, l) in [(65_536 + 7, 300), (300, 65_536 + 7), (1 << 17, 1 << 17)].iter() {
        let m = bytes(r, n); let ad = bytes(r, l); let z = bytes(r, o.nonce);
        let x = (o.e)(&z, &ad, &m).ok_or("not encrypted")?; ensure!((o.d)(&z, &ad, &x) == Some(m.clone()), "{}: {} bytes with {} bytes of aad do not come back", o.name, n, l);
        let near = |len: usize, r: &mut R| -> Vec<usize> { let mut v = vec![0, 1, len / 2, len - 1, 255, 256, 4095, 4096, 65_535, 65_536, r.gen_range(0, len), r.gen_range(0, len)]; v.retain(|i| *i < len); v };
        for i in near(x.len(), r) { let mut y = x.clone(); y[i] ^= 1 << r.gen_range(0, 8); ensure!((o.d)(&z, &ad, &y).is_none(), "{}: decrypts with byte {} of {} changed", o.name, i, x.len()); }
        for i in near(l, r) { let mut y = ad.clone(); y[i] ^= 1 << r.gen_range(0, 8); ensure!((o.d)(&z, &y, &x).is_none(), "{}: decrypts with aad byte {} of {} changed", o.name, i, l); }
        for i in near(l, r) { ensure!((o.d)(&z, &ad[..i], &x).is_none(), "{}: decrypts with {} of {} aad bytes", o.name, i, l); }
    }
    Ok(())
}
fn tamper(r: &mut R, c: u32) -> Out {
    let k = bytes(r, keysize(c % KINDS)); let o = ops(c % KINDS, &k);
    for _ in 0..4 {
        let (n, l) = (r.gen_range(0, 60), r.gen_range(0, 40)); let m = bytes(r, n); let ad = bytes(r, l); let z = bytes(r, o.nonce);
        let x = (o.e)(&z, &ad, &m).ok_or("not encrypted")?; let mut w = z.clone(); w.extend(&x);
        let no = |what: String, v: Option<Vec<u8>>| -> Out { ensure!(v.is_none(), "{}: decrypts {} ({} message bytes, {} aad)", o.name, what, n, l); Ok(()) };
        for i in 0..x.len() { let mut y = x.clone(); y[i] ^= 1 << r.gen_range(0, 8); no(format!("with byte {} of {} changed", i, x.len()), (o.d)(&z, &ad, &y))?; }
        for i in 0..w.len() { let mut y = w.clone(); y[i] ^= 1 << r.gen_range(0, 8); no(format!("easy form with byte {} of {} changed", i, w.len()), (o.de)(&ad, &y))?; }
        for i in 0..z.len() { let mut y = z.clone(); y[i] ^= 1 << r.gen_range(0, 8); no(format!("with nonce byte {} changed", i), (o.d)(&y, &ad, &x))?; }
        for i in 0..l { let mut y = ad.clone(); y[i] ^= 1 << r.gen_range(0, 8); no(format!("with aad byte {} changed", i), (o.d)(&z, &y, &x))?; no(format!("easy form with aad byte {} changed", i), (o.de)(&y, &w))?; }
        let mut y = ad.clone(); y.push(0); no("with a longer aad".into(), (o.d)(&z, &y, &x))?;
        if l > 0 { no("without aad".into(), (o.d)(&z, &[], &x))?; no("with a shorter aad".into(), (o.d)(&z, &ad[..l - 1], &x))?; no("with the aad's tail".into(), (o.d)(&z, &ad[1..], &x))?; }
        for i in 0..x.len() { no(format!("cut to {} bytes", i), nopanic(&o.name, || (o.d)(&z, &ad, &x[..i]))?)?; }
        for i in 0..w.len() { no(format!("easy form cut to {} bytes", i), nopanic(&o.name, || (o.de)(&ad, &w[..i]))?)?; }
        for i in 1..17 { let mut y = x.clone(); y.extend(bytes(r, i)); no(format!("with {} bytes appended", i), (o.d)(&z, &ad, &y))?; }
        let mut y = x.clone(); y.splice(0..0, bytes(r, 16)); no("with a block put in front".into(), (o.d)(&z, &ad, &y))?;
        if x.len() >= 32 + o.tag { let mut y = x.clone(); for i in 0..16 { y.swap(i, 16 + i); } if y != x { no("with two blocks swapped".into(), (o.d)(&z, &ad, &y))?; } }
        for i in 0..o.key { let mut k2 = k.clone(); k2[i] ^= 1 << r.gen_range(0, 8); let v = (ops(c % KINDS, &k2).d)(&z, &ad, &x);
            // a change of the cipher half of a CBC key is seen by the padding check only
            if o.cbc && i < o.key / 2 { ensure!(v != Some(m.clone()), "{}: key byte {} does not matter", o.name, i); } else { no(format!("with key byte {} changed", i), v)?; } }
        if c % KINDS < 10 { for j in 0..5u32 { if j != c % KINDS % 5 && keysize(j) == o.key && TYPES[j as usize].3 == o.nonce { no("as another cipher".into(), (ops(j, &k).d)(&z, &ad, &x))?; } } }
    }
    Ok(())
}
fn lengths(r: &mut R, c: u32) -> Out {
    // wrong key and nonce lengths are refused by the functions that can say so
    let i = c % KINDS; let o = ops(i, &bytes(r, keysize(i)));
    for n in 0..70 {
        if n != o.nonce {
            let (z, m) = (bytes(r, n), bytes(r, 20));
            ensure!(nopanic(&format!("{}: encrypt with a nonce of {} bytes", o.name, n), || (o.e)(&z, b"", &m))?.is_none(), "{}: encrypts with a nonce of {} bytes", o.name, n);
            let x = bytes(r, 120); ensure!(nopanic(&format!("{}: decrypt with a nonce of {} bytes", o.name, n), || (o.d)(&z, b"", &x))?.is_none(), "{}: decrypts with a nonce of {} bytes", o.name, n);
        }
        let k = bytes(r, n);
        macro_rules! mk { ($t:ty) => { nopanic(&format!("{}: new_with_key with {} bytes", o.name, n), || SymmetricEncryptor::<$t>::new_with_key(&k).is_ok())? } }
        if i >= 5 { let v = match i { 5 => mk!(Aes128CbcHmac256), 6 => mk!(Aes256CbcHmac512), 7 => mk!(Aes128Gcm), 8 => mk!(Aes256Gcm), 9 => mk!(XChaCha20Poly1305), _ => mk!(ChaCha20Poly1305) };
            ensure!(v == (n == o.key), "{}: a key of {} bytes accepted: {}", o.name, n, v); }
        else { let (t, nm, ks, ns, _) = TYPES[i as usize]; ensure!(t.is_valid_keysize(n) == (n == ks) && t.is_valid_noncesize(n) == (n == ns), "{}: size check of {}", nm, n);
            ensure!(nm.parse::<T>().ok() == Some(t) && t.to_string() == nm, "{}: name", nm);
            let e = t.gen_encryptor(bytes(r, ks)); ensure!(e.keysize() == ks && e.noncesize() == ns, "{}: sizes", nm); }
        let w = bytes(r, n); ensure!(nopanic(&format!("{}: decrypt_easy of {} random bytes", o.name, n), || (o.de)(b"aad", &w))?.is_none(), "{}: decrypts {} random bytes", o.name, n);
    }
    Ok(())
}
/// known answers: NIST vectors for GCM, the others fixed from independent implementations
fn vectors(_r: &mut R, _c: u32) -> Out {
    let h = |s: &str| hex::decode(s).unwrap();
    for (i, k, z, ad, m, want) in VECTORS { let o = ops(*i, &h(k)); let x = (o.e)(&h(z), &h(ad), &h(m)).ok_or("refused")?;
        ensure!(hex::encode(&x) == *want, "{}: key {} nonce {} aad {} message {} encrypts to {}", o.name, k, z, ad, m, hex::encode(&x)); }
    Ok(())
}
include!("symm_vectors.rs");
/// the tag of the CBC ciphers covers aad, nonce and ciphertext with nothing to tell where one ends and the next begins
fn boundary(r: &mut R, c: u32) -> Out {
    let i = [0u32, 1, 5, 6][(c % 4) as usize]; let k = bytes(r, keysize(i)); let o = ops(i, &k);
    let (n, l) = (r.gen_range(64, 100), r.gen_range(16, 30)); let m = bytes(r, n); let ad = bytes(r, l); let z = bytes(r, 16);
    let x = (o.e)(&z, &ad, &m).ok_or("not encrypted")?;
    // aad' = aad + nonce, nonce' = first block of the ciphertext
    let mut ad2 = ad.clone(); ad2.extend(&z);
    if let Some(v) = (o.d)(&x[..16], &ad2, &x[16..]) { known("cbc-aad-boundary", &format!("{}: aad and nonce joined, the first ciphertext block as nonce: decrypts to {} bytes", o.name, v.len())); }
    // aad' = aad without its last 16 bytes, nonce' = these
    let mut y = z.clone(); y.extend(&x);
    if let Some(v) = (o.d)(&ad[l - 16..], &ad[..l - 16], &y) { known("cbc-aad-boundary", &format!("{}: the last 16 aad bytes as nonce, the nonce as first ciphertext block: decrypts to {} bytes", o.name, v.len())); }
    Ok(())
}
pub fn all() -> Vec<Sc> {
    let s = |n, q, t, f| Sc { prop: "A01", name: n, quick: q, thorough: t, f };
    vec![s("roundtrip", 22, 660, roundtrip as fn(&mut R, u32) -> Out), s("tamper", 22, 660, tamper), s("long", 11, 55, long), s("lengths", 11, 110, lengths), s("vectors", 1, 1, vectors), s("boundary", 4, 40, boundary)]
}
