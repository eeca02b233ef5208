//! D01 Ed25519 and ECDSA secp256k1 signatures.
use hcommon::*;
use num_bigint::{BigInt, Sign};
use rand::Rng;
use ursa::keys::{KeyGenOption, PrivateKey, PublicKey};
use ursa::kex::{x25519::X25519Sha256, KeyExchangeScheme};
use ursa::signatures::{ed25519::Ed25519Sha512 as Ed, secp256k1::EcdsaSecp256k1Sha256 as Ec, EcdsaPublicKeyHandler, SignatureScheme, Signer};

fn bytes(r: &mut R, n: usize) -> Vec<u8> { (0..n).map(|_| r.gen()).collect() }
fn e<X: std::fmt::Debug>(x: X) -> String { format!("{:?}", x) }
fn flip(r: &mut R, w: &[u8], i: usize) -> Vec<u8> { let mut v = w.to_vec(); v[i] ^= 1 << r.gen_range(0, 8); v }
fn sign_verify<S: SignatureScheme>(r: &mut R, private: bool) -> Out {
    let s = S::new();
    for _ in 0..6 {
        let n = [0usize, 1, 31, 32, 33, 64, 100, 1000, 5000][r.gen_range(0, 9)]; let m = bytes(r, n); let sl = r.gen_range(32, 70); let seed = bytes(r, sl); let mut raw = bytes(r, 32); raw[0] &= 0x7f;
        let o = |k: u32| match k { 0 => None, 1 => Some(KeyGenOption::UseSeed(seed.clone())), _ => Some(KeyGenOption::FromSecretKey(PrivateKey(raw.clone()))) };
        let k = r.gen_range(0, if private { 3 } else { 2 });
        let (pk, sk) = s.keypair(o(k)).map_err(e)?; ensure!(pk.0.len() == S::public_key_size() && sk.0.len() == S::private_key_size(), "key sizes {} {}", pk.0.len(), sk.0.len());
        { let (_, x) = s.keypair(None).map_err(e)?; let (_, y) = s.keypair(None).map_err(e)?; ensure!(x.0 != y.0 && x.0 != sk.0 && x.0[..8] != y.0[..8] && x.0[24..32] != y.0[24..32], "two drawn private keys share bytes: {} {}", hex::encode(&x.0), hex::encode(&y.0)); }
        { let mut z = seed.clone(); z[r.gen_range(0, 32)] ^= 1 << r.gen_range(0, 8); if let (Ok(a), Ok(b)) = (s.keypair(Some(KeyGenOption::UseSeed(seed.clone()))), s.keypair(Some(KeyGenOption::UseSeed(z)))) { ensure!(a.1 .0[..32] != b.1 .0[..32], "two seeds give the same private key"); } }
        if k > 0 { let (p2, s2) = s.keypair(o(k)).map_err(e)?; ensure!(p2.0 == pk.0 && s2.0 == sk.0, "the same option gives another key pair"); }
        let (p3, s3) = s.keypair(Some(KeyGenOption::FromSecretKey(PrivateKey(sk.0.clone())))).map_err(e)?; ensure!(p3.0 == pk.0 && s3.0 == sk.0, "the key pair of a private key is another one");
        let sig = s.sign(&m, &sk).map_err(e)?; ensure!(sig.len() == S::signature_size(), "signature of {} bytes", sig.len());
        ensure!(s.verify(&m, &sig, &pk).map_err(e)?, "honest signature of {} bytes rejected", n);
        let g = Signer::new(&s, &sk); let x = g.sign(&m).map_err(e)?; ensure!(s.verify(&m, &x, &pk).map_err(e)? && g.get_public_key().map_err(e)?.0 == pk.0, "Signer disagrees");
        let no = |what: String, a: Result<bool, ursa::CryptoError>| -> Out { ensure!(a.ok() != Some(true), "accepted with {}", what); Ok(()) };
        for i in 0..sig.len() { let w = flip(r, &sig, i); no(format!("byte {} of the signature changed", i), nopanic("verify", || s.verify(&m, &w, &pk))?)?; }
        for i in 0..pk.0.len() { let w = flip(r, &pk.0, i); no(format!("byte {} of the key changed", i), nopanic("verify", || s.verify(&m, &sig, &PublicKey(w)))?)?; }
        for j in 0..n.min(40) { let i = if n <= 40 { j } else { j * (n - 1) / 39 }; let w = flip(r, &m, i); no(format!("byte {} of the message of {} changed", i, n), s.verify(&w, &sig, &pk))?; }
        let mut w = m.clone(); w.push(0); no("a longer message".into(), s.verify(&w, &sig, &pk))?; if n > 0 { no("a shorter message".into(), s.verify(&m[1..], &sig, &pk))?; no("a shorter message".into(), s.verify(&m[..n - 1], &sig, &pk))?; }
        let (po, so) = s.keypair(None).map_err(e)?; no("another key".into(), s.verify(&m, &sig, &po))?; no("another key's signature".into(), s.verify(&m, &s.sign(&m, &so).map_err(e)?, &pk))?;
        for l in 0..70usize {
            if l != sig.len() { let mut w = sig.clone(); w.resize(l, 1); no(format!("a signature of {} bytes", l), nopanic("verify", || s.verify(&m, &w, &pk))?)?; }
            if l != pk.0.len() { let mut w = pk.0.clone(); w.resize(l, 1); no(format!("a key of {} bytes", l), nopanic("verify", || s.verify(&m, &sig, &PublicKey(w)))?)?; }
            if l != sk.0.len() { let mut w = sk.0.clone(); w.resize(l, 1); ensure!(nopanic("sign", || s.sign(&m, &PrivateKey(w.clone())))?.is_err() && nopanic("keypair", || s.keypair(Some(KeyGenOption::FromSecretKey(PrivateKey(w.clone())))))?.is_err(), "a private key of {} bytes taken", l); nopanic("Signer", || Signer::new(&s, &PrivateKey(w.clone())).get_public_key().is_ok())?; }
            nopanic("keypair from a seed", || s.keypair(Some(KeyGenOption::UseSeed(vec![3; l]))).is_ok())?;
        }
    }
    Ok(())
}
fn ed(r: &mut R, _c: u32) -> Out { sign_verify::<Ed>(r, false) }
fn ec(r: &mut R, _c: u32) -> Out { sign_verify::<Ec>(r, true) }
fn convert(r: &mut R, _c: u32) -> Out {
    let (s, x) = (Ed::new(), X25519Sha256::new());
    let n = 32 + r.gen_range(0, 3); let ikm = bytes(r, n); let (pk, sk) = Ed::expand_keypair(&ikm).map_err(e)?; let (p2, s2) = s.keypair(Some(KeyGenOption::FromSecretKey(PrivateKey(sk.0.clone())))).map_err(e)?;
    ensure!(p2.0 == pk.0 && s2.0 == sk.0 && sk.0[..32] == ikm[..32] && sk.0[32..] == pk.0[..], "expanded key pair"); let sig = s.sign(b"m", &sk).map_err(e)?; ensure!(s.verify(b"m", &sig, &pk).map_err(e)?, "signature of an expanded key pair");
    let (cp, cs) = (Ed::ver_key_to_key_exchange(&pk).map_err(e)?, Ed::sign_key_to_key_exchange(&sk).map_err(e)?);
    let (xp, xs) = x.keypair(Some(KeyGenOption::FromSecretKey(PrivateKey(cs.0.clone())))).map_err(e)?; ensure!(xp.0 == cp.0 && xs.0 == cs.0, "converted keys {} and {} are no pair", hex::encode(&cp.0), hex::encode(&cs.0));
    let (op, os) = x.keypair(None).map_err(e)?; ensure!(x.compute_shared_secret(&cs, &op).map_err(e)?.0 == x.compute_shared_secret(&os, &cp).map_err(e)?.0, "key agreement with converted keys");
    for l in 0..70usize {
        let mut w = pk.0.clone(); w.resize(l, 0); let a = nopanic("ver_key_to_key_exchange", || Ed::ver_key_to_key_exchange(&PublicKey(w)))?; ensure!(a.is_ok() == (l == 32), "a public key of {} bytes: {:?}", l, a.is_ok());
        let mut w = sk.0.clone(); w.resize(l, 0); let a = nopanic("sign_key_to_key_exchange", || Ed::sign_key_to_key_exchange(&PrivateKey(w.clone())))?; ensure!(a.is_ok() == (l >= 32), "a private key of {} bytes", l); if let Ok(a) = a { ensure!(a.0 == cs.0, "the conversion depends on more than the secret half"); }
        let a = nopanic("expand_keypair", || Ed::expand_keypair(&w))?; ensure!(a.is_ok() == (l >= 32), "key material of {} bytes", l);
    }
    nopanic("ver_key_to_key_exchange", || Ed::ver_key_to_key_exchange(&PublicKey(bytes(r, 32))).is_ok())?; Ok(())
}
fn points(r: &mut R, _c: u32) -> Out {
    let s = Ec::new(); let (pk, sk) = s.keypair(None).map_err(e)?; let (c, u) = (s.public_key_compressed(&pk), s.public_key_uncompressed(&pk)); let un = PublicKey(u.clone());
    ensure!(c == pk.0 && u.len() == Ec::public_key_uncompressed_size() && u.len() == 65 && u[1..33] == c[1..], "forms of the public key");
    ensure!(s.parse(&c).map_err(e)?.0 == pk.0 && s.parse(&u).map_err(e)?.0 == pk.0, "parsing the public key"); ensure!(s.public_key_compressed(&un) == c && s.public_key_uncompressed(&un) == u, "forms of the uncompressed key");
    for l in 0..70usize { let mut w = u.clone(); w.resize(l, 0); if l != 65 { ensure!(nopanic("parse", || s.parse(&w).is_err())?, "{} bytes parse", l); } let mut w = c.clone(); w.resize(l, 0); if l != 33 { ensure!(nopanic("parse", || s.parse(&w).is_err())?, "{} bytes parse", l); } }
    // the high form of a signature is refused, normalizing gives the low form back
    let m = bytes(r, 50); let sig = s.sign(&m, &sk).map_err(e)?; ensure!(s.verify(&m, &sig, &un).map_err(e)?, "the uncompressed key rejects");
    let n = BigInt::parse_bytes(b"fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16).unwrap(); let hs = (n - BigInt::from_bytes_be(Sign::Plus, &sig[32..])).to_bytes_be().1;
    let mut high = sig[..32].to_vec(); high.extend(vec![0; 32 - hs.len()]); high.extend(&hs); ensure!(s.verify(&m, &high, &pk).ok() != Some(true), "the high form is accepted");
    let mut low = high.clone(); s.normalize_s(&mut low).map_err(e)?; ensure!(low == sig, "normalizing the high form gives {}", hex::encode(&low)); s.normalize_s(&mut low).map_err(e)?; ensure!(low == sig, "normalizing the low form changes it");
    for l in 0..70usize { if l != 64 { let mut w = sig.clone(); w.resize(l, 1); ensure!(nopanic("normalize_s", || s.normalize_s(&mut w).is_err())?, "{} bytes normalized", l); } }
    let mut w = vec![0xff; 64]; ensure!(nopanic("normalize_s", || s.normalize_s(&mut w).is_err())? && w == vec![0xff; 64], "no signature normalized"); Ok(())
}
fn vectors(_r: &mut R, _c: u32) -> Out {
    let h = |x: &str| hex::decode(x).unwrap();
    // RFC 8032, 7.1, tests 1 to 3
    for (sk, pk, m, sig) in [
        ("9d61b19deffd5a60ba844af492ec2cc44449c5697b326919703bac031cae7f60", "d75a980182b10ab7d54bfed3c964073a0ee172f3daa62325af021a68f707511a", "", "e5564300c360ac729086e2cc806e828a84877f1eb8e5d974d873e065224901555fb8821590a33bacc61e39701cf9b46bd25bf5f0595bbe24655141438e7a100b"),
        ("4ccd089b28ff96da9db6c346ec114e0f5b8a319f35aba624da8cf6ed4fb8a6fb", "3d4017c3e843895a92b70aa74d1b7ebc9c982ccf2ec4968cc0cd55f12af4660c", "72", "92a009a9f0d4cab8720e820b5f642540a2b27b5416503f8fb3762223ebdb69da085ac1e43e15996e458f3613d0f11d8c387b2eaeb4302aeeb00d291612bb0c00"),
        ("c5aa8df43f9f837bedb7442f31dcb7b166d38535076f094b85ce3a2e0b4458f7", "fc51cd8e6218a1a38da47ed00230f0580816ed13ba3303ac5deb911548908025", "af82", "6291d657deec24024827e69c3abe01a30ce548a284743a445e3680d7db5ac3ac18ff9b538d16f290ae67f760984dc6594a7c15e9716ed28dc027beceea1ec40a")].iter() {
        let s = Ed::new(); let (p, k) = Ed::expand_keypair(&h(sk)).map_err(e)?; ensure!(p.0 == h(pk), "Ed25519 public key of {}", sk); let x = s.sign(&h(m), &k).map_err(e)?;
        ensure!(x == h(sig), "Ed25519 signature {}", hex::encode(&x)); ensure!(s.verify(&h(m), &h(sig), &p).map_err(e)?, "RFC 8032 signature rejected");
    }
    // the keys of a seed: ChaCha20 keyed with SHA-256(seed); SHA-256 of ChaCha20 keyed with the first 32 bytes (computed independently)
    let z = || Some(KeyGenOption::UseSeed((0..40).collect()));
    let a = Ed::new().keypair(z()).map_err(e)?.1; ensure!(hex::encode(&a.0[..32]) == "cee72ccf72975ddecbcab4d864796ee5436a1e782eadfc432605aba0e4426e9c", "Ed25519 private key of the seed 0..39: {}", hex::encode(&a.0));
    let a = Ec::new().keypair(z()).map_err(e)?.1; ensure!(hex::encode(&a.0) == "adeb763428d6ef6c57724952c3463ffbc2ac29ab274da04df4713f76a7736499", "ECDSA private key of the seed 0..39: {}", hex::encode(&a.0));
    // RFC 6979 nonces on secp256k1 with SHA-256: key 1, "Satoshi Nakamoto"
    let s = Ec::new(); let mut k = vec![0u8; 32]; k[31] = 1; let x = s.sign(b"Satoshi Nakamoto", &PrivateKey(k.clone())).map_err(e)?;
    ensure!(hex::encode(&x) == "934b1ea10a4b3c1757e2b0c017d0b6143ce3c9a7e6a4a49860d7a6ab210ee3d82442ce9d2b916064108014783e923ec36b49743e2ffa1c4496f01a512aafd9e5", "ECDSA signature {}", hex::encode(&x));
    let (p, _) = s.keypair(Some(KeyGenOption::FromSecretKey(PrivateKey(k)))).map_err(e)?; ensure!(hex::encode(&p.0) == "0279be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798", "public key of 1"); ensure!(s.verify(b"Satoshi Nakamoto", &x, &p).map_err(e)?, "rejected"); Ok(())
}
pub fn all() -> Vec<Sc> {
    let s = |n, q, t, f| Sc { prop: "D01", name: n, quick: q, thorough: t, f };
    vec![s("ed25519", 12, 600, ed as fn(&mut R, u32) -> Out), s("ecdsa", 12, 600, ec), s("convert", 30, 1000, convert), s("points", 30, 1000, points), s("vectors", 1, 1, vectors)]
}
