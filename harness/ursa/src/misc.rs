//! K01 key agreement, U01 byte Shamir sharing, U02 BLS, U03 pairing wrapper.
use hcommon::*;
use num_bigint::{BigInt, Sign};
use num_integer::Integer;
use num_traits::{One, Zero};
use rand::{seq::SliceRandom, Rng};
use ursa::bn::BigNumber as B;
use ursa::keys::{KeyGenOption, PrivateKey, PublicKey};
use ursa::kex::KeyExchangeScheme;
use ursa::pair::{GroupOrderElement as S, Pair, PointG1, PointG2};
use ursa::sharing::shamir::{combine_shares, split_secret, Share};

fn bytes(r: &mut R, n: usize) -> Vec<u8> { (0..n).map(|_| r.gen()).collect() }
// ---------------------------------------------------------------- K01
fn opt(r: &mut R) -> Option<(bool, Vec<u8>)> { match r.gen_range(0, 3) { 0 => None, 1 => Some((true, bytes(r, 32))), _ => { let mut b = bytes(r, 32); b[0] &= 0x7f; Some((false, b)) } } }
fn mk(o: &Option<(bool, Vec<u8>)>) -> Option<KeyGenOption> { o.as_ref().map(|(s, v)| if *s { KeyGenOption::UseSeed(v.clone()) } else { KeyGenOption::FromSecretKey(PrivateKey(v.clone())) }) }
fn kx<K: KeyExchangeScheme>(r: &mut R) -> Out {
    let k = K::new();
    for _ in 0..4 {
        let (oa, ob) = (opt(r), opt(r));
        let (pa, sa) = k.keypair(mk(&oa)).map_err(|e| format!("key pair from {:?}: {:?}", oa, e))?; let (pb, sb) = k.keypair(mk(&ob)).map_err(|e| format!("key pair from {:?}: {:?}", ob, e))?;
        let x = k.compute_shared_secret(&sa, &pb).map_err(|e| format!("{:?}", e))?; let y = k.compute_shared_secret(&sb, &pa).map_err(|e| format!("{:?}", e))?;
        ensure!(x.0 == y.0, "the two parties got different secrets: {} and {} (keys {:?} {:?})", hex::encode(&x.0), hex::encode(&y.0), oa, ob);
        ensure!(x.0.len() == K::shared_secret_size() && pa.0.len() == K::public_key_size() && sa.0.len() == K::private_key_size(), "sizes");
        ensure!(K::new().compute_shared_secret(&sa, &pb).map_err(|e| format!("{:?}", e))?.0 == x.0, "the secret is not a function of the keys");
        let (pc, sc) = k.keypair(None).map_err(|e| format!("{:?}", e))?;
        ensure!(k.compute_shared_secret(&sc, &pb).map_err(|e| format!("{:?}", e))?.0 != x.0 && k.compute_shared_secret(&sa, &pc).map_err(|e| format!("{:?}", e))?.0 != x.0, "another key gives the same secret");
        if oa.is_some() { let (p2, s2) = k.keypair(mk(&oa)).unwrap(); ensure!(p2.0 == pa.0 && s2.0 == sa.0, "the same option gives another key pair"); }
        let (p3, s3) = k.keypair(Some(KeyGenOption::FromSecretKey(PrivateKey(sa.0.clone())))).map_err(|e| format!("{:?}", e))?;
        ensure!(p3.0 == pa.0 && s3.0 == sa.0, "the key pair of a private key is another one");
        let zl = r.gen_range(32, 70); let z = bytes(r, zl); let q1 = k.keypair(Some(KeyGenOption::UseSeed(z.clone()))); let mut z2 = z.clone(); z2[r.gen_range(0, 32)] ^= 1 << r.gen_range(0, 8); let q2 = k.keypair(Some(KeyGenOption::UseSeed(z2)));
        ensure!(q1.unwrap().1 .0 != q2.unwrap().1 .0, "two seeds give the same private key");
        let _ = PublicKey(vec![]);
    }
    // many peers: what goes wrong may depend on the shape of one public key
    let (pa, sa) = k.keypair(None).map_err(|e| format!("{:?}", e))?;
    for _ in 0..600 {
        let (pb, sb) = k.keypair(None).map_err(|e| format!("{:?}", e))?;
        let x = k.compute_shared_secret(&sa, &pb).map_err(|e| format!("refused the public key {}: {:?}", hex::encode(&pb.0), e))?; let y = k.compute_shared_secret(&sb, &pa).map_err(|e| format!("{:?}", e))?;
        ensure!(x.0 == y.0, "the two parties got different secrets for public keys {} and {}", hex::encode(&pa.0), hex::encode(&pb.0));
    }
    Ok(())
}
fn kxlens<K: KeyExchangeScheme>(r: &mut R, pks: &[usize]) -> Out {
    let k = K::new(); let (pa, sa) = k.keypair(None).map_err(|e| format!("{:?}", e))?;
    for l in 0..70usize {
        let mut w = sa.0.clone(); w.resize(l, 1); let w = PrivateKey(w);
        if l != sa.0.len() { ensure!(nopanic("compute_shared_secret", || k.compute_shared_secret(&w, &pa).is_err())? && nopanic("keypair", || k.keypair(Some(KeyGenOption::FromSecretKey(PrivateKey(w.0.clone())))).is_err())?, "a private key of {} bytes is taken", l); }
        let mut w = pa.0.clone(); w.resize(l, 1); let w = PublicKey(w);
        if !pks.contains(&l) { ensure!(nopanic("compute_shared_secret", || k.compute_shared_secret(&sa, &w).is_err())?, "a public key of {} bytes is taken", l); }
        let z = bytes(r, l); let a = nopanic("keypair from a seed", || k.keypair(Some(KeyGenOption::UseSeed(z.clone()))))?.ok(); let b = nopanic("keypair from a seed", || k.keypair(Some(KeyGenOption::UseSeed(z.clone()))))?.ok();
        ensure!(a.map(|x| (x.0 .0.clone(), x.1 .0.clone())) == b.map(|x| (x.0 .0.clone(), x.1 .0.clone())), "a seed of {} bytes gives two key pairs", l);
    }
    Ok(())
}
fn kats(_r: &mut R, _c: u32) -> Out {
    // the keys of a seed: ChaCha20 keyed with SHA-256(seed), clamped; SHA-256 of ChaCha20 keyed with the first 32 bytes (computed independently)
    let z = || Some(KeyGenOption::UseSeed((0..40).collect()));
    let a = ursa::kex::x25519::X25519Sha256::new().keypair(z()).map_err(|e| format!("{:?}", e))?.1; ensure!(hex::encode(&a.0) == "c8e72ccf72975ddecbcab4d864796ee5436a1e782eadfc432605aba0e4426e5c", "X25519 private key of the seed 0..39: {}", hex::encode(&a.0));
    let a = ursa::kex::secp256k1::EcdhSecp256k1Sha256::new().keypair(z()).map_err(|e| format!("{:?}", e))?.1; ensure!(hex::encode(&a.0) == "adeb763428d6ef6c57724952c3463ffbc2ac29ab274da04df4713f76a7736499", "secp256k1 private key of the seed 0..39: {}", hex::encode(&a.0));
    for _ in 0..20 {
        let x = ursa::kex::x25519::X25519Sha256::new(); let (a, b) = (x.keypair(None).map_err(|e| format!("{:?}", e))?.1, x.keypair(None).map_err(|e| format!("{:?}", e))?.1); ensure!(a.0[1..9] != b.0[1..9] && a.0[23..31] != b.0[23..31], "two drawn private keys share bytes");
        let x = ursa::kex::secp256k1::EcdhSecp256k1Sha256::new(); let (a, b) = (x.keypair(None).map_err(|e| format!("{:?}", e))?.1, x.keypair(None).map_err(|e| format!("{:?}", e))?.1); ensure!(a.0[..8] != b.0[..8] && a.0[24..] != b.0[24..], "two drawn private keys share bytes");
    }
    Ok(())
}
fn xlens(r: &mut R, _c: u32) -> Out { kxlens::<ursa::kex::x25519::X25519Sha256>(r, &[32]) }
fn slens(r: &mut R, _c: u32) -> Out { kxlens::<ursa::kex::secp256k1::EcdhSecp256k1Sha256>(r, &[33, 65]) }
fn kx25519(r: &mut R, _c: u32) -> Out { kx::<ursa::kex::x25519::X25519Sha256>(r) }
fn kxsecp(r: &mut R, _c: u32) -> Out { kx::<ursa::kex::secp256k1::EcdhSecp256k1Sha256>(r) }
// ---------------------------------------------------------------- U01
fn fields() -> Vec<B> {
    let mut v = vec!["3fb", "10001", "1fffffffffffffff", "1000000000000000000000000000000014DEF9DEA2F79CD65812631A5CF5D3ED", "73EDA753299D7D483339D80809A1D80553BDA402FFFE5BFEFFFFFFFF00000001"].into_iter().map(|x| B::from_hex(x).unwrap()).collect::<Vec<_>>();
    v.push(B::from_dec("257").unwrap()); v
}
fn strip(b: &[u8]) -> Vec<u8> { b.iter().cloned().skip_while(|x| *x == 0).collect() }
fn shamir(r: &mut R, c: u32) -> Out {
    let fs = fields(); let f = &fs[c as usize % fs.len()];
    let fi: BigInt = f.to_dec().unwrap().parse().unwrap(); let flen = f.to_bytes().unwrap().len();
    let t = r.gen_range(2u8, 9); let n = match r.gen_range(0, 4) { 0 => t, 1 => 255, _ => r.gen_range(t, 30) };
    let secret = match r.gen_range(0, 6) { 0 => vec![0], 1 => (&fi - 1u8).to_bytes_be().1, 2 => { let mut v = vec![0; r.gen_range(1, 3)]; v.push(7); v } , _ => { let v = BigInt::from_bytes_be(Sign::Plus, &bytes(r, flen + 2)).mod_floor(&fi).to_bytes_be().1; v } };
    let sh = split_secret(&secret, t, n, f).map_err(|e| format!("split {} into {}/{} modulo {}: {:?}", hex::encode(&secret), t, n, fi, e))?;
    ensure!(sh.len() == n as usize && sh.iter().enumerate().all(|(i, s)| s.identifier as usize == i + 1), "identifiers");
    for _ in 0..6 {
        let m = r.gen_range(t as usize, std::cmp::min(n as usize, t as usize + 4) + 1); let mut sub: Vec<Share> = sh.choose_multiple(r, m).cloned().collect(); sub.shuffle(r);
        let zero = sub.iter().any(|s| s.value == B::new().unwrap());
        let got = combine_shares(&sub, f);
        if zero { ensure!(got.is_err(), "a zero share is accepted"); } else {
            let got = got.map_err(|e| format!("combine: {:?}", e))?; ensure!(strip(&got) == strip(&secret), "combined {} from {} of {}, threshold {}, secret {} modulo {}", hex::encode(&got), m, n, t, hex::encode(&secret), fi); }
        let s = sub.choose(r).unwrap(); let b = Share::from_bytes(&s.to_bytes(), f).map_err(|e| format!("{:?}", e))?; ensure!(b.identifier == s.identifier && b.value == s.value, "decoded share differs");
        // one changed value changes the secret when all t shares are needed
        let mut bad = sh[..t as usize].to_vec(); let k = r.gen_range(0, t as usize); let d = BigInt::one() + BigInt::from_bytes_be(Sign::Plus, &bytes(r, flen)).mod_floor(&(&fi - 1u8));
        let v: BigInt = bad[k].value.to_dec().unwrap().parse().unwrap(); bad[k].value = B::from_dec(&(v + d).mod_floor(&fi).to_string()).unwrap();
        if let Ok(g) = combine_shares(&bad, f) { ensure!(strip(&g) != strip(&secret), "a changed share recombines to the secret"); }
    }
    // all t-1 shares are consistent with every secret: interpolating t-1 shares plus any secret at zero is possible, checked by refusal of nothing here
    ensure!(combine_shares(&sh[..1], f).is_err(), "one share is enough");
    ensure!(combine_shares(&vec![sh[0].clone(), sh[0].clone()], f).is_err(), "a repeated share is accepted");
    let mut z = sh[..t as usize].to_vec(); z[0].identifier = 0; ensure!(combine_shares(&z, f).is_err(), "identifier zero is accepted");
    ensure!(split_secret(&fi.to_bytes_be().1, t, n, f).is_err() && split_secret(&(&fi + 1u8).to_bytes_be().1, t, n, f).is_err(), "a secret that is not below the modulus is split");
    ensure!(split_secret(&secret, 1, n, f).is_err() && split_secret(&secret, 0, n, f).is_err() && split_secret(&secret, t, t - 1, f).is_err() && split_secret(&[] as &[u8], t, n, f).is_err(), "invalid parameters are accepted");
    ensure!(nopanic("empty share", || Share::from_bytes(&[] as &[u8], f))?.is_err(), "an empty share is decoded");
    for (q, ok) in &[("7", 6u8), ("13", 12), ("2", 1)] { let q = B::from_dec(q).unwrap(); ensure!(split_secret(&[1u8], 2, ok + 1, &q).is_err(), "more shares than field elements"); if *ok > 1 { ensure!(split_secret(&[1u8], 2, *ok, &q).is_ok(), "small field"); } }
    Ok(())
}
/// with coefficients in hand: the shares are the values of one polynomial of degree t-1 (any t agree)
fn agree(r: &mut R, _c: u32) -> Out {
    let fs = fields(); let f = fs.choose(r).unwrap(); let t = r.gen_range(2u8, 6); let n = t + r.gen_range(0, 5);
    let sh = split_secret(&[r.gen::<u8>()], t, n, f).map_err(|e| format!("{:?}", e))?;
    if sh.iter().any(|s| s.value == B::new().unwrap()) { return Ok(()); }
    let a = combine_shares(&sh[..t as usize], f).unwrap(); let b = combine_shares(&sh[(n - t) as usize..], f).unwrap(); ensure!(a == b, "two subsets recombine to different secrets");
    if t > 2 { let g = combine_shares(&sh[..t as usize - 1], f).unwrap(); let h = combine_shares(&sh[1..t as usize], f).unwrap(); ensure!(f.num_bits().unwrap() < 64 || g != h || g != a, "fewer shares than the threshold recombine"); }
    Ok(())
}
// ---------------------------------------------------------------- U02
use ursa::bls::*;
fn bls(r: &mut R, _c: u32) -> Out {
    let e = |x: ursa::errors::UrsaCryptoError| format!("{:?}", x);
    let g = Generator::new().map_err(e)?; let g = Generator::from_bytes(g.as_bytes()).map_err(e)?;
    let n = r.gen_range(1, 6); let msg = { let k = r.gen_range(0, 60); bytes(r, k) };
    let sks: Vec<SignKey> = (0..n).map(|_| if r.gen() { let s = bytes(r, 32); let a = SignKey::new(Some(&s)).unwrap(); assert_eq!(a.as_bytes(), SignKey::new(Some(&s)).unwrap().as_bytes()); a } else { SignKey::new(None).unwrap() }).collect();
    let vks: Vec<VerKey> = sks.iter().map(|s| VerKey::new(&g, s).unwrap()).collect();
    let sigs: Vec<Signature> = sks.iter().map(|s| Bls::sign(&msg, s).unwrap()).collect();
    for i in 0..n {
        ensure!(Bls::verify(&sigs[i], &msg, &vks[i], &g).map_err(e)?, "honest signature rejected");
        let s2 = Signature::from_bytes(sigs[i].as_bytes()).map_err(e)?; let v2 = VerKey::from_bytes(vks[i].as_bytes()).map_err(e)?; let k2 = SignKey::from_bytes(sks[i].as_bytes()).map_err(e)?;
        ensure!(Bls::verify(&s2, &msg, &v2, &g).map_err(e)?, "decoded signature rejected"); ensure!(Bls::sign(&msg, &k2).map_err(e)?.as_bytes() == sigs[i].as_bytes(), "decoded key signs differently");
        let mut m2 = msg.clone(); m2.push(0); ensure!(!Bls::verify(&sigs[i], &m2, &vks[i], &g).map_err(e)?, "signature of another message accepted");
        let other = VerKey::new(&g, &SignKey::new(None).unwrap()).unwrap(); ensure!(!Bls::verify(&sigs[i], &msg, &other, &g).map_err(e)?, "another key accepted");
        let pop = ProofOfPossession::new(&vks[i], &sks[i]).map_err(e)?; let pop = ProofOfPossession::from_bytes(pop.as_bytes()).map_err(e)?;
        ensure!(Bls::verify_proof_of_posession(&pop, &vks[i], &g).map_err(e)?, "honest proof of possession rejected"); ensure!(!Bls::verify_proof_of_posession(&pop, &other, &g).map_err(e)?, "proof of possession of another key accepted");
        let asig = Signature::from_bytes(pop.as_bytes()).map_err(e)?; ensure!(!Bls::verify(&asig, vks[i].as_bytes(), &vks[i], &g).map_err(e)?, "a proof of possession is a signature of the key");
    }
    let mut o: Vec<usize> = (0..n).collect(); o.shuffle(r); let ms = MultiSignature::new(&o.iter().map(|i| &sigs[*i]).collect::<Vec<_>>()).map_err(e)?; o.shuffle(r);
    let ms = MultiSignature::from_bytes(ms.as_bytes()).map_err(e)?;
    let ks: Vec<&VerKey> = o.iter().map(|i| &vks[*i]).collect();
    ensure!(Bls::verify_multi_sig(&ms, &msg, &ks, &g).map_err(e)?, "honest multi-signature of {} rejected", n);
    let mut m2 = msg.clone(); m2.push(1); ensure!(!Bls::verify_multi_sig(&ms, &m2, &ks, &g).map_err(e)?, "multi-signature of another message accepted");
    ensure!(!Bls::verify_multi_sig(&ms, &msg, &ks[1..], &g).map_err(e)?, "multi-signature with a signer missing accepted");
    let mut k2 = ks.clone(); k2.push(ks[0]); ensure!(!Bls::verify_multi_sig(&ms, &msg, &k2, &g).map_err(e)?, "multi-signature with a signer repeated accepted");
    for l in &[0usize, 1, 31, 33] { ensure!(nopanic("from_bytes", || (Signature::from_bytes(&vec![1; *l]).is_ok(), VerKey::from_bytes(&vec![1; *l]).is_ok(), SignKey::new(Some(&vec![1; *l])).is_ok())).is_ok(), "decoding"); }
    Ok(())
}
// ---------------------------------------------------------------- U03
fn order() -> BigInt { BigInt::parse_bytes(b"2523648240000001BA344D8000000007FF9F800000000010A10000000000000D", 16).unwrap() }
fn sc(x: &BigInt) -> S { let b = x.to_bytes_be().1; S::from_bytes(&b).unwrap() }
fn si(x: &S) -> BigInt { BigInt::from_bytes_be(Sign::Plus, &x.to_bytes().unwrap()) }
fn rs(r: &mut R) -> BigInt { let q = order(); match r.gen_range(0, 8) { 0 => BigInt::zero(), 1 => BigInt::one(), 2 => &q - 1u8, 3 => BigInt::from(r.gen::<u32>()), 4 => &q - BigInt::from(r.gen::<u32>()), _ => BigInt::from_bytes_be(Sign::Plus, &bytes(r, 40)).mod_floor(&q) } }
fn scalars(r: &mut R, _c: u32) -> Out {
    let q = order(); let e = |x: ursa::errors::UrsaCryptoError| format!("{:?}", x);
    for _ in 0..600 {
        let (x, y) = (rs(r), rs(r)); let (a, b) = (sc(&x), sc(&y));
        let chk = |what: &str, g: S, w: BigInt| -> Out { ensure!(si(&g) == w, "{} of {} and {}: got {} want {}", what, x, y, si(&g), w); Ok(()) };
        chk("from_bytes", a, x.clone())?; chk("add_mod", a.add_mod(&b).map_err(e)?, (&x + &y).mod_floor(&q))?; chk("sub_mod", a.sub_mod(&b).map_err(e)?, (&x - &y).mod_floor(&q))?;
        chk("mul_mod", a.mul_mod(&b).map_err(e)?, (&x * &y).mod_floor(&q))?; chk("mod_neg", a.mod_neg().map_err(e)?, (-&x).mod_floor(&q))?; chk("pow_mod", a.pow_mod(&b).map_err(e)?, x.modpow(&y, &q))?;
        if !x.is_zero() { chk("inverse", a.inverse().map_err(e)?, x.modpow(&(&q - 2u8), &q))?; }
        chk("text", S::from_string(&a.to_string().map_err(e)?).map_err(e)?, x.clone())?; chk("json", serde_json::from_str(&serde_json::to_string(&a).unwrap()).unwrap(), x.clone())?;
        ensure!(si(&S::new().map_err(e)?) < q, "random scalar out of range");
    }
    Ok(())
}
fn points(r: &mut R, _c: u32) -> Out {
    let e = |x: ursa::errors::UrsaCryptoError| format!("{:?}", x); let q = order();
    let (x, y) = (rs(r), rs(r)); let (a, b) = (sc(&x), sc(&y)); let s = sc(&(&x + &y).mod_floor(&q)); let d = sc(&(&x - &y).mod_floor(&q));
    let (g, h) = (PointG1::new().map_err(e)?, PointG2::new().map_err(e)?);
    macro_rules! grp { ($g:expr, $inf:expr, $t:ty, $nm:expr) => { let g = $g; let inf = $inf; let (p, t) = (g.mul(&a).map_err(e)?, g.mul(&b).map_err(e)?);
        ensure!(p.add(&t).map_err(e)? == g.mul(&s).map_err(e)?, "{}: {} g + {} g", $nm, x, y); ensure!(p.sub(&t).map_err(e)? == g.mul(&d).map_err(e)?, "{}: {} g - {} g", $nm, x, y);
        ensure!(p.neg().map_err(e)?.add(&p).map_err(e)? == inf && p.add(&inf).map_err(e)? == p && p.sub(&p).map_err(e)? == inf && p.add(&p).map_err(e)? == g.mul(&sc(&(&x * 2u8).mod_floor(&q))).map_err(e)?, "{}: laws at {}", $nm, x);
        ensure!(p.mul(&b).map_err(e)? == g.mul(&sc(&(&x * &y).mod_floor(&q))).map_err(e)?, "{}: powers", $nm);
        for v in &[p, t, g, inf] { ensure!(<$t>::from_bytes(&v.to_bytes().map_err(e)?).map_err(e)? == *v, "{}: bytes of {:?}", $nm, v); ensure!(<$t>::from_string(&v.to_string().map_err(e)?).map_err(e)? == *v, "{}: text", $nm); ensure!(serde_json::from_str::<$t>(&serde_json::to_string(v).unwrap()).unwrap() == *v, "{}: json", $nm); }
        for l in &[0usize, 1, <$t>::BYTES_REPR_SIZE - 1, <$t>::BYTES_REPR_SIZE + 1] { ensure!(nopanic("from_bytes", || <$t>::from_bytes(&vec![3; *l]))?.is_err(), "{}: {} bytes decoded", $nm, l); }
    } }
    grp!(g, PointG1::new_inf().map_err(e)?, PointG1, "G1"); grp!(h, PointG2::new_inf().map_err(e)?, PointG2, "G2");
    ensure!(PointG1::new_inf().map_err(e)?.is_inf().map_err(e)? && !g.is_inf().map_err(e)?, "infinity");
    let hb = bytes(r, 32); ensure!(PointG1::from_hash(&hb).map_err(e)? == PointG1::from_hash(&hb).map_err(e)?, "hash to point is not a function");
    ensure!(PointG1::from_hash(&hb).map_err(e)?.mul(&sc(&(&q - 1u8))).map_err(e)? == PointG1::from_hash(&hb).map_err(e)?.neg().map_err(e)?, "hash to point gives a point of another order");
    let base = Pair::pair(&g, &h).map_err(e)?; ensure!(!base.is_unity().map_err(e)?, "pairing of generators is one");
    let xy = base.pow(&sc(&(&x * &y).mod_floor(&q))).map_err(e)?;
    ensure!(Pair::pair(&g.mul(&a).map_err(e)?, &h.mul(&b).map_err(e)?).map_err(e)? == xy, "pairing is not bilinear at {} {}", x, y);
    let p2 = Pair::pair2(&g.mul(&a).map_err(e)?, &h, &g, &h.mul(&b).map_err(e)?).map_err(e)?; ensure!(p2 == base.pow(&s).map_err(e)?, "pair2 is not the product");
    ensure!(base.pow(&a).map_err(e)?.mul(&base.pow(&b).map_err(e)?).map_err(e)? == base.pow(&s).map_err(e)?, "product of powers"); ensure!(xy.mul(&xy.inverse().map_err(e)?).map_err(e)?.is_unity().map_err(e)?, "inverse");
    ensure!(Pair::from_string(&xy.to_string().map_err(e)?).map_err(e)? == xy && serde_json::from_str::<Pair>(&serde_json::to_string(&xy).unwrap()).unwrap() == xy, "text of a pair");
    Ok(())
}
pub fn all() -> Vec<Sc> {
    let s = |prop, name, quick, thorough, f| Sc { prop, name, quick, thorough, f };
    vec![s("K01", "x25519", 20, 600, kx25519 as fn(&mut R, u32) -> Out), s("K01", "secp256k1", 20, 600, kxsecp), s("K01", "seeds", 1, 1, kats), s("K01", "x25519 lengths", 4, 40, xlens), s("K01", "secp256k1 lengths", 4, 40, slens), s("U01", "shamir", 48, 1500, shamir), s("U01", "agree", 60, 2000, agree),
        s("U02", "bls", 10, 200, bls), s("U03", "scalars", 20, 1000, scalars), s("U03", "points", 16, 400, points)]
}
