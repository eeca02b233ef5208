//! U04: the big-number wrapper against num-bigint.
use hcommon::*;
use num_bigint::{BigInt, Sign};
use num_integer::Integer;
use num_traits::{One, Zero, Signed};
use rand::Rng;
use ursa::bn::BigNumber as B;

fn nat(r: &mut R) -> BigInt {
    match r.gen_range(0, 9) {
        0 => BigInt::from(r.gen_range(0u32, 4)),
        1 => BigInt::from(r.gen::<u8>()),
        2 => BigInt::from(r.gen::<u32>()),
        3 => (BigInt::one() << r.gen_range(0usize, 300)) - r.gen_range(0i32, 2),
        4 => (BigInt::one() << (64 * r.gen_range(1usize, 5))) + r.gen_range(-1i32, 2),
        5 => BigInt::from(r.gen::<u64>()),
        _ => { let n = r.gen_range(1usize, 80); let v: Vec<u8> = (0..n).map(|_| r.gen()).collect(); BigInt::from_bytes_be(Sign::Plus, &v) }
    }
}
fn int(r: &mut R) -> BigInt { let v = nat(r); if r.gen() { -v } else { v } }
fn pos(r: &mut R) -> BigInt { let v = nat(r); if v.is_zero() { BigInt::one() } else { v } }
fn b(x: &BigInt) -> B { B::from_dec(&x.to_string()).unwrap() }
fn i(x: &B) -> BigInt { x.to_dec().unwrap().parse().unwrap() }
fn eq(what: &str, got: &B, want: &BigInt, args: &[&BigInt]) -> Out { ensure!(i(got) == *want, "{} of {:?}: got {} want {}", what, args.iter().map(|x| x.to_string()).collect::<Vec<_>>(), i(got), want); Ok(()) }
fn ctx<T>(r: &mut R, f: impl Fn(Option<&mut ursa::bn::BigNumberContext>) -> T) -> T { if r.gen() { let mut c = B::new_context().unwrap(); f(Some(&mut c)) } else { f(None) } }
fn nn(a: &BigInt, n: &BigInt) -> BigInt { a.mod_floor(&n.abs()) }

fn arith(r: &mut R, _c: u32) -> Out {
    for _ in 0..40 {
        let (x, y) = (int(r), int(r)); let (p, q) = (b(&x), b(&y)); let a = &[&x, &y][..];
        eq("add", &p.add(&q).unwrap(), &(&x + &y), a)?; eq("sub", &p.sub(&q).unwrap(), &(&x - &y), a)?;
        eq("mul", &ctx(r, |c| p.mul(&q, c)).unwrap(), &(&x * &y), a)?; eq("sqr", &ctx(r, |c| p.sqr(c)).unwrap(), &(&x * &x), a)?;
        if !y.is_zero() { eq("div", &ctx(r, |c| p.div(&q, c)).unwrap(), &(&x / &y), a)?; } else { ensure!(ctx(r, |c| p.div(&q, c)).is_err(), "division by zero"); }
        eq("gcd", &B::gcd(&p, &q, None).unwrap(), &x.gcd(&y), a)?;
        let w = r.gen::<u32>() >> r.gen_range(0, 32); let wb = BigInt::from(w); let a = &[&x, &wb][..];
        let mut m = b(&x); m.add_word(w).unwrap(); eq("add_word", &m, &(&x + &wb), a)?;
        let mut m = b(&x); m.sub_word(w).unwrap(); eq("sub_word", &m, &(&x - &wb), a)?;
        let mut m = b(&x); m.mul_word(w).unwrap(); eq("mul_word", &m, &(&x * &wb), a)?;
        if w > 0 { let mut m = b(&x); m.div_word(w).unwrap(); eq("div_word", &m, &(&x / &wb), a)?; }
        eq("increment", &p.increment().unwrap(), &(&x + 1), &[&x])?; eq("decrement", &p.decrement().unwrap(), &(&x - 1), &[&x])?;
        eq("set_negative", &p.set_negative(true).unwrap(), &-x.abs(), &[&x])?; eq("set_negative", &p.set_negative(false).unwrap(), &x.abs(), &[&x])?;
        ensure!(p.is_negative() == x.is_negative(), "is_negative of {}", x);
        eq("try_clone", &p.try_clone().unwrap(), &x, &[&x])?;
        let e = r.gen_range(0u32, 12); let z = BigInt::from(r.gen_range(-300i64, 300));
        eq("exp", &ctx(r, |c| b(&z).exp(&b(&BigInt::from(e)), c)).unwrap(), &num_traits::pow(z.clone(), e as usize), &[&z, &BigInt::from(e)])?;
    }
    Ok(())
}
fn modular(r: &mut R, _c: u32) -> Out {
    for _ in 0..40 {
        let (x, y) = (int(r), int(r)); let n = pos(r); let (p, q, m) = (b(&x), b(&y), b(&n)); let a = &[&x, &y, &n][..];
        eq("modulus", &ctx(r, |c| p.modulus(&m, c)).unwrap(), &nn(&x, &n), a)?;
        eq("mod_mul", &ctx(r, |c| p.mod_mul(&q, &m, c)).unwrap(), &nn(&(&x * &y), &n), a)?;
        eq("mod_sub", &ctx(r, |c| p.mod_sub(&q, &m, c)).unwrap(), &nn(&(&x - &y), &n), a)?;
        let yy = y.abs(); let g = nn(&x, &n).gcd(&n);
        eq("mod_exp", &ctx(r, |c| p.mod_exp(&b(&yy), &m, c)).unwrap(), &(if n.is_one() { BigInt::zero() } else { nn(&x, &n).modpow(&yy, &n) }), &[&x, &yy, &n])?;
        if n > BigInt::one() {
            let inv = ctx(r, |c| p.inverse(&m, c));
            if g.is_one() {
                let v = i(&inv.unwrap()); ensure!(nn(&(&v * &x), &n).is_one() && !v.is_negative() && v < n, "inverse of {} modulo {} is {}", x, n, v);
                if yy.bits() < 300 && !yy.is_zero() { eq("mod_exp", &ctx(r, |c| p.mod_exp(&b(&-yy.clone()), &m, c)).unwrap(), &v.modpow(&yy, &n), &[&x, &-yy.clone(), &n])?; }
                eq("mod_div", &ctx(r, |c| q.mod_div(&p, &m, c)).unwrap(), &nn(&(&y * &v), &n), &[&y, &x, &n])?;
            } else { ensure!(inv.is_err(), "{} has an inverse modulo {}", x, n); ensure!(ctx(r, |c| q.mod_div(&p, &m, c)).is_err(), "division by the non-unit {} modulo {}", x, n); }
        }
        let v = m.rand_range().unwrap(); ensure!(!v.is_negative() && i(&v) < n, "rand_range of {} gave {}", n, i(&v));
    }
    Ok(())
}
fn bits(r: &mut R, _c: u32) -> Out {
    for _ in 0..40 {
        let (x, y) = (int(r), int(r)); let (p, q) = (b(&x), b(&y));
        ensure!(p.cmp(&q) == x.cmp(&y) && (p == q) == (x == y) && p.partial_cmp(&q) == Some(x.cmp(&y)), "comparison of {} and {}", x, y);
        ensure!(p.num_bits().unwrap() == x.bits() as i32, "num_bits of {}", x);
        let k = r.gen_range(0usize, 320); let set = (x.abs() >> k).is_odd();
        ensure!(p.is_bit_set(k as i32).unwrap() == set, "bit {} of {}", k, x);
        let mut m = b(&x.abs()); m.set_bit(k as i32).unwrap(); eq("set_bit", &m, &(if set { x.abs() } else { x.abs() + (BigInt::one() << k) }), &[&x, &BigInt::from(k)])?;
        eq("lshift1", &p.lshift1().unwrap(), &(&x * 2), &[&x])?; eq("rshift1", &p.rshift1().unwrap(), &(&x / 2), &[&x])?;
        eq("rshift", &p.rshift(k as u32).unwrap(), &(&x / (BigInt::one() << k)), &[&x, &BigInt::from(k)])?;
    }
    Ok(())
}
fn conv(r: &mut R, _c: u32) -> Out {
    for _ in 0..40 {
        let x = nat(r); let p = b(&x);
        ensure!(p.to_dec().unwrap() == x.to_string(), "decimal of {}", x);
        let h = p.to_hex().unwrap(); ensure!(BigInt::parse_bytes(h.as_bytes(), 16).unwrap() == x, "hex {} of {}", h, x);
        eq("from_hex", &B::from_hex(&h).unwrap(), &x, &[&x])?; eq("from_dec", &B::from_dec(&p.to_dec().unwrap()).unwrap(), &x, &[&x])?;
        let by = p.to_bytes().unwrap(); ensure!(BigInt::from_bytes_be(Sign::Plus, &by) == x, "bytes of {}", x);
        eq("from_bytes", &B::from_bytes(&by).unwrap(), &x, &[&x])?;
        let mut z = vec![0u8; r.gen_range(0, 4)]; z.extend_from_slice(&by); eq("from_bytes (padded)", &B::from_bytes(&z).unwrap(), &x, &[&x])?;
        let js = serde_json::to_string(&p).unwrap(); eq("json", &serde_json::from_str::<B>(&js).unwrap(), &x, &[&x])?;
        let n = nat(r); let js = serde_json::to_string(&b(&-n.clone())).unwrap(); eq("json", &serde_json::from_str::<B>(&js).unwrap(), &-n, &[])?;
        let u = r.gen::<u32>(); eq("from_u32", &B::from_u32(u as usize).unwrap(), &BigInt::from(u), &[])?;
    }
    for bad in &["", "x", "12z", "0x1g"] { ensure!(nopanic("from_dec", || B::from_dec(bad)).is_ok(), "from_dec"); ensure!(nopanic("from_hex", || B::from_hex(bad)).is_ok(), "from_hex"); }
    Ok(())
}
fn primes(r: &mut R, c: u32) -> Out {
    let isp = |n: u32| n > 1 && (2..).take_while(|d| d * d <= n).all(|d| n % d != 0);
    for k in 0..400u32 {
        let n = if c == 0 { k } else { r.gen_range(0, 200_000) };
        ensure!(ctx(r, |c| B::from_u32(n as usize).unwrap().is_prime(c)).unwrap() == isp(n), "is_prime({})", n);
        ensure!(ctx(r, |c| B::from_u32(n as usize).unwrap().is_safe_prime(c)).unwrap() == (isp(n) && isp(n / 2)), "is_safe_prime({})", n);
    }
    let s = r.gen_range(20, 120); let p = B::generate_prime(s).unwrap(); ensure!(p.is_prime(None).unwrap() && p.num_bits().unwrap() == s as i32, "generate_prime({}) gave {}", s, i(&p));
    let s = r.gen_range(20, 60); let p = B::generate_safe_prime(s).unwrap(); ensure!(p.is_safe_prime(None).unwrap() && p.num_bits().unwrap() >= s as i32, "generate_safe_prime({}) gave {}", s, i(&p));
    let lo = pos(r) + 3; let hi = &lo + (BigInt::one() << r.gen_range(14usize, 80)); let p = i(&B::generate_prime_in_range(&b(&lo), &b(&hi)).unwrap());
    ensure!(p >= lo && p <= hi && b(&p).is_prime(None).unwrap(), "generate_prime_in_range({}, {}) gave {}", lo, hi, p);
    let s = r.gen_range(1usize, 200); let v = B::rand(s).unwrap(); ensure!(i(&v).bits() as usize <= s, "rand({}) gave {}", s, i(&v));
    let n = pos(r); let q = B::random_qr(&b(&n)).unwrap(); ensure!(i(&q) < n && !q.is_negative(), "random_qr");
    Ok(())
}
fn hashes(r: &mut R, _c: u32) -> Out {
    let parts: Vec<Vec<u8>> = (0..r.gen_range(0, 5)).map(|_| (0..r.gen_range(0, 70)).map(|_| r.gen()).collect()).collect();
    let all: Vec<u8> = parts.iter().flatten().cloned().collect();
    ensure!(B::hash_array(&parts).unwrap() == B::hash(&all).unwrap(), "hash of the parts is not that of their concatenation");
    ensure!(hex::encode(B::hash(b"abc").unwrap()) == "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad", "sha256 of abc");
    Ok(())
}
pub fn all() -> Vec<Sc> {
    let s = |name, quick, thorough, f| Sc { prop: "U04", name, quick, thorough, f };
    vec![s("arith", 40, 2000, arith), s("modular", 40, 2000, modular), s("bits", 40, 2000, bits), s("conv", 40, 2000, conv), s("primes", 6, 60, primes), s("hashes", 10, 200, hashes)]
}
