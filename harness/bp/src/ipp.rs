use crate::*;
use bulletproofs_amcl::ipp::{InnerProductArgumentProof, IPP};
use merlin::Transcript;
struct I { n: usize, gf: FEV, hf: FEV, g: G1Vector, h: G1Vector, u: G1, a: FEV, b: FEV }
fn inst(r: &mut R, n: usize) -> I {
    let plain = coin(r);
    let ones = |r: &mut R| -> FEV { if plain { let v = vec![FE::one(); n]; v.into() } else { fev(r, n) } };
    I { n, gf: ones(r), hf: ones(r), g: g1v(r, n), h: g1v(r, n), u: g1(r), a: fev(r, n), b: fev(r, n) }
}
/// P = sum a_i gf_i G_i + sum b_i hf_i H_i + <a,b> u, computed directly
fn commitment(x: &I) -> G1 {
    let mut p = G1::identity(); let mut c = FE::zero();
    for i in 0..x.n {
        p = &p + &(&x.g.as_slice()[i] * &(&x.a[i] * &x.gf[i]));
        p = &p + &(&x.h.as_slice()[i] * &(&x.b[i] * &x.hf[i]));
        c = &c + &(&x.a[i] * &x.b[i]);
    }
    &p + &(&x.u * &c)
}
fn t(l: &'static [u8]) -> Transcript { Transcript::new(l) }
fn prove(x: &I, l: &'static [u8]) -> InnerProductArgumentProof { IPP::create_ipp(&mut t(l), &x.u, &x.gf, &x.hf, &x.g, &x.h, &x.a, &x.b) }
fn verify(x: &I, p: &InnerProductArgumentProof, c: &G1, l: &'static [u8]) -> Result<bool, String> {
    nopanic("verify_ipp", || IPP::verify_ipp(x.n, &mut t(l), &x.gf, &x.hf, c, &x.u, &x.g, &x.h, &p.a, &p.b, &p.L, &p.R).is_ok())
}
const N: [usize; 8] = [1, 2, 4, 8, 1, 16, 2, 32];
fn honest(r: &mut R, case: u32) -> Out {
    let n = N[case as usize % N.len()];
    let x = inst(r, n); let c = commitment(&x);
    let p = nopanic("create_ipp", || prove(&x, b"ipp"))?;
    ensure!(1usize << p.L.len() == n && p.R.len() == p.L.len(), "{} rounds for length {}", p.L.len(), n);
    ensure!(verify(&x, &p, &c, b"ipp")?, "an honest argument of length {} is refused", n);
    ensure!(!verify(&x, &p, &(&c + &g1(r)), b"ipp")?, "another commitment is accepted (length {})", n);
    if n > 1 { ensure!(!verify(&x, &p, &c, b"other")?, "another transcript is accepted (length {})", n); }
    let mut q = p.clone(); q.a = &q.a + &fenz(r);
    ensure!(!verify(&x, &q, &c, b"ipp")? || (feq(&p.b, &FE::zero())), "another a is accepted (length {})", n);
    if n > 1 {
        let k = r.gen_range(0, p.L.len());
        let mut q = p.clone(); q.L[k] = &q.L[k] + &g1(r);
        ensure!(!verify(&x, &q, &c, b"ipp")?, "another L_{} is accepted (length {})", k, n);
        let mut q = p.clone(); q.R[k] = &q.R[k] + &g1(r);
        ensure!(!verify(&x, &q, &c, b"ipp")?, "another R_{} is accepted (length {})", k, n);
    }
    Ok(())
}
fn trunc(v: &G1Vector, k: usize) -> G1Vector { v.as_slice()[..k].to_vec().into() }
fn longer(r: &mut R, v: &G1Vector) -> G1Vector { let mut w = v.as_slice().to_vec(); w.push(g1(r)); w.into() }
fn lengths(r: &mut R, case: u32) -> Out {
    let n = [2, 4, 8, 1][case as usize % 4];
    let x = inst(r, n); let c = commitment(&x); let p = prove(&x, b"ipp"); let k = p.L.len();
    let mut bad: Vec<(&str, I, InnerProductArgumentProof)> = vec![];
    let cp = |x: &I| I { n: x.n, gf: x.gf.clone(), hf: x.hf.clone(), g: x.g.clone(), h: x.h.clone(), u: x.u.clone(), a: x.a.clone(), b: x.b.clone() };
    if k > 0 {
        let mut q = p.clone(); q.L = trunc(&p.L, k - 1); bad.push(("L shorter", cp(&x), q));
        let mut q = p.clone(); q.R = trunc(&p.R, k - 1); bad.push(("R shorter", cp(&x), q));
        let mut q = p.clone(); q.L = trunc(&p.L, k - 1); q.R = trunc(&p.R, k - 1); bad.push(("L and R shorter", cp(&x), q));
    }
    let mut q = p.clone(); q.L = longer(r, &p.L); bad.push(("L longer", cp(&x), q));
    let mut q = p.clone(); q.R = longer(r, &p.R); bad.push(("R longer", cp(&x), q));
    let mut y = cp(&x); y.n = n + 1; bad.push(("n one more", y, p.clone()));
    let mut y = cp(&x); y.n = 2 * n; bad.push(("n doubled", y, p.clone()));
    let mut y = cp(&x); y.g = longer(r, &x.g); bad.push(("G longer", y, p.clone()));
    let mut y = cp(&x); y.h = longer(r, &x.h); bad.push(("H longer", y, p.clone()));
    let mut y = cp(&x); y.g = trunc(&x.g, n - 1); bad.push(("G shorter", y, p.clone()));
    let mut y = cp(&x); y.h = trunc(&x.h, n - 1); bad.push(("H shorter", y, p.clone()));
    let mut y = cp(&x); y.gf = fev(r, n + 1); bad.push(("G factors longer", y, p.clone()));
    let mut y = cp(&x); y.hf = fev(r, n + 1); bad.push(("H factors longer", y, p.clone()));
    let mut y = cp(&x); y.gf = fev(r, n - 1); bad.push(("G factors shorter", y, p.clone()));
    let mut y = cp(&x); y.hf = fev(r, n - 1); bad.push(("H factors shorter", y, p.clone()));
    for (w, y, q) in bad.iter() { ensure!(!verify(y, q, &c, b"ipp").map_err(|e| format!("{} ({})", e, w))?, "accepted with {} (length {})", w, n); }
    Ok(())
}
/// s_i is the product over the bits of i of the challenge or its inverse
fn scalars(r: &mut R, case: u32) -> Out {
    let k = if case == 0 { 21 } else { case as usize % 11 };
    let n = 1usize << k;
    let (l, rr) = (g1v(r, k), g1v(r, k));
    let (sq, isq, s) = nopanic("verification_scalars", || IPP::verification_scalars(&l, &rr, n, &mut t(b"s")))?.map_err(|e| format!("verification_scalars: {:?}", e))?;
    ensure!(sq.len() == k && isq.len() == k && s.len() == n, "{} squares, {} inverse squares and {} scalars for {} rounds", sq.len(), isq.len(), s.len(), k);
    for i in 0..k { ensure!((&sq[i] * &isq[i]).is_one(), "square {} times inverse square is not one", i); }
    let mut p = FE::one(); for x in &sq { p = &p * x; }
    ensure!((&(&s[0] * &s[0]) * &p).is_one(), "s_0 is not the inverse of the product of the challenges");
    for i in 1..n {
        let top = (63 - (i as u64).leading_zeros()) as usize;
        if n <= 2048 || i.is_power_of_two() || (i + 1).is_power_of_two() || (i + 2).is_power_of_two() || r.gen_range(0, 2000) == 0 {
            ensure!(feq(&s[i], &(&s[i - (1 << top)] * &sq[k - 1 - top])), "s_{} of {} rounds", i, k);
        }
    }
    for i in 0..n.min(64) { ensure!((&s[i] * &s[n - 1 - i]).is_one(), "s_{} and s_{} are not inverse", i, n - 1 - i); }
    Ok(())
}
pub fn all() -> Vec<Sc> {
    vec![
        Sc { prop: "R01", name: "ipp_honest", quick: 32, thorough: 400, f: honest },
        Sc { prop: "R01", name: "ipp_lengths", quick: 12, thorough: 80, f: lengths },
        Sc { prop: "R01", name: "ipp_scalars", quick: 14, thorough: 40, f: scalars },
    ]
}
