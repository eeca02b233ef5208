//! R03: the range, non-zero, set membership and set non-membership gadgets. The completeness side uses the
//! public prove/verify functions; the soundness side lets a dishonest prover choose every value that the
//! circuit leaves to it.
use crate::r1cs::{gens, quantity, Gens};
use crate::*;
use bulletproofs_amcl::r1cs::gadgets::bound_check::*;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::bit::bit_gadget;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::non_zero::is_nonzero_gadget;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::vector_sum::vector_sum_constraints;
use bulletproofs_amcl::r1cs::gadgets::non_zero::*;
use bulletproofs_amcl::r1cs::gadgets::set_membership::*;
use bulletproofs_amcl::r1cs::gadgets::set_membership_alt::*;
use bulletproofs_amcl::r1cs::gadgets::set_non_membership::*;
use bulletproofs_amcl::r1cs::{Prover, R1CSProof, Variable};
use merlin::Transcript;
use rand::rngs::StdRng;
const T: &[u8] = b"gadget";
/// all 64 bits, where `FieldElement::from` keeps 58
fn f64(x: u64) -> FE { FE::from((x >> 32) as u32) * FE::from(1u64 << 32) + FE::from(x as u32) }
type P = (R1CSProof, Vec<G1>);
fn er<X, E: std::fmt::Debug>(w: &str, x: Result<X, E>) -> Result<X, String> { x.map_err(|e| format!("{}: {:?}", w, e)) }
fn blind(r: &mut R, v: &mut Vec<FE>) -> Option<FE> { if coin(r) { let b = fer(r); v.push(b.clone()); Some(b) } else { None } }
/// the first commitment opens to `value` when the blinding was given
fn opens(g: &Gens, value: &FE, b: &[FE], c: &G1) -> bool { b.is_empty() || c == &(&(&g.g * value) + &(&g.h * &b[0])) }
/// a prover that commits to the values given and runs the gadget itself
fn forge(g: &Gens, values: &[FE], f: impl FnOnce(&mut Prover, &[Variable]) -> Result<(), String>) -> Result<P, String> {
    let mut t = Transcript::new(T);
    let mut p = Prover::new(&g.g, &g.h, &mut t);
    let mut com = vec![]; let mut vs = vec![];
    for v in values { let (c, x) = p.commit(v.clone(), FE::random()); com.push(c); vs.push(x); }
    f(&mut p, &vs)?;
    Ok((er("prove", nopanic("prove", || p.prove(&g.gv, &g.hv))?)?, com))
}
fn bounds(r: &mut R) -> (u64, u64, usize) {
    let n = [1, 2, 3, 8, 13, 32, 63, 64][r.gen_range(0, 8)];
    let top = if n == 64 { u64::max_value() } else { (1u64 << n) - 1 };
    let w = match r.gen_range(0, 4) { 0 => top, 1 => 0, _ => if top == u64::max_value() { r.gen() } else { r.gen_range(0, top + 1) } };
    let lo = match r.gen_range(0, 3) { 0 => 0, 1 => u64::max_value() - w, _ => if w == u64::max_value() { 0 } else { r.gen_range(0, u64::max_value() - w) } };
    (lo, lo + w, n)
}
fn vrange(g: &Gens, lo: u64, hi: u64, n: usize, p: P) -> Result<bool, String> { nopanic("verify_proof_of_bounded_num", || verify_proof_of_bounded_num(lo, hi, n, p.0, p.1, T, &g.g, &g.h, &g.gv, &g.hv).is_ok()) }
fn range_in(r: &mut R, _case: u32) -> Out {
    let (lo, hi, n) = bounds(r); let g = gens(r, 2 * n.next_power_of_two());
    let v = match r.gen_range(0, 4) { 0 => lo, 1 => hi, _ => if hi == u64::max_value() { lo.max(r.gen()) } else { r.gen_range(lo, hi + 1) } };
    let mut b = vec![]; let bl = blind(r, &mut b); let mut rng = StdRng::clone(r);
    let p = er("gen_proof_of_bounded_num", nopanic("gen_proof_of_bounded_num", || gen_proof_of_bounded_num(v, bl, lo, hi, n, Some(&mut rng), T, &g.g, &g.h, &g.gv, &g.hv))?)?;
    ensure!(p.1.len() == 3 && opens(&g, &f64(v), &b, &p.1[0]), "the commitments of a range proof");
    ensure!(vrange(&g, lo, hi, n, (p.0.clone(), p.1.clone()))?, "{} in [{}, {}] with {} bits is refused", v, lo, hi, n);
    if lo > 0 { ensure!(!vrange(&g, lo - 1, hi, n, (p.0.clone(), p.1.clone()))?, "the proof is accepted for a lower bound one less"); }
    if hi > lo { ensure!(!vrange(&g, lo, hi - 1, n, (p.0.clone(), p.1.clone()))?, "the proof is accepted for an upper bound one less"); }
    let mut c = p.1.clone(); c[0] = &c[0] + &g.g; ensure!(!vrange(&g, lo, hi, n, (p.0.clone(), c))?, "another commitment is accepted");
    Ok(())
}
fn range_out(r: &mut R, case: u32) -> Out {
    let (lo, hi, n) = bounds(r); let g = gens(r, 2 * n.next_power_of_two());
    let (fl, fh) = (f64(lo), f64(hi));
    // outside: below, above, far away
    let v = match case % 4 { 0 => &fl - &FE::one(), 1 => &fh + &FE::one(), 2 => &fh + &fenz(r), _ => &fl - &f64(r.gen::<u32>() as u64 + 1) };
    let inside = { let d = &v - &fl; let e = &fh - &v; d.to_bytes()[..40].iter().all(|x| *x == 0) && e.to_bytes()[..40].iter().all(|x| *x == 0) };
    if inside { return Ok(()); }
    // every way to split the difference that the commitments allow
    let cands = vec![(&v - &fl, &fh - &v), (FE::zero(), &fh - &fl), (&fh - &fl, FE::zero()), (&v - &fl, f64(hi - lo)), (f64(hi - lo), &fh - &v)];
    for (a, b) in cands {
        let p = forge(&g, &[v.clone(), a.clone(), b.clone()], |p, x| er("gadget", bound_check_gadget(p, quantity(x[0], Some(v.clone())), quantity(x[1], Some(a.clone())), quantity(x[2], Some(b.clone())), hi, lo, n)))?;
        ensure!(!vrange(&g, lo, hi, n, p)?, "a value outside [{}, {}] is accepted with {} bits", lo, hi, n);
    }
    Ok(())
}
fn vnz(g: &Gens, p: P) -> Result<bool, String> { nopanic("verify_proof_of_non_zero_val", || verify_proof_of_non_zero_val(p.0, p.1, T, &g.g, &g.h, &g.gv, &g.hv).is_ok()) }
fn non_zero(r: &mut R, _case: u32) -> Out {
    let g = gens(r, 2); let v = fenz(r); let mut b = vec![]; let bl = blind(r, &mut b); let mut rng = StdRng::clone(r);
    let p = er("gen_proof_of_non_zero_val", gen_proof_of_non_zero_val(v.clone(), bl, Some(&mut rng), T, &g.g, &g.h, &g.gv, &g.hv))?;
    ensure!(opens(&g, &v, &b, &p.1[0]), "the commitment of a non-zero proof");
    ensure!(vnz(&g, p)?, "a non-zero value is refused");
    for inv in vec![FE::zero(), FE::one(), fe(r)] {
        let p = forge(&g, &[FE::zero(), inv], |p, x| er("gadget", is_nonzero_gadget(p, x[0], x[1])))?;
        ensure!(!vnz(&g, p)?, "zero is accepted as non-zero");
    }
    Ok(())
}
fn set(r: &mut R, case: u32) -> Vec<FE> {
    let n = [1usize, 2, 3, 4, 5, 8, 11][case as usize % 7];
    let mut s: Vec<FE> = vec![]; while s.len() < n { let x = fe(r); if s.iter().all(|y| !feq(y, &x)) { s.push(x); } } s
}
fn outside(r: &mut R, s: &[FE]) -> FE { loop { let x = fe(r); if s.iter().all(|y| !feq(y, &x)) { return x; } } }
fn vmem(g: &Gens, s: &[FE], p: P) -> Result<bool, String> { nopanic("verify_proof_of_set_membership", || verify_proof_of_set_membership(s, p.0, p.1, T, &g.g, &g.h, &g.gv, &g.hv).is_ok()) }
fn member(r: &mut R, case: u32) -> Out {
    let s = set(r, case); let n = s.len(); let g = gens(r, n.next_power_of_two());
    let v = s[r.gen_range(0, n)].clone(); let mut b = vec![]; let bl = blind(r, &mut b); let mut rng = StdRng::clone(r);
    let p = er("gen_proof_of_set_membership", gen_proof_of_set_membership(v.clone(), bl, &s, Some(&mut rng), T, &g.g, &g.h, &g.gv, &g.hv))?;
    ensure!(p.1.len() == n + 1 && opens(&g, &v, &b, &p.1[0]), "the commitments of a membership proof");
    ensure!(vmem(&g, &s, (p.0.clone(), p.1.clone()))?, "a member of a set of {} is refused", n);
    let mut s2 = s.clone(); let i = r.gen_range(0, n); s2[i] = outside(r, &s); ensure!(!vmem(&g, &s2, p)?, "the proof is accepted for another set");
    let v = outside(r, &s);
    let mut rng = StdRng::clone(r);
    let p = er("gen_proof_of_set_membership", gen_proof_of_set_membership(v.clone(), None, &s, Some(&mut rng), T, &g.g, &g.h, &g.gv, &g.hv))?;
    ensure!(!vmem(&g, &s, p)?, "a value outside a set of {} is accepted as a member", n);
    // a difference of zero where there is none
    for i in 0..n {
        let ds: Vec<FE> = (0..n).map(|k| if k == i { FE::zero() } else { &s[k] - &v }).collect();
        let mut vals = vec![v.clone()]; vals.extend(ds);
        let p = forge(&g, &vals, |p, x| er("gadget", set_membership_gadget(p, x[0], x[1..].to_vec(), &s)))?;
        ensure!(!vmem(&g, &s, p)?, "a value outside a set of {} is accepted with difference {} zero", n, i);
    }
    Ok(())
}
fn vnon(g: &Gens, s: &[FE], p: P) -> Result<bool, String> { nopanic("verify_proof_of_set_non_membership", || verify_proof_of_set_non_membership(s, p.0, p.1, T, &g.g, &g.h, &g.gv, &g.hv).is_ok()) }
fn non_member(r: &mut R, case: u32) -> Out {
    let mut s = set(r, case); if case % 9 == 8 { s.clear(); } let n = s.len(); let g = gens(r, (2 * n).next_power_of_two());
    let v = outside(r, &s); let mut b = vec![]; let bl = blind(r, &mut b); let mut rng = StdRng::clone(r);
    let p = er("gen_proof_of_set_non_membership", gen_proof_of_set_non_membership(v.clone(), bl, &s, Some(&mut rng), T, &g.g, &g.h, &g.gv, &g.hv))?;
    ensure!(p.1.len() == 2 * n + 1 && opens(&g, &v, &b, &p.1[0]), "the commitments of a non-membership proof");
    ensure!(vnon(&g, &s, p)?, "a value outside a set of {} is refused", n);
    for i in 0..n {
        let v = s[i].clone(); let wrong = fenz(r);
        for d in vec![FE::zero(), wrong] {
            let mut vals = vec![v.clone()];
            for k in 0..n { let x = if k == i { d.clone() } else { &s[k] - &v }; vals.push(x.clone()); vals.push(if x.is_zero() { fe(r) } else { x.inverse() }); }
            let p = forge(&g, &vals, |p, x| er("gadget", set_non_membership_gadget(p, x[0], (0..n).map(|k| x[1 + 2 * k]).collect(), (0..n).map(|k| x[2 + 2 * k]).collect(), &s)))?;
            ensure!(!vnon(&g, &s, p)?, "element {} of a set of {} is accepted as outside", i, n);
        }
    }
    Ok(())
}
fn valt(g: &Gens, s: &[u64], p: P) -> Result<bool, String> { nopanic("verify_proof_of_set_membership_alt", || verify_proof_of_set_membership_alt(s, p.0, p.1, T, &g.g, &g.h, &g.gv, &g.hv).is_ok()) }
fn member_alt(r: &mut R, case: u32) -> Out {
    let n = [1usize, 2, 3, 5, 8][case as usize % 5]; let g = gens(r, (3 * n).next_power_of_two());
    let mut s: Vec<u64> = vec![]; while s.len() < n { let x = if coin(r) { r.gen() } else { r.gen_range(1, 40) }; if !s.contains(&x) { s.push(x); } }
    if coin(r) { let i = r.gen_range(0, n); s[i] = 0; }
    let i = r.gen_range(0, n); let v = s[i]; let mut b = vec![]; let bl = blind(r, &mut b); let mut rng = StdRng::clone(r);
    let p = er("gen_proof_of_set_membership_alt", gen_proof_of_set_membership_alt(v, bl, &s, Some(&mut rng), T, &g.g, &g.h, &g.gv, &g.hv))?;
    ensure!(opens(&g, &f64(v), &b, &p.1[n]), "the commitment of an alternative membership proof");
    ensure!(valt(&g, &s, (p.0.clone(), p.1.clone()))?, "a member of a set of {} is refused (alternative)", n);
    // a dishonest prover: committed toggles and the values given to the products are its own choice
    let small = r.gen_range(1, 60u64);
    let bad = |x: &FE| s.iter().all(|y| !feq(&f64(*y), x));
    for v in vec![FE::zero(), f64(small), fe(r)] {
        if !bad(&v) { continue; }
        let one_hot = |k: usize| -> Vec<FE> { (0..n).map(|j| if j == k { FE::one() } else { FE::zero() }).collect() };
        for (tog, used) in vec![(one_hot(i), vec![FE::zero(); n]), (one_hot(i), one_hot(i)), (vec![FE::zero(); n], vec![FE::zero(); n]), (one_hot(0), (0..n).map(|j| if s[j] == 0 { FE::zero() } else { &v * &f64(s[j]).inverse() }).collect())] {
            let mut vals = tog.clone(); vals.push(v.clone());
            // the verifier runs the bit gadget between the commitments: keep that order
            let mut t = Transcript::new(T); let mut p = Prover::new(&g.g, &g.h, &mut t); let mut com = vec![]; let mut tv = vec![]; let mut qs = vec![];
            for j in 0..n { let (c, x) = p.commit(tog[j].clone(), FE::random()); com.push(c); tv.push(x); er("bit", bit_gadget(&mut p, &quantity(x, Some(tog[j].clone()))))?; qs.push(quantity(x, Some(used[j].clone()))); }
            vector_sum_constraints(&mut p, tv, 1);
            let (c, x) = p.commit(v.clone(), FE::random()); com.push(c);
            er("product", vector_product_gadget(&mut p, &s, &qs, &quantity(x, Some(v.clone()))))?;
            let pr = er("prove", nopanic("prove", || p.prove(&g.gv, &g.hv))?)?;
            ensure!(!valt(&g, &s, (pr, com))?, "a value outside {:?} is accepted as a member (alternative, zero: {})", s, v.is_zero());
        }
    }
    Ok(())
}
fn short(r: &mut R, _case: u32) -> Out {
    // fewer commitments than the gadget needs are an error, not a panic
    let g = gens(r, 8); let s: Vec<FE> = vec![FE::from(3u64), FE::from(5u64)];
    let mut rng = StdRng::clone(r);
    let p = er("gen", gen_proof_of_set_membership(s[0].clone(), None, &s, Some(&mut rng), T, &g.g, &g.h, &g.gv, &g.hv))?;
    for k in 0..3 {
        let c = p.1[..k].to_vec();
        ensure!(!vmem(&g, &s, (p.0.clone(), c.clone()))?, "{} commitments are enough for a set of two", k);
        ensure!(!vnon(&g, &s, (p.0.clone(), c.clone()))?, "{} commitments are enough for non-membership", k);
        ensure!(!valt(&g, &[3, 5], (p.0.clone(), c.clone()))?, "{} commitments are enough for alternative membership", k);
        if k < 3 { ensure!(!vrange(&g, 1, 5, 3, (p.0.clone(), c.clone()))?, "{} commitments are enough for a range", k); }
        if k < 2 { ensure!(!vnz(&g, (p.0.clone(), c))?, "{} commitments are enough for non-zero", k); }
    }
    Ok(())
}
pub fn all() -> Vec<Sc> {
    vec![
        Sc { prop: "R03", name: "range_inside", quick: 24, thorough: 250, f: range_in },
        Sc { prop: "R03", name: "range_outside", quick: 24, thorough: 200, f: range_out },
        Sc { prop: "R03", name: "non_zero", quick: 20, thorough: 200, f: non_zero },
        Sc { prop: "R03", name: "set_member", quick: 14, thorough: 150, f: member },
        Sc { prop: "R03", name: "set_non_member", quick: 18, thorough: 150, f: non_member },
        Sc { prop: "R03", name: "set_member_alt", quick: 15, thorough: 150, f: member_alt },
        Sc { prop: "R03", name: "few_commitments", quick: 1, thorough: 1, f: short },
    ]
}
