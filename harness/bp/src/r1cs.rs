use crate::*;
use bulletproofs_amcl::r1cs::linear_combination::AllocatedQuantity;
use bulletproofs_amcl::r1cs::{ConstraintSystem, LinearCombination as LC, Prover, R1CSProof, RandomizedConstraintSystem, Variable, Verifier};
use merlin::Transcript;

pub struct Gens { pub g: G1, pub h: G1, pub gv: G1Vector, pub hv: G1Vector }
pub fn gens(r: &mut R, n: usize) -> Gens { Gens { g: g1(r), h: g1(r), gv: g1v(r, n), hv: g1v(r, n) } }

/// an expression over variables, built with the operators of the crate and evaluated here independently
#[derive(Clone)]
enum Ex { V(usize), K(FE), Add(Box<Ex>, Box<Ex>), Sub(Box<Ex>, Box<Ex>), Neg(Box<Ex>), Scale(FE, Box<Ex>), AddVar(FE, usize), SubVar(FE, usize), MulVar(FE, usize), AddAssign(Box<Ex>, usize), VAdd(usize, Box<Ex>), VSub(usize, Box<Ex>), VNeg(usize), Simp(Box<Ex>), Iter(Vec<(usize, FE)>) }
fn gen(r: &mut R, nv: usize, d: u32) -> Ex {
    use Ex::*;
    let v = |r: &mut R| r.gen_range(0, nv);
    match r.gen_range(0, if d == 0 { 6 } else { 15 }) {
        0 => V(v(r)), 1 => K(fe(r)), 2 => AddVar(fe(r), v(r)), 3 => SubVar(fe(r), v(r)), 4 => MulVar(fe(r), v(r)), 5 => VNeg(v(r)),
        6 | 7 => Add(Box::new(gen(r, nv, d - 1)), Box::new(gen(r, nv, d - 1))), 8 => Sub(Box::new(gen(r, nv, d - 1)), Box::new(gen(r, nv, d - 1))),
        9 => Neg(Box::new(gen(r, nv, d - 1))), 10 => Scale(fe(r), Box::new(gen(r, nv, d - 1))), 11 => AddAssign(Box::new(gen(r, nv, d - 1)), v(r)),
        12 => if coin(r) { VAdd(v(r), Box::new(gen(r, nv, d - 1))) } else { VSub(v(r), Box::new(gen(r, nv, d - 1))) },
        13 => Simp(Box::new(gen(r, nv, d - 1))), _ => { let k = range(r, 0, 4); Iter((0..k).map(|_| (v(r), fe(r))).collect()) }
    }
}
fn lc(e: &Ex, vs: &[Variable]) -> LC {
    use Ex::*;
    match e {
        V(i) => LC::from(vs[*i]), K(k) => LC::from(k.clone()), Add(a, b) => lc(a, vs) + lc(b, vs), Sub(a, b) => lc(a, vs) - lc(b, vs), Neg(a) => -lc(a, vs),
        Scale(k, a) => if k.is_odd() { k * lc(a, vs) } else { k.clone() * lc(a, vs) }, AddVar(k, i) => k.clone() + vs[*i], SubVar(k, i) => k.clone() - vs[*i], MulVar(k, i) => k.clone() * vs[*i],
        AddAssign(a, i) => { let mut x = lc(a, vs); x += vs[*i]; x }, VAdd(i, a) => vs[*i] + lc(a, vs), VSub(i, a) => vs[*i] - lc(a, vs), VNeg(i) => -vs[*i],
        Simp(a) => lc(a, vs).simplify(), Iter(t) => t.iter().map(|(i, k)| (vs[*i], k.clone())).collect(),
    }
}
fn val(e: &Ex, xs: &[FE]) -> FE {
    use Ex::*;
    match e {
        V(i) => xs[*i].clone(), K(k) => k.clone(), Add(a, b) => val(a, xs) + val(b, xs), Sub(a, b) => val(a, xs) - val(b, xs), Neg(a) => FE::zero() - val(a, xs),
        Scale(k, a) => k * &val(a, xs), AddVar(k, i) => k + &xs[*i], SubVar(k, i) => k - &xs[*i], MulVar(k, i) => k * &xs[*i],
        AddAssign(a, i) => val(a, xs) + &xs[*i], VAdd(i, a) => &xs[*i] + &val(a, xs), VSub(i, a) => &xs[*i] - &val(a, xs), VNeg(i) => FE::zero() - &xs[*i],
        Simp(a) => val(a, xs), Iter(t) => { let mut s = FE::zero(); for (i, k) in t { s = &s + &(k * &xs[*i]); } s }
    }
}
#[derive(Clone)]
enum Op { Alloc(FE), AllocMul(FE, FE), Single(FE), Mul(Ex, Ex), Con(Ex), Later(FE, FE) }
/// a circuit with `m` committed values; `xs` are the values of the variables in the order they arise
struct Circ { m: usize, ops: Vec<Op>, xs: Vec<FE>, consts: usize, mults: usize }
fn circuit(r: &mut R, size: usize) -> Circ {
    let m = range(r, 0, 4);
    let mut xs: Vec<FE> = vec![FE::one()]; // variable 0 is One
    for _ in 0..m { xs.push(fe(r)); }
    let mut ops = vec![]; let mut pend: Option<FE> = None; let mut consts = 0; let mut mults = 0;
    while mults < size || ops.is_empty() {
        match r.gen_range(0, if mults < size { 9 } else { 1 }) {
            1 | 2 => { let (a, b) = (fe(r), fe(r)); xs.push(a.clone()); xs.push(b.clone()); xs.push(&a * &b); ops.push(Op::AllocMul(a, b)); mults += 1; }
            3 => { let a = fe(r); xs.push(a.clone()); match pend.take() { None => { pend = Some(a.clone()); mults += 1; } Some(_) => {} } ops.push(Op::Alloc(a)); }
            4 => { let a = fe(r); xs.push(a.clone()); match pend.take() { None => { pend = Some(a.clone()); mults += 1; } Some(l) => { xs.push(&l * &a); } } ops.push(Op::Single(a)); }
            5 | 6 => { let (a, b) = (gen(r, xs.len(), 2), gen(r, xs.len(), 2)); let (x, y) = (val(&a, &xs), val(&b, &xs)); let z = &x * &y; xs.push(x); xs.push(y); xs.push(z); ops.push(Op::Mul(a, b)); mults += 1; }
            7 if coin(r) => { ops.push(Op::Later(fe(r), fe(r))); mults += 2; }
            _ => { let e = gen(r, xs.len(), 3); let v = val(&e, &xs); ops.push(Op::Con(Ex::Sub(Box::new(e), Box::new(Ex::K(v))))); consts += 1; }
        }
    }
    if consts == 0 { let e = gen(r, xs.len(), 3); let v = val(&e, &xs); ops.push(Op::Con(Ex::Sub(Box::new(e), Box::new(Ex::K(v))))); consts = 1; }
    Circ { m, ops, xs, consts, mults }
}
/// `off`: (index of a constraint, amount) added to it; the result is the variables of the circuit
fn build<C: ConstraintSystem>(cs: &mut C, c: &Circ, com: &[Variable], prover: bool, off: Option<(usize, FE)>) -> Result<Vec<Variable>, String> {
    let o = |x: &FE| if prover { Some(x.clone()) } else { None };
    let e = |x| format!("{:?}", x);
    let mut vs = vec![Variable::One()]; vs.extend_from_slice(com);
    let mut k = 0;
    for op in &c.ops {
        match op {
            Op::Alloc(a) => vs.push(cs.allocate(o(a)).map_err(e)?),
            Op::Single(a) => { let (v, w) = cs.allocate_single(o(a)).map_err(e)?; vs.push(v); if let Some(w) = w { vs.push(w); } }
            Op::AllocMul(a, b) => { let (x, y, z) = cs.allocate_multiplier(if prover { Some((a.clone(), b.clone())) } else { None }).map_err(e)?; vs.push(x); vs.push(y); vs.push(z); }
            Op::Mul(a, b) => { let (x, y, z) = cs.multiply(lc(a, &vs), lc(b, &vs)); vs.push(x); vs.push(y); vs.push(z); }
            Op::Con(a) => { let mut l = lc(a, &vs); if let Some((i, d)) = &off { if *i == k { l = l + d.clone(); } } cs.constrain(l); k += 1; }
            Op::Later(a, b) => {
                let (a, b) = (a.clone(), b.clone());
                cs.specify_randomized_constraints(move |cs| {
                    let z = cs.challenge_scalar(b"later");
                    // (a - z)(b - z) twice, in the two orders
                    let p = if prover { Some((&a - &z, &b - &z)) } else { None };
                    let (_, _, o1) = cs.allocate_multiplier(p)?;
                    let (_, _, o2) = cs.multiply(LC::from(b.clone()) - LC::from(z.clone()), LC::from(a.clone()) - LC::from(z.clone()));
                    cs.constrain(o1 - o2);
                    Ok(())
                }).map_err(e)?;
            }
        }
    }
    Ok(vs)
}
fn prove(r: &mut R, c: &Circ, g: &Gens, label: &'static [u8], off: Option<(usize, FE)>, check: bool) -> Result<(R1CSProof, Vec<G1>), String> {
    let mut t = Transcript::new(label);
    let mut p = Prover::new(&g.g, &g.h, &mut t);
    let mut com = vec![]; let mut vs = vec![];
    for i in 0..c.m { let bl = fe(r); let (v, x) = p.commit(c.xs[1 + i].clone(), bl.clone()); ensure!(v == &(&g.g * &c.xs[1 + i]) + &(&g.h * &bl), "commitment {}", i); com.push(v); vs.push(x); }
    let all = build(&mut p, c, &vs, true, off)?;
    if check {
        ensure!(all.len() == c.xs.len(), "{} variables, {} values", all.len(), c.xs.len());
        for (i, v) in all.iter().enumerate() { let x = p.evaluate_lc(&LC::from(*v)).ok_or("evaluate_lc gives nothing")?; ensure!(feq(&x, &c.xs[i]), "variable {} ({:?}) evaluates to something else", i, v); }
        for _ in 0..6 { let e = gen(r, all.len(), 4); let x = p.evaluate_lc(&lc(&e, &all)).ok_or("evaluate_lc gives nothing")?; ensure!(feq(&x, &val(&e, &c.xs)), "a linear combination evaluates to something else"); }
    }
    let proof = nopanic("prove", || p.prove(&g.gv, &g.hv))?.map_err(|e| format!("prove: {:?}", e))?;
    Ok((proof, com))
}
fn verify(c: &Circ, g: &Gens, label: &'static [u8], off: Option<(usize, FE)>, pr: &R1CSProof, com: &[G1]) -> Result<bool, String> {
    let mut t = Transcript::new(label);
    let mut v = Verifier::new(&mut t);
    let vs: Vec<Variable> = com.iter().map(|x| v.commit(x.clone())).collect();
    build(&mut v, c, &vs, false, off)?;
    nopanic("verify", || v.verify(pr, &g.g, &g.h, &g.gv, &g.hv).is_ok())
}
const SZ: [usize; 10] = [0, 1, 2, 3, 4, 5, 7, 8, 9, 16];
fn honest(r: &mut R, case: u32) -> Out {
    let c = circuit(r, SZ[case as usize % SZ.len()]);
    let n = c.mults.next_power_of_two() + if coin(r) { 0 } else { range(r, 0, 4) };
    let g = gens(r, n);
    let (p, com) = prove(r, &c, &g, b"r1cs", None, true)?;
    ensure!(verify(&c, &g, b"r1cs", None, &p, &com)?, "an honest proof of {} multipliers and {} commitments is refused", c.mults, c.m);
    ensure!(!verify(&c, &g, b"other", None, &p, &com)?, "another transcript label is accepted");
    if c.m > 0 {
        let i = r.gen_range(0, c.m); let mut d = com.clone(); d[i] = &d[i] + &g1(r);
        ensure!(!verify(&c, &g, b"r1cs", None, &p, &d)?, "another commitment {} is accepted", i);
    }
    // the verifier's circuit differs in one constant
    let off = Some((r.gen_range(0, c.consts), fenz(r)));
    ensure!(!verify(&c, &g, b"r1cs", off, &p, &com)?, "another circuit is accepted");
    Ok(())
}
fn unsat(r: &mut R, case: u32) -> Out {
    let mut c = circuit(r, SZ[case as usize % SZ.len()]);
    let g = gens(r, c.mults.next_power_of_two());
    let off = Some((r.gen_range(0, c.consts), fenz(r)));
    let (p, com) = prove(r, &c, &g, b"r1cs", off.clone(), false)?;
    ensure!(!verify(&c, &g, b"r1cs", off, &p, &com)?, "a circuit of {} multipliers that is not satisfied is accepted", c.mults);
    // a committed value that does not satisfy the circuit: x - value = 0 is the constraint
    c.m = 1; c.xs = vec![FE::one(), fe(r)]; let x = &c.xs[1] + &fenz(r);
    c.ops = vec![Op::AllocMul(fe(r), fe(r)), Op::Con(Ex::Sub(Box::new(Ex::V(1)), Box::new(Ex::K(x))))];
    let (p, com) = prove(r, &c, &g, b"r1cs", None, false)?;
    ensure!(!verify(&c, &g, b"r1cs", None, &p, &com)?, "a wrong committed value is accepted");
    // ... and a wrong product
    let (a, b) = (fe(r), fe(r)); let z = &(&a * &b) + &fenz(r);
    c.m = 0; c.xs = vec![FE::one(), a.clone(), b.clone()];
    c.ops = vec![Op::AllocMul(a, b), Op::Con(Ex::Sub(Box::new(Ex::V(3)), Box::new(Ex::K(z))))];
    let (p, com) = prove(r, &c, &g, b"r1cs", None, false)?;
    ensure!(!verify(&c, &g, b"r1cs", None, &p, &com)?, "a wrong product is accepted");
    Ok(())
}
fn altered(r: &mut R, case: u32) -> Out {
    let c = circuit(r, [1, 2, 3, 5][case as usize % 4]);
    let g = gens(r, c.mults.next_power_of_two());
    let (p, com) = prove(r, &c, &g, b"r1cs", None, false)?;
    let (q, _) = prove(r, &c, &g, b"r1cs", None, false)?;
    let (jp, jq) = (serde_json::to_value(&p).unwrap(), serde_json::to_value(&q).unwrap());
    let ks: Vec<String> = jp.as_object().unwrap().keys().cloned().collect();
    for k in &ks {
        if jp[k] == jq[k] { continue; }
        let mut j = jp.clone(); j[k] = jq[k].clone();
        let x: R1CSProof = serde_json::from_value(j).map_err(|e| format!("{}", e))?;
        ensure!(!verify(&c, &g, b"r1cs", None, &x, &com)?, "a proof with another {} is accepted", k);
    }
    for k in &["L", "R"] {
        for how in 0..3 {
            let mut j = jp.clone();
            {
                let a = match &mut j["ipp_proof"][*k] { serde_json::Value::Object(o) => { let f = o.keys().next().unwrap().clone(); o.get_mut(&f).unwrap().as_array_mut().unwrap() } v => v.as_array_mut().unwrap() };
                match how { 0 => if a.pop().is_none() { continue; }, 1 => { let e = serde_json::to_value(&g.g).unwrap(); a.push(e); } _ => a.clear() }
                if how == 2 && c.mults.next_power_of_two() == 1 { continue; }
            }
            let x: R1CSProof = serde_json::from_value(j).map_err(|e| format!("{}", e))?;
            ensure!(!verify(&c, &g, b"r1cs", None, &x, &com)?, "a proof with another number of {} is accepted", k);
        }
    }
    // too few generators
    let n = c.mults.next_power_of_two();
    let cut = |v: &G1Vector| -> G1Vector { v.as_slice()[..n - 1].to_vec().into() };
    let g2 = Gens { g: g.g.clone(), h: g.h.clone(), gv: cut(&g.gv), hv: g.hv.clone() };
    ensure!(!verify(&c, &g2, b"r1cs", None, &p, &com)?, "too few G accepted");
    let g3 = Gens { g: g.g.clone(), h: g.h.clone(), gv: g.gv.clone(), hv: cut(&g.hv) };
    ensure!(!verify(&c, &g3, b"r1cs", None, &p, &com)?, "too few H accepted");
    for (w, gg) in vec![("G", &g2), ("H", &g3)] { if let Err(e) = prove(r, &c, gg, b"r1cs", None, false) { ensure!(!e.starts_with("prove: panicked"), "{} (too few {})", e, w); } else { ensure!(false, "a proof with too few {}", w); } }
    Ok(())
}
pub fn quantity(v: Variable, x: Option<FE>) -> AllocatedQuantity { AllocatedQuantity { variable: v, assignment: x } }
pub fn all() -> Vec<Sc> {
    vec![
        Sc { prop: "R02", name: "circuit_honest", quick: 60, thorough: 800, f: honest },
        Sc { prop: "R02", name: "circuit_unsatisfied", quick: 20, thorough: 300, f: unsat },
        Sc { prop: "R02", name: "proof_altered", quick: 8, thorough: 60, f: altered },
    ]
}
