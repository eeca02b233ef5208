//! R03: sparse Merkle trees, against an association list; the tree gadgets with a small algebraic hash.
use crate::r1cs::{gens, Gens};
use crate::*;
use bulletproofs_amcl::errors::{BulletproofError, R1CSError};
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::sparse_merkle_tree_4_ary::*;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::sparse_merkle_tree_8_ary::*;
use bulletproofs_amcl::r1cs::gadgets::merkle_tree_hash::*;
use bulletproofs_amcl::r1cs::gadgets::sparse_merkle_tree_4_ary::*;
use bulletproofs_amcl::r1cs::gadgets::sparse_merkle_tree_8_ary::*;
use bulletproofs_amcl::r1cs::{ConstraintSystem, LinearCombination as LC, Prover, R1CSProof, Verifier};
use bulletproofs_amcl::utils::hash_db::InMemoryHashDb;
use rand::rngs::StdRng;
/// h = (sum (i+2) c_i + 7)^2: order sensitive, and two multipliers at most in a circuit
struct Hf;
fn h(x: &[FE]) -> FE { let mut s = FE::from(7u32); for (i, c) in x.iter().enumerate() { s = &s + &(&FE::from(i as u32 + 2) * c); } &s * &s }
fn hc<C: ConstraintSystem>(cs: &mut C, x: Vec<LC>) -> Result<LC, R1CSError> {
    let mut s = LC::from(FE::from(7u32));
    for (i, c) in x.into_iter().enumerate() { s = s + FE::from(i as u32 + 2) * c; }
    let (_, _, o) = cs.multiply(s.clone(), s); Ok(o.into())
}
impl Arity4MerkleTreeHash for Hf { fn hash(&self, x: Vec<FE>) -> Result<FE, BulletproofError> { <Hf as Arity4MerkleTreeHash>::is_num_inputs_correct(&x)?; Ok(h(&x)) } }
impl Arity8MerkleTreeHash for Hf { fn hash(&self, x: Vec<FE>) -> Result<FE, BulletproofError> { <Hf as Arity8MerkleTreeHash>::is_num_inputs_correct(&x)?; Ok(h(&x)) } }
impl Arity4MerkleTreeHashConstraints for Hf {
    fn prover_setup(&mut self, _: &mut Prover) -> Result<(), R1CSError> { Ok(()) }
    fn verifier_setup(&mut self, _: &mut Verifier, _: Option<&G1>, _: Option<&G1>) -> Result<(), R1CSError> { Ok(()) }
    fn hash<C: ConstraintSystem>(&self, cs: &mut C, x: Vec<LC>) -> Result<LC, R1CSError> { hc(cs, x) }
}
impl Arity8MerkleTreeHashConstraints for Hf {
    fn prover_setup(&mut self, _: &mut Prover) -> Result<(), R1CSError> { Ok(()) }
    fn verifier_setup(&mut self, _: &mut Verifier, _: Option<&G1>, _: Option<&G1>) -> Result<(), R1CSError> { Ok(()) }
    fn hash<C: ConstraintSystem>(&self, cs: &mut C, x: Vec<LC>) -> Result<LC, R1CSError> { hc(cs, x) }
}
/// root of the tree that has the leaves listed and zeroes elsewhere, computed from the top
fn root(ar: u64, depth: u32, at: u64, leaves: &[(u64, FE)]) -> FE {
    if leaves.is_empty() && depth > 0 { let mut z = FE::zero(); for _ in 0..depth { z = h(&vec![z; ar as usize]); } return z; }
    if depth == 0 { return leaves.iter().rev().find(|l| l.0 == at).map(|l| l.1.clone()).unwrap_or(FE::zero()); }
    let w = ar.pow(depth - 1);
    let c: Vec<FE> = (0..ar).map(|k| { let lo = at + k * w; let sub: Vec<_> = leaves.iter().filter(|l| l.0 >= lo && l.0 < lo + w).cloned().collect(); root(ar, depth - 1, lo, &sub) }).collect();
    h(&c)
}
macro_rules! tree {
    ($name:ident, $proof:ident, $ar:expr, $tree:ident, $node:ident, $val:ident, $gen:ident, $ver:ident, $depths:expr) => {
        fn $name(r: &mut R, case: u32) -> Out {
            let depth = $depths[case as usize % $depths.len()]; let f = Hf; let mut db = InMemoryHashDb::<$val>::new();
            let b = |e| format!("{:?}", e);
            let mut t = $tree::new(&f, depth, &mut db).map_err(b)?;
            let max = (($ar as u64).pow(depth.min(20) as u32)).min(1 << 50);
            let pool: Vec<u64> = (0..6).map(|k| match k { 0 => 0, 1 => max - 1, _ => r.gen_range(0, max) }).collect();
            let mut hist: Vec<(u64, FE)> = vec![];
            for _ in 0..range(r, 0, 14) {
                let (i, v) = (pool[r.gen_range(0, 6)], fe(r));
                let old = t.root.clone();
                let nr = t.update(&FE::from(i), v.clone(), &mut db).map_err(b)?;
                ensure!(feq(&nr, &t.root), "update returns another root");
                hist.push((i, v)); let _ = old;
                for j in &pool {
                    let want = hist.iter().rev().find(|l| l.0 == *j).map(|l| l.1.clone()).unwrap_or(FE::zero());
                    let mut pf = if coin(r) { Some(vec![]) } else { None };
                    let got = t.get(&FE::from(*j), &mut pf, &db).map_err(b)?;
                    ensure!(feq(&got, &want), "depth {}: index {} does not return the last value stored", depth, j);
                    if let Some(p) = pf {
                        ensure!(p.len() == depth, "a path of {} levels in a tree of depth {}", p.len(), depth);
                        ensure!(t.verify_proof(&FE::from(*j), &want, &p, None).map_err(b)?, "the path of index {} does not recompute the root", j);
                        ensure!(t.verify_proof(&FE::from(*j), &want, &p, Some(&t.root)).map_err(b)?, "the path of index {} does not recompute the root given", j);
                        ensure!(!t.verify_proof(&FE::from(*j), &(&want + &fenz(r)), &p, None).map_err(b)?, "another value at {} has the same path", j);
                        ensure!(!t.verify_proof(&FE::from(*j), &want, &p, Some(&fer(r))).map_err(b)?, "another root is accepted");
                    }
                }
            }
            if depth <= 20 { ensure!(feq(&t.root, &root($ar, depth as u32, 0, &hist)), "the root of a tree of depth {} with {} updates", depth, hist.len()); }
            Ok(())
        }
        fn $proof(r: &mut R, case: u32) -> Out {
            let depth = [1, 2, 3][case as usize % 3]; let mut f = Hf; let f2 = Hf; let mut db = InMemoryHashDb::<$val>::new();
            let b = |e| format!("{:?}", e); let e2 = |e| format!("{:?}", e);
            let mut t = $tree::new(&f2, depth, &mut db).map_err(b)?;
            let max = ($ar as u64).pow(depth as u32);
            for _ in 0..4 { t.update(&FE::from(r.gen_range(0, max)), fe(r), &mut db).map_err(b)?; }
            let i = if case < 3 { max - 1 } else { r.gen_range(0, max) }; let v = fe(r); t.update(&FE::from(i), v.clone(), &mut db).map_err(b)?;
            let mut pf = Some(vec![]); t.get(&FE::from(i), &mut pf, &db).map_err(b)?; let pf: Vec<$node> = pf.unwrap();
            let g: Gens = gens(r, 128); let hide = coin(r);
            let mut rng = StdRng::clone(r);
            let mut gen = |leaf: &FE, idx: &FE, pf: Vec<$node>, root: &FE, d: usize, f: &mut Hf| -> Result<Result<(R1CSProof, Vec<G1>), R1CSError>, String> {
                nopanic("gen_proof_of_leaf_inclusion", || $gen(leaf.clone(), idx.clone(), hide, None, pf, root, d, f, Some(&mut rng), b"tree", &g.g, &g.h, &g.gv, &g.hv))
            };
            let ver = |root: &FE, leaf: &FE, d: usize, p: R1CSProof, c: Vec<G1>, f: &mut Hf| -> Result<bool, String> {
                nopanic("verify_proof_of_leaf_inclusion", || $ver(root, d, f, p, if hide { None } else { Some(leaf.clone()) }, c, b"tree", &g.g, &g.h, &g.gv, &g.hv).is_ok())
            };
            let fi = FE::from(i);
            let (p, c) = gen(&v, &fi, pf.clone(), &t.root, depth, &mut f)?.map_err(e2)?;
            ensure!(ver(&t.root, &v, depth, p.clone(), c.clone(), &mut f)?, "depth {}: an honest inclusion proof of index {} is refused (hidden {})", depth, i, hide);
            ensure!(!ver(&fer(r), &v, depth, p.clone(), c.clone(), &mut f)?, "another root is accepted");
            if !hide { ensure!(!ver(&t.root, &(&v + &fenz(r)), depth, p.clone(), c.clone(), &mut f)?, "another leaf is accepted"); }
            // not in the tree: another leaf, another index, another path
            let w = &v + &fenz(r);
            if let Ok((p, c)) = gen(&w, &fi, pf.clone(), &t.root, depth, &mut f)? { ensure!(!ver(&t.root, &w, depth, p, c, &mut f)?, "a value that is not in the tree is accepted"); }
            let j = (i + 1) % max;
            if !feq(&t.get(&FE::from(j), &mut None, &db).map_err(b)?, &v) { if let Ok((p, c)) = gen(&v, &FE::from(j), pf.clone(), &t.root, depth, &mut f)? { ensure!(!ver(&t.root, &v, depth, p, c, &mut f)?, "a wrong index is accepted"); } }
            let mut q = pf.clone(); let l = r.gen_range(0, depth); q[l][r.gen_range(0, $ar - 1)] = fer(r);
            if let Ok((p, c)) = gen(&v, &fi, q, &t.root, depth, &mut f)? { ensure!(!ver(&t.root, &v, depth, p, c, &mut f)?, "another path is accepted"); }
            // an inner node as a leaf: the path of depth - 1 that ends at it
            let mut inner = v.clone(); { let mut k = (i % $ar) as usize; let mut ch = pf[depth - 1].to_vec(); if k > ch.len() { k = ch.len(); } ch.insert(k, inner); inner = h(&ch); }
            let short = pf[..depth - 1].to_vec();
            if let Ok((p, c)) = gen(&inner, &FE::from(i / $ar), short, &t.root, depth - 1, &mut f)? {
                ensure!(!ver(&t.root, &inner, depth, p, c, &mut f)?, "an inner node of a tree of depth {} is accepted as a leaf", depth);
            }
            // the same tree taken for a shallower one
            if depth > 1 { ensure!(!ver(&t.root, &v, depth - 1, p.clone(), c.clone(), &mut f)?, "a longer path is accepted"); }
            ensure!(!ver(&t.root, &v, depth, p.clone(), vec![], &mut f)?, "no commitments are accepted");
            ensure!(!ver(&t.root, &v, depth, p, c[..c.len() - 1].to_vec(), &mut f)?, "one commitment less is accepted");
            Ok(())
        }
    };
}
tree!(tree4, proof4, 4, VanillaSparseMerkleTree4, ProofNode4ary, DbVal4ary, gen_proof_of_leaf_inclusion_4_ary_merkle_tree, verify_proof_of_leaf_inclusion_4_ary_merkle_tree, [1, 2, 3, 4, 5, 9, 12, 17]);
tree!(tree8, proof8, 8, VanillaSparseMerkleTree8, ProofNode8ary, DbVal8ary, gen_proof_of_leaf_inclusion_8_ary_merkle_tree, verify_proof_of_leaf_inclusion_8_ary_merkle_tree, [1, 2, 3, 4, 5, 8, 12, 16]);
pub fn all() -> Vec<Sc> {
    vec![
        Sc { prop: "R03", name: "tree_4_ary", quick: 24, thorough: 400, f: tree4 },
        Sc { prop: "R03", name: "tree_8_ary", quick: 24, thorough: 400, f: tree8 },
        Sc { prop: "R03", name: "tree_gadget_4_ary", quick: 9, thorough: 90, f: proof4 },
        Sc { prop: "R03", name: "tree_gadget_8_ary", quick: 6, thorough: 60, f: proof8 },
    ]
}
