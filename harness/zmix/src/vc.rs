use super::*;
macro_rules! vcmod { ($m:ident, $pc:path, $pd:path, $pf:path, $G:ty, $GV:ty, $rg:expr, $size:expr) => {
pub mod $m {
    use super::*;
    use $pc as PC; use $pf as PF;
    /// (bases, secrets, blindings)
    fn make(r: &mut R, n: usize) -> (Vec<$G>, Vec<FE>, Vec<FE>) {
        let mut b: Vec<$G> = (0..n).map(|_| $rg(r)).collect();
        if n > 1 && r.gen_range(0, 4) == 0 { let i = r.gen_range(0, n); let j = r.gen_range(0, n); b[i] = b[j].clone(); }
        (b, fes(r, n), fes(r, n))
    }
    fn msm(b: &[$G], e: &[FE]) -> $G { let mut t = <$G>::identity(); for (x, y) in b.iter().zip(e) { t = t + (x * y); } t }
    fn oracle(pf: &PF, b: &[$G], com: &$G, ch: &FE) -> bool {
        msm(b, &pf.responses.as_slice().to_vec()) + (com * ch) == pf.commitment
    }
    pub fn honest(r: &mut R, _c: u32) -> Out {
        let n = range(r, 0, 9);
        let (b, s, bl) = make(r, n);
        let mut pc = PC::new();
        let mut given = vec![];
        for i in 0..n {
            let g = coin(r); given.push(g);
            let idx = pc.commit(&b[i], if g { Some(&bl[i]) } else { None });
            ensure!(idx == i, "commit returned index {} for position {}", idx, i);
        }
        for i in 0..n {
            let (g, x) = pc.get_index(i).map_err(|_| "get_index failed".to_string())?;
            ensure!(*g == b[i], "get_index({}) returns another base", i);
            if given[i] { ensure!(feq(x, &bl[i]), "blinding {} is not the given one", i); }
        }
        ensure!(pc.get_index(n).is_err(), "get_index past the end succeeded");
        let xs: Vec<FE> = (0..n).map(|i| pc.get_index(i).map(|p| p.1.clone()).unwrap_or(FE::zero())).collect();
        let pd = pc.finish();
        ensure!(pd.commitment == msm(&b, &xs), "commitment is not the sum of base * blinding");
        let com = msm(&b, &s);
        let mut tr = vec![]; for x in &b { tr.extend(x.to_bytes()); } tr.extend(pd.commitment.to_bytes());
        ensure!(pd.to_bytes() == tr, "to_bytes is not bases then commitment");
        let mut extra = com.to_bytes(); let mut nonce = vec![0u8; range(r, 0, 40)]; r.fill_bytes(&mut nonce); extra.extend(&nonce);
        let full = coin(r);
        let ch = if full { let c = pd.gen_challenge(extra.clone()); let mut t = tr.clone(); t.extend(&extra); ensure!(feq(&c, &FE::from_msg_hash(&t)), "challenge is not the hash of the transcript"); c } else { fe(r) };
        if n > 0 { ensure!(pd.clone().gen_proof(&ch, &s[..n - 1]).is_err(), "gen_proof with fewer secrets succeeded"); }
        let mut s2 = s.clone(); s2.push(fe(r)); ensure!(pd.clone().gen_proof(&ch, &s2).is_err(), "gen_proof with more secrets succeeded");
        let pf = pd.gen_proof(&ch, &s).map_err(|e| format!("gen_proof: {:?}", e))?;
        for i in 0..n { ensure!(feq(&pf.responses[i], &(&xs[i] - (&ch * &s[i]))), "response {} is not blinding - challenge*secret", i); }
        ensure!(pf.verify(&b, &com, &ch).map_err(|e| format!("verify: {:?}", e))?, "honest proof of {} bases rejected", n);
        if full {
            ensure!(pf.verify_complete_proof(&b, &com, &ch, &nonce).map_err(|e| format!("verify: {:?}", e))?, "honest complete proof of {} bases rejected", n);
            let mut n2 = nonce.clone(); n2.push(1);
            ensure!(!pf.verify_complete_proof(&b, &com, &ch, &n2).unwrap_or(false), "complete proof accepted for another nonce");
            ensure!(!pf.verify_complete_proof(&b, &(&com + &$rg(r)), &ch, &nonce).unwrap_or(false), "complete proof accepted for another commitment");
        }
        if n > 0 { ensure!(pf.verify(&b[1..], &com, &ch).is_err(), "verify with fewer bases did not fail"); }
        let mut b2 = b.clone(); b2.push($rg(r)); ensure!(pf.verify(&b2, &com, &ch).is_err(), "verify with more bases did not fail");
        Ok(())
    }
    pub fn equation(r: &mut R, _c: u32) -> Out {
        let n = range(r, 0, 6);
        let (b, s, bl) = make(r, n);
        let ch = fe(r); let com = msm(&b, &s);
        let mut rs = FEV::new(0); for i in 0..n { rs.push(&bl[i] - (&ch * &s[i])); }
        let mut pf = PF { commitment: msm(&b, &bl), responses: rs };
        let mut com2 = com.clone(); let mut b2 = b.clone();
        match r.gen_range(0, 7) {
            0 => {}
            1 => { pf.commitment = &pf.commitment + &$rg(r); }
            2 => { if n > 0 { let i = r.gen_range(0, n); pf.responses[i] = &pf.responses[i] + &fenz(r); } }
            3 => { com2 = &com2 + &$rg(r); }
            4 => { if n > 1 { b2.swap(0, n - 1); } }
            5 => { pf.commitment = <$G>::identity(); }
            _ => { if n > 0 { let i = r.gen_range(0, n); b2[i] = &b2[i] + &$rg(r); } }
        }
        let want = oracle(&pf, &b2, &com2, &ch);
        let got = pf.verify(&b2, &com2, &ch).map_err(|e| format!("verify: {:?}", e))?;
        ensure!(got == want, "verify returned {} where the equation gives {} ({} bases)", got, want, n);
        Ok(())
    }
    pub fn bytes(r: &mut R, _c: u32) -> Out {
        let n = range(r, 0, 7);
        let mut rs = FEV::new(0); for _ in 0..n { rs.push(fe(r)); }
        let pf = PF { commitment: $rg(r), responses: rs };
        let v = pf.to_bytes();
        let w = PF::from_bytes(&v).map_err(|e| format!("from_bytes(to_bytes) with {} responses: {:?}", n, e))?;
        ensure!(w.commitment == pf.commitment && w.responses.len() == n && (0..n).all(|i| feq(&w.responses[i], &pf.responses[i])), "decoded proof with {} responses differs", n);
        let k = r.gen_range(0, v.len());
        ensure!(nopanic("from_bytes", || PF::from_bytes(&v[..k]).is_err())?, "truncated encoding ({} of {} bytes) accepted", k, v.len());
        let mut x = v.clone(); if x.len() > $size + 4 { let i = $size + r.gen_range(0, 4); x[i] ^= 1 << r.gen_range(0, 8); }
        nopanic("from_bytes", || { let _ = PF::from_bytes(&x); })?;
        let js = serde_json::to_string(&pf).map_err(|e| e.to_string())?;
        let w: PF = serde_json::from_str(&js).map_err(|e| format!("JSON: {}", e))?;
        ensure!(w.commitment == pf.commitment && w.responses.len() == n && (0..n).all(|i| feq(&w.responses[i], &pf.responses[i])), "proof decoded from JSON differs");
        Ok(())
    }
}}}
vcmod!(og, zmix::signatures::ps::pok_sig::ProverCommittingOtherGroup, zmix::signatures::ps::pok_sig::ProverCommittedOtherGroup, zmix::signatures::ps::pok_sig::ProofOtherGroup, G1, G1Vector, g1, 97);
vcmod!(sg, zmix::signatures::ps::blind_signature::ProverCommittingSignatureGroup, zmix::signatures::ps::blind_signature::ProverCommittedSignatureGroup, zmix::signatures::ps::blind_signature::ProofSignatureGroup, G2, G2Vector, g2, 192);
vcmod!(c1, zmix::commitments::pok_vc::ProverCommittingG1, zmix::commitments::pok_vc::ProverCommittedG1, zmix::commitments::pok_vc::ProofG1, G1, G1Vector, g1, 97);
vcmod!(c2, zmix::commitments::pok_vc::ProverCommittingG2, zmix::commitments::pok_vc::ProverCommittedG2, zmix::commitments::pok_vc::ProofG2, G2, G2Vector, g2, 192);

pub fn all() -> Vec<Sc> {
    let s = |prop, name, quick, thorough, f| Sc { prop, name, quick, thorough, f };
    vec![
        s("V01", "zmix_other_group_honest", 12, 200, og::honest), s("V01", "zmix_signature_group_honest", 12, 200, sg::honest),
        s("V01", "zmix_g1_honest", 10, 150, c1::honest), s("V01", "zmix_g2_honest", 10, 150, c2::honest),
        s("V01", "zmix_other_group_equation", 24, 400, og::equation), s("V01", "zmix_signature_group_equation", 24, 300, sg::equation),
        s("V01", "zmix_g1_equation", 16, 300, c1::equation), s("V01", "zmix_g2_equation", 16, 300, c2::equation),
        s("P04", "proof_other_group_bytes", 40, 400, og::bytes), s("P04", "proof_signature_group_bytes", 40, 400, sg::bytes),
        s("P04", "proof_g1_bytes", 20, 200, c1::bytes), s("P04", "proof_g2_bytes", 20, 200, c2::bytes),
    ]
}
