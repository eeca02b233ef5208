use super::*;
use zmix::signatures::delg_cred_cdd::groth_sig::*;
use zmix::signatures::delg_cred_cdd::issuer::*;
use zmix::amcl_wrapper::group_elem::GroupElementVector;

fn is1(xs: Vec<(&G1, &G2)>) -> bool { GT::ate_multi_pairing(xs).is_one() }
macro_rules! level {
    ($m:ident, $S:ident, $Sig:ident, $VK:ident, $PR:ident, $KG:ident, $MG:ident, $MV:ident, $kg:ident, $mg:ident, $gk:ident, $gm:ident, $pair:expr) => {
        pub mod $m {
            use super::*;
            // equation  pair(msg-side, key-side) as (G1, G2)
            pub fn e<'a>(m: &'a $MG, k: &'a $KG) -> (&'a G1, &'a G2) { $pair(m, k) }
            pub fn params(r: &mut R, n: usize) -> Result<$PR, String> {
                if coin(r) {
                    let mut b = [0u8; 7]; r.fill_bytes(&mut b); let p = $S::setup(n, &b);
                    ensure!(p.y.len() == n, "setup({}) made {} generators", n, p.y.len());
                    let q = $S::setup(n, &b); ensure!(p.y == q.y && p.g1 == q.g1 && p.g2 == q.g2, "setup is not a function of the label");
                    for i in 0..n { for j in 0..i { ensure!(p.y[i] != p.y[j], "setup repeats generator {} and {}", i, j); } }
                    Ok(p)
                } else { Ok($PR { g1: g1(r), g2: g2(r), y: (0..n).map(|_| $mg(r)).collect::<Vec<_>>().into() }) }
            }
            pub fn key(r: &mut R, p: &$PR) -> Result<(FE, $VK), String> {
                if coin(r) { let (sk, vk) = $S::keygen(p); ensure!(vk.0 == &p.$gk * &sk, "keygen keys do not match"); Ok((sk, vk)) }
                else { let sk = fenz(r); let vk = $VK(&p.$gk * &sk); Ok((sk, vk)) }
            }
            pub fn craft(r: &mut R, ms: &[$MG], sk: &FE, p: &$PR) -> $Sig {
                let x = fenz(r); let xi = x.inverse();
                $Sig { R: &p.$gk * &x, S: &(&p.y[0] + &(&p.$gm * sk)) * &xi, T: (0..ms.len()).map(|i| &(&ms[i] + &(&p.y[i] * sk)) * &xi).collect::<Vec<_>>().into() }
            }
            /// the pairing equations; None when the lengths make them meaningless (an error is required)
            pub fn oracle(s: &$Sig, ms: &[$MG], vk: &$VK, p: &$PR) -> Option<bool> {
                if ms.len() > p.y.len() || ms.len() != s.T.len() { return None; }
                let ns = s.S.negation();
                let mut ok = is1(vec![e(&p.y[0], &p.$gk), e(&p.$gm, &vk.0), e(&ns, &s.R)]);
                for i in 0..ms.len() { let nt = s.T[i].negation(); ok &= is1(vec![e(&ms[i], &p.$gk), e(&p.y[i], &vk.0), e(&nt, &s.R)]); }
                Some(ok)
            }
            pub fn agree(s: &$Sig, ms: &[$MG], vk: &$VK, p: &$PR, what: &str) -> Out {
                let o = oracle(s, ms, vk, p);
                for (nm, v) in vec![("verify", s.verify(ms, vk, p).ok()), ("verify_batch", s.verify_batch(ms, vk, p).ok())] {
                    ensure!(v == o, "{}: {} returned {:?} where the equations say {:?} ({} messages, {} parameters, {} in T)", what, nm, v, o, ms.len(), p.y.len(), s.T.len());
                }
                Ok(())
            }
            pub fn sign(r: &mut R, c: u32) -> Out {
                let y = 1 + if c < 4 { c as usize } else { range(r, 0, 8) }; let n = if c < 4 { y } else { range(r, 0, y + 1) };
                let p = params(r, y)?; let (sk, vk) = key(r, &p)?; let mut ms: Vec<$MG> = (0..n).map(|_| $mg(r)).collect();
                if n > 1 && coin(r) { ms[0] = ms[n - 1].clone(); }
                if n > 0 && r.gen_range(0, 5) == 0 { ms[n / 2] = $MG::identity(); }
                let s = $Sig::new(&ms, &sk, &p).map_err(|e| format!("signing {} of {}: {:?}", n, y, e))?;
                ensure!(s.T.len() == n, "T has {} entries for {} messages", s.T.len(), n);
                ensure!(oracle(&s, &ms, &vk, &p) == Some(true), "new signature on {} messages does not satisfy the equations", n);
                agree(&s, &ms, &vk, &p, "honest signature")?;
                let x = fenz(r); let s2 = s.randomize(&x);
                ensure!(s2.R == &s.R * &x, "randomize changed R wrongly");
                ensure!(oracle(&s2, &ms, &vk, &p) == Some(true), "re-randomised signature does not satisfy the equations");
                agree(&s2, &ms, &vk, &p, "re-randomised signature")?;
                let t = $Sig::new(&ms, &sk, &p).map_err(|e| format!("{:?}", e))?; ensure!(t.R != s.R, "two signatures share their randomness");
                let mut m2 = ms.clone(); while m2.len() <= y { m2.push($mg(r)); }
                ensure!($Sig::new(&m2, &sk, &p).is_err(), "{} messages signed with {} parameters", m2.len(), y);
                agree(&s, &m2, &vk, &p, "too many messages")
            }
            pub fn tamper(r: &mut R, c: u32) -> Out {
                let y = range(r, 1, 6); let n = range(r, 0, y + 1);
                let mut p = params(r, y)?; let (sk, mut vk) = key(r, &p)?; let mut ms: Vec<$MG> = (0..n).map(|_| $mg(r)).collect();
                let mut s = craft(r, &ms, &sk, &p); let k = c % 18;
                match k {
                    0 => {}
                    1 => if n > 0 { let i = r.gen_range(0, n); ms[i] = &ms[i] + &$mg(r); },
                    2 => if n > 1 { let i = r.gen_range(0, n); let j = r.gen_range(0, n); ms.swap(i, j); },
                    3 => { s.S = &s.S + &$mg(r); }
                    4 => { s.R = &s.R + &$kg(r); }
                    5 => if n > 0 { let i = r.gen_range(0, n); s.T[i] = &s.T[i] + &$mg(r); },
                    6 => { ms.pop(); }
                    7 => { ms.push($mg(r)); }
                    8 => { s.T.push($mg(r)); }
                    9 => { vk = $VK(&vk.0 + &$kg(r)); }
                    10 => { s.R = $KG::identity(); }
                    11 => { s.S = $MG::identity(); }
                    12 => if n > 1 { let d = $mg(r); let (i, j) = (0, n - 1); ms[i] = &ms[i] + &d; ms[j] = &ms[j] - &d; },
                    13 => if n > 0 { let i = n - 1; let d = $mg(r); ms[i] = &ms[i] + &d; let p_ = &s.T[i] + &d; s.T[i] = p_; },
                    14 => if n > 0 { let i = r.gen_range(0, y); let g = $mg(r); p.y[i] = &p.y[i] + &g; },
                    // compensating changes of two equations
                    15 => if n > 0 { let d = $mg(r); let i = if coin(r) { 0 } else { r.gen_range(0, n) }; s.S = &s.S + &d; let t = &s.T[i] - &d; s.T[i] = t; },
                    16 => if n > 1 { let d = $mg(r); let i = r.gen_range(0, n - 1); let j = if coin(r) { i + 1 } else { n - 1 }; let t = &s.T[i] + &d; s.T[i] = t; let t = &s.T[j] - &d; s.T[j] = t; },
                    _ => { s = $Sig { R: $KG::identity(), S: $MG::identity(), T: (0..n).map(|_| $MG::identity()).collect::<Vec<_>>().into() }; }
                }
                agree(&s, &ms, &vk, &p, &format!("change {}", k))
            }
        }
    }
}
level!(one, GrothS1, Groth1Sig, Groth1Verkey, Groth1SetupParams, G2, G1, G1Vector, g2, g1, g2, g1, |m, k| (m, k));
level!(two, GrothS2, Groth2Sig, Groth2Verkey, Groth2SetupParams, G1, G2, G2Vector, g1, g2, g1, g2, |m, k| (k, m));

struct Ch { p1: Groth1SetupParams, p2: Groth2SetupParams, esk: Vec<FE>, evk: Vec<Groth1Verkey>, osk: Vec<FE>, ovk: Vec<Groth2Verkey>, ch: CredChain }
fn build(r: &mut R, size: usize) -> Result<Ch, String> {
    let y1 = range(r, 1, 5); let y2 = range(r, 1, 5);
    let mut c = Ch { p1: one::params(r, y1)?, p2: two::params(r, y2)?, esk: vec![], evk: vec![], osk: vec![], ovk: vec![], ch: CredChain::new() };
    for l in 0..=size { if l % 2 == 0 { let (s, v) = one::key(r, &c.p1)?; c.esk.push(s); c.evk.push(v); } else { let (s, v) = two::key(r, &c.p2)?; c.osk.push(s); c.ovk.push(v); } }
    for l in 0..size {
        if l % 2 == 0 {
            let n = range(r, 0, y1); let at: Vec<G1> = (0..n).map(|_| g1(r)).collect();
            let lk = if l == 0 && coin(r) { RootIssuer::delegate(at.clone().into(), c.ovk[0].clone(), &c.esk[0], &c.p1) } else { EvenLevelIssuer::new(l).map_err(|e| format!("{:?}", e))?.delegate(at.clone().into(), c.ovk[l / 2].clone(), &c.esk[l / 2], &c.p1) }.map_err(|e| format!("delegation from level {} failed: {:?}", l, e))?;
            ensure!(lk.level == l + 1 && lk.attributes.len() == n + 1 && lk.attributes[n] == c.ovk[l / 2].0, "link {} has the wrong level or attributes", l + 1);
            for i in 0..n { ensure!(lk.attributes[i] == at[i], "attribute {} changed by delegation", i); }
            ensure!(one::oracle(&lk.signature, lk.attributes.as_slice(), &c.evk[l / 2], &c.p1) == Some(true), "link {} signature is invalid", l + 1);
            ensure!(lk.verify(&c.ovk[l / 2], &c.evk[l / 2], &c.p1).unwrap_or(false), "honest link {} does not verify", l + 1);
            c.ch.extend_with_odd(lk).map_err(|e| format!("extending with link {}: {:?}", l + 1, e))?;
            ensure!(c.ch.verify_last_odd_delegation(&c.ovk[l / 2], &c.evk[l / 2], &c.p1).unwrap_or(false), "last odd link does not verify");
        } else {
            let n = range(r, 0, y2); let at: Vec<G2> = (0..n).map(|_| g2(r)).collect();
            let lk = OddLevelIssuer::new(l).map_err(|e| format!("{:?}", e))?.delegate(at.clone().into(), c.evk[l / 2 + 1].clone(), &c.osk[l / 2], &c.p2).map_err(|e| format!("delegation from level {} failed: {:?}", l, e))?;
            ensure!(lk.level == l + 1 && lk.attributes.len() == n + 1 && lk.attributes[n] == c.evk[l / 2 + 1].0, "link {} has the wrong level or attributes", l + 1);
            for i in 0..n { ensure!(lk.attributes[i] == at[i], "attribute {} changed by delegation", i); }
            ensure!(two::oracle(&lk.signature, lk.attributes.as_slice(), &c.ovk[l / 2], &c.p2) == Some(true), "link {} signature is invalid", l + 1);
            ensure!(lk.verify(&c.evk[l / 2 + 1], &c.ovk[l / 2], &c.p2).unwrap_or(false), "honest link {} does not verify", l + 1);
            c.ch.extend_with_even(lk).map_err(|e| format!("extending with link {}: {:?}", l + 1, e))?;
            ensure!(c.ch.verify_last_even_delegation(&c.evk[l / 2 + 1], &c.ovk[l / 2], &c.p2).unwrap_or(false), "last even link does not verify");
        }
    }
    Ok(c)
}
fn verdicts(c: &Ch) -> (Option<bool>, Option<bool>) {
    (c.ch.verify_delegations(c.evk.iter().collect(), c.ovk.iter().collect(), &c.p1, &c.p2).ok(), c.ch.verify_delegations_batched(c.evk.iter().collect(), c.ovk.iter().collect(), &c.p1, &c.p2).ok())
}
/// every link is consecutive, names its delegatee and is signed by the previous key
fn chain_ok(c: &Ch) -> bool {
    let (a, b) = (c.ch.odd_links.len(), c.ch.even_links.len());
    if a + b == 0 || !(a == b || a == b + 1) || c.evk.len() != b + 1 || c.ovk.len() != a { return false; }
    for i in 0..a { let l = &c.ch.odd_links[i]; let n = l.attributes.len(); if l.level != 2 * i + 1 || n == 0 || l.attributes[n - 1] != c.ovk[i].0 || one::oracle(&l.signature, l.attributes.as_slice(), &c.evk[i], &c.p1) != Some(true) { return false; } }
    for i in 0..b { let l = &c.ch.even_links[i]; let n = l.attributes.len(); if l.level != 2 * i + 2 || n == 0 || l.attributes[n - 1] != c.evk[i + 1].0 || two::oracle(&l.signature, l.attributes.as_slice(), &c.ovk[i], &c.p2) != Some(true) { return false; } }
    true
}
fn chain(r: &mut R, c: u32) -> Out {
    let size = if c < 5 { c as usize + 1 } else { range(r, 1, 7) };
    let ch = build(r, size)?;
    ensure!(ch.ch.size() == size && ch.ch.odd_size() == (size + 1) / 2 && ch.ch.even_size() == size / 2, "size of a chain of {} links", size);
    let v = verdicts(&ch); ensure!(v == (Some(true), Some(true)), "honest chain of {} links: {:?}", size, v);
    let t = range(r, 0, size + 1); let tr = ch.ch.get_truncated(t).map_err(|e| format!("truncate to {}: {:?}", t, e))?;
    ensure!(tr.odd_size() == (t + 1) / 2 && tr.even_size() == t / 2, "truncation to {}", t);
    for i in 0..tr.odd_size() { ensure!(tr.odd_links[i].attributes == ch.ch.odd_links[i].attributes && tr.odd_links[i].level == 2 * i + 1, "truncation changed an odd link"); }
    for i in 0..tr.even_size() { ensure!(tr.even_links[i].attributes == ch.ch.even_links[i].attributes && tr.even_links[i].level == 2 * i + 2, "truncation changed an even link"); }
    ensure!(ch.ch.get_truncated(size + 1).is_err(), "truncation to more links than there are");
    if t > 0 {
        let evk: Vec<&Groth1Verkey> = ch.evk.iter().take(t / 2 + 1).collect(); let ovk: Vec<&Groth2Verkey> = ch.ovk.iter().take((t + 1) / 2).collect();
        ensure!(tr.verify_delegations(evk.clone(), ovk.clone(), &ch.p1, &ch.p2).unwrap_or(false) && tr.verify_delegations_batched(evk, ovk, &ch.p1, &ch.p2).unwrap_or(false), "truncated chain of {} links rejected", t);
    }
    // extension rules
    let mut x = ch.ch.clone();
    for l in ch.ch.odd_links.iter() { ensure!(x.clone().extend_with_odd(l.clone()).is_err(), "a chain with {} odd links was extended with level {}", x.odd_size(), l.level); }
    for l in ch.ch.even_links.iter() { ensure!(x.clone().extend_with_even(l.clone()).is_err(), "a chain was extended with an even link at level {}", l.level); }
    if let Some(l) = ch.ch.odd_links.last() { let mut l = l.clone(); l.level += if coin(r) { 1 } else { 4 }; ensure!(x.extend_with_odd(l).is_err(), "odd link at a wrong level accepted"); }
    if let Some(l) = ch.ch.even_links.last() { let mut l = l.clone(); l.level += if coin(r) { 1 } else { 4 }; ensure!(x.extend_with_even(l).is_err(), "even link at a wrong level accepted"); }
    ensure!(EvenLevelIssuer::new(2 * t + 1).is_err() && OddLevelIssuer::new(2 * t).is_err(), "issuer made at the wrong parity");
    let at: Vec<G1> = (0..ch.p1.y.len()).map(|_| g1(r)).collect();
    ensure!(EvenLevelIssuer::new(0).unwrap().delegate(at.into(), ch.ovk[0].clone(), &ch.esk[0], &ch.p1).is_err(), "delegation with too many attributes");
    Ok(())
}
fn broken(r: &mut R, c: u32) -> Out {
    let size = range(r, 1, 6); let mut h = build(r, size)?;
    let k = c % 18; let (a, b) = (h.ch.odd_size(), h.ch.even_size()); let i = r.gen_range(0, a); let j = if b > 0 { r.gen_range(0, b) } else { 0 };
    match k {
        0 => { let n = h.ch.odd_links[i].attributes.len(); let q = r.gen_range(0, n); let d = g1(r); let v = &h.ch.odd_links[i].attributes[q] + &d; h.ch.odd_links[i].attributes[q] = v; }
        1 => if b > 0 { let n = h.ch.even_links[j].attributes.len(); let q = r.gen_range(0, n); let d = g2(r); let v = &h.ch.even_links[j].attributes[q] + &d; h.ch.even_links[j].attributes[q] = v; },
        2 => { h.ovk[i] = Groth2Verkey(g1(r)); }
        3 => { let q = r.gen_range(0, h.evk.len()); h.evk[q] = Groth1Verkey(g2(r)); }
        4 => if a > 1 { h.ch.odd_links.swap(0, a - 1); },
        5 => if b > 1 { h.ch.even_links.swap(0, b - 1); },
        6 => { h.ch.odd_links.remove(i); }
        7 => if b > 0 { h.ch.even_links.remove(j); },
        8 => { h.ch.odd_links[i].level += 2; }
        9 => if b > 0 { h.ch.even_links[j].level += 2; },
        10 => { h.evk.pop(); }
        11 => { h.ovk.pop(); }
        12 => { let g = g1(r); h.ch.odd_links[i].attributes.push(g); }
        13 => { h.ch.odd_links[i].attributes = vec![].into(); h.ch.odd_links[i].signature.T = vec![].into(); }
        14 => if b > 0 { // two links that compensate each other in a sum
            let i = j; let q = r.gen_range(0, 3); let d = fenz(r);
            if h.ch.odd_links[i].attributes.len() > q + 1 && h.ch.even_links[j].attributes.len() > q + 1 {
                let v = &h.ch.odd_links[i].attributes[q] + &(&h.p2.g1 * &d); h.ch.odd_links[i].attributes[q] = v;
                // e(d g1', g2) in the odd link against e(g1', -d g2) in the even link
                let w = &h.ch.even_links[j].attributes[q] - &(&h.p1.g2 * &d); h.ch.even_links[j].attributes[q] = w;
            }
        },
        15 => { let d = g1(r); let v = &h.ch.odd_links[i].signature.S + &d; h.ch.odd_links[i].signature.S = v; }
        16 => if b > 0 { // keep the link, change its delegatee key on both sides: the next link no longer follows
            let n = h.ch.even_links[j].attributes.len(); let (sk, vk) = one::key(r, &h.p1)?; let _ = sk;
            let mut at = h.ch.even_links[j].attributes.clone(); at[n - 1] = vk.0.clone();
            h.ch.even_links[j].signature = two::craft(r, at.as_slice(), &h.osk[j], &h.p2); h.ch.even_links[j].attributes = at; h.evk[j + 1] = vk;
        },
        _ => { h.ch.odd_links[i].signature.T.pop(); }
    }
    let want = chain_ok(&h);
    let v = (nopanic("verify_delegations", || verdicts(&h)))?;
    ensure!((v.0 == Some(true)) == want && (v.1 == Some(true)) == want, "change {} on a chain of {} links ({} odd, {} even): verify_delegations {:?}, batched {:?}, but the links say {}", k, size, a, b, v.0, v.1, want);
    Ok(())
}
fn link_checks(r: &mut R, c: u32) -> Out {
    let h = build(r, 2)?; let k = c % 6;
    let mut o = h.ch.odd_links[0].clone(); let mut e = h.ch.even_links[0].clone();
    match k {
        0 => { let n = o.attributes.len(); o.attributes[n - 1] = g1(r); let n = e.attributes.len(); e.attributes[n - 1] = g2(r); }
        1 => { o.attributes = o.attributes.iter().skip(1).cloned().collect::<Vec<_>>().into(); e.attributes = e.attributes.iter().skip(1).cloned().collect::<Vec<_>>().into(); }
        2 => { while o.attributes.len() <= h.p1.y.len() { let g = g1(r); o.attributes.insert(0, g.clone()); o.signature.T.insert(0, g); } while e.attributes.len() <= h.p2.y.len() { let g = g2(r); e.attributes.insert(0, g.clone()); e.signature.T.insert(0, g); } }
        3 => { if o.attributes.len() > 1 { o.attributes[0] = g1(r); } if e.attributes.len() > 1 { e.attributes[0] = g2(r); } }
        4 => { o.signature.R = g2(r); e.signature.R = g1(r); }
        _ => {}
    }
    let has = |n: usize, last: bool| n > 0 && last;
    let ho = has(o.attributes.len(), o.attributes.len() > 0 && o.attributes[o.attributes.len() - 1] == h.ovk[0].0); let he = has(e.attributes.len(), e.attributes.len() > 0 && e.attributes[e.attributes.len() - 1] == h.evk[1].0);
    ensure!(o.has_verkey(&h.ovk[0]) == ho && e.has_verkey(&h.evk[1]) == he, "has_verkey is wrong (change {})", k);
    let wo = if !ho { None } else { one::oracle(&o.signature, o.attributes.as_slice(), &h.evk[0], &h.p1) }; let we = if !he { None } else { two::oracle(&e.signature, e.attributes.as_slice(), &h.ovk[0], &h.p2) };
    ensure!(o.verify(&h.ovk[0], &h.evk[0], &h.p1).ok() == wo, "odd link check differs from the equations (change {})", k);
    ensure!(e.verify(&h.evk[1], &h.ovk[0], &h.p2).ok() == we, "even link check differs from the equations (change {})", k);
    Ok(())
}
pub fn all() -> Vec<Sc> {
    vec![Sc { prop: "G01", name: "sign1", quick: 40, thorough: 500, f: one::sign }, Sc { prop: "G01", name: "sign2", quick: 40, thorough: 500, f: two::sign },
         Sc { prop: "G01", name: "tamper1", quick: 96, thorough: 960, f: one::tamper }, Sc { prop: "G01", name: "tamper2", quick: 96, thorough: 960, f: two::tamper },
         Sc { prop: "G02", name: "chain", quick: 30, thorough: 300, f: chain }, Sc { prop: "G02", name: "broken", quick: 108, thorough: 1080, f: broken }, Sc { prop: "G02", name: "links", quick: 36, thorough: 300, f: link_checks }]
}
