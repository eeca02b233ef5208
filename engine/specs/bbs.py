"""Contracts and lemmas for libzmix/bbs (properties B01..B05, V01)."""
from contracts import *
from models_bbs import BBSModels
G1, G2 = fsym('gen1'), fsym('gen2')
C = {}      # ident -> Contract
LEM = []
def con(ident, n=0, **opts):
    def d(f): C[ident] = Contract('bbs', ident, f, n, opts); return f
    return d
def lem(name, props, limit=60):
    def d(f): LEM.append((props, Lemma('bbs', name, f, limit))); return f
    return d
nz = lambda x: not_(feq0(x))

# ---- specification functions
def h(c, pk, k): return ring(c, c.at(c.f(pk, 'h'), k))
def nmsg(c, pk): return c.len(c.f(pk, 'h'))
def pk_ok(c, pk):
    n = nmsg(c, pk)
    return and_(nz(ring(c, c.f(pk, 'h0'))), nz(ring(c, c.f(pk, 'w'))), c.all(0, n, lambda k: nz(h(c, pk, k))))
def B(c, pk, s, msg):
    """g1 + s h0 + sum_i m_i h_i over all generators"""
    return radd(G1, radd(rmul(s, ring(c, c.f(pk, 'h0'))), c.sum(0, nmsg(c, pk), lambda k: rmul(msg(k), h(c, pk, k)))))
def sig(c, s): return [ring(c, c.f(s, x)) for x in ('a', 'e', 's')]
def sig_ok(c, s): return and_(*[nz(x) for x in sig(c, s)])
def sigeq(c, pk, s, msg):
    a, e, ss = sig(c, s)
    # e(A, e g2 + w) = e(B, g2)
    return feq0(rsub(rmul(a, radd(rmul(e, G2), ring(c, c.f(pk, 'w')))), rmul(B(c, pk, ss, msg), G2)))
def msgs(c, ms): return lambda k: ring(c, c.at(ms, k))

# ---- B01 / B02
@con('PublicKey::validate')
def _(c, pk):
    c.ok(pk_ok(c, pk), UNITV); c.err(not_(pk_ok(c, pk)))
@con('Signature::validate')
def _(c, s):
    c.ok(sig_ok(c, s), UNITV); c.err(not_(sig_ok(c, s)))
@con('SecretKey::validate')
def _(c, k):
    c.ok(nz(ring(c, k)), UNITV); c.err(feq0(ring(c, k)))
@con('Signature::new')
def _(c, ms, sk, pk):
    n, m = nmsg(c, pk), c.len(ms); x = ring(c, sk)
    good = and_(le(m, n), nz(x), pk_ok(c, pk))
    e, s = c.wit('e', nonzero=True), c.wit('s', nonzero=True)
    b = radd(G1, radd(rmul(s, ring(c, c.f(pk, 'h0'))), c.sum(0, m, lambda k: rmul(ring(c, c.at(ms, k)), h(c, pk, k)))))
    c.fact(nz(radd(x, e)))
    c.ok(good, c.mk('Signature', a=rmul(b, rinv(radd(x, e))), e=e, s=s)); c.err(not_(good))
@con('Issuer::sign')
def _(c, ms, sk, pk): C['Signature::new'].fn(c, ms, sk, pk)
@con('Signature::verify')
def _(c, s, ms, pk):
    good = and_(eq(c.len(ms), nmsg(c, pk)), pk_ok(c, pk), sig_ok(c, s))
    c.ok(good, sigeq(c, pk, s, msgs(c, ms))); c.err(not_(good))
@con('BlindSignature::new')
def _(c, cm, ms, sk, pk):
    n = nmsg(c, pk); x = ring(c, sk); ms = c.D(ms)
    k = fresh_var('I', 'k')
    inr = forall(k, c.has(ms, k), lt(k, n))
    good = and_(inr, nz(x), pk_ok(c, pk))
    e, s = c.wit('e', nonzero=True), c.wit('s', nonzero=True)
    k = fresh_var('I', 'k')
    b = radd(radd(ring(c, cm), G1), radd(rmul(s, ring(c, c.f(pk, 'h0'))), rsum(k, c.has(ms, k), rmul(ring(c, c.get(ms, k)), h(c, pk, k)))))
    c.fact(nz(radd(x, e)))
    c.ok(good, c.mk('BlindSignature', a=rmul(b, rinv(radd(x, e))), e=e, s=s)); c.err(not_(good))
@con('BlindSignature::to_unblinded')
def _(c, b, t):
    a, e, s = sig(c, b)
    c.ret(TRUE, c.mk('Signature', a=a, e=e, s=radd(s, ring(c, t))))
@con('Prover::complete_signature')
def _(c, pk, ms, b, t):
    a, e, s = sig(c, b); sg = c.mk('Signature', a=a, e=e, s=radd(s, ring(c, t)))
    good = and_(eq(c.len(ms), nmsg(c, pk)), pk_ok(c, pk), sig_ok(c, sg), sigeq(c, pk, sg, msgs(c, ms)))
    c.ok(good, sg); c.err(not_(good))

# ---- Schnorr proofs over vector commitments (V01, bbs part)
from models_bbs import chunk
def enc(c, x, comp=False, ty='G1'): return chunk(ty, comp, x)
def encs(c, *xs): return Seq([enc(c, x) for x in xs])
def H(c, data): return ring(c, c.call('ProofChallenge as HashElem::hash', data))
def seqb(v): return Seq(list(v.segs))
def wrap(c, name, t): return Adt(c.ex.prog.tt['bbs'].byname[name][0].path, 0, name, [t])

@con('ProverCommittingG1::new')
def _(c): c.ret(TRUE, c.mk('ProverCommittingG1', bases=Seq(), blinding_factors=Seq()))
@con('ProverCommittingG1::commit', types={1: 'GeneratorG1'})
def _(c, s, base):
    r = c.wit('blinding', nonzero=True, bind=None)
    n = c.len(c.f(s, 'bases'))
    c.ret(TRUE, n, {0: c.mk('ProverCommittingG1', bases=c.seq(c.D(c.f(s, 'bases')), ring(c, base)), blinding_factors=c.seq(c.D(c.f(s, 'blinding_factors')), r))})
@con('ProverCommittingG1::commit_with', types={1: 'GeneratorG1', 2: 'ProofNonce'})
def _(c, s, base, b):
    n = c.len(c.f(s, 'bases'))
    c.ret(TRUE, n, {0: c.mk('ProverCommittingG1', bases=c.seq(c.D(c.f(s, 'bases')), ring(c, base)), blinding_factors=c.seq(c.D(c.f(s, 'blinding_factors')), ring(c, b)))})
@con('ProverCommittingG1::finish')
def _(c, s):
    b, f = c.f(s, 'bases'), c.f(s, 'blinding_factors')
    c.req(eq(c.len(b), c.len(f)))
    c.ret(TRUE, c.mk('ProverCommittedG1', bases=c.D(b), blinding_factors=c.D(f), commitment=c.dot(b, f)))
@con('ProverCommittingG1::get_index')
def _(c, s, i):
    b, f = c.f(s, 'bases'), c.f(s, 'blinding_factors')
    c.req(eq(c.len(b), c.len(f)))
    c.ok(lt(i, c.len(b)), Tup([wrap(c, 'GeneratorG1', ring(c, c.at(b, i))), wrap(c, 'SignatureMessage', ring(c, c.at(f, i)))])); c.err(le(c.len(b), i))
def committed_bytes(c, s):
    return c.seq(c.flatmap(lambda x: encs(c, ring(c, x)), c.f(s, 'bases')), encs(c, ring(c, c.f(s, 'commitment'))))
@con('ProverCommittedG1::to_bytes')
def _(c, s): c.ret(TRUE, committed_bytes(c, s))
@con('ProverCommittedG1::gen_challenge', types={1: '&[u8]'})
def _(c, s, extra): c.ret(TRUE, wrap(c, 'ProofChallenge', H(c, c.seq(committed_bytes(c, s), c.D(extra)))))
@con('ProverCommittedG1::gen_proof')
def _(c, s, ch, secrets):
    b, f = c.f(s, 'bases'), c.f(s, 'blinding_factors'); n = c.len(b)
    c.req(eq(n, c.len(f)))
    g = eq(c.len(secrets), n)
    c.ok(g, c.under(g, lambda c: c.mk('ProofG1', commitment=ring(c, c.f(s, 'commitment')), responses=c.zipmap(lambda x, y: rsub(ring(c, x), rmul(ring(c, ch), ring(c, y))), f, secrets))))
    c.err(not_(g))
def contribution(c, s, bases, com, ch): return radd(c.dot(bases, c.f(s, 'responses')), rmul(ring(c, ch), ring(c, com)))
@con('ProofG1::get_challenge_contribution')
def _(c, s, bases, com, ch):
    g = eq(c.len(bases), c.len(c.f(s, 'responses')))
    if c.mode == 'check' or prove(c.st.pc, g): c.ok(g, wrap(c, 'GeneratorG1', gdot(c, g, lambda c2: contribution(c2, s, bases, com, ch)))); c.err(not_(g))
    else:
        c.ok(g, wrap(c, 'GeneratorG1', gdot(c, g, lambda c2: contribution(c2, s, bases, com, ch)))); c.err(not_(g))
def gdot(c, g, f):
    """evaluate a specification term under the assumption g"""
    st = c.st; c.st = st.fork().assume(g)
    try:
        if contradiction(c.st.pc): return R0
        return f(c)
    finally: c.st = st
@con('ProofG1::verify')
def _(c, s, bases, com, ch):
    g = eq(c.len(bases), c.len(c.f(s, 'responses')))
    c.ok(g, gdot(c, g, lambda c: feq0(rsub(contribution(c, s, bases, com, ch), ring(c, c.f(s, 'commitment')))))); c.err(not_(g))
@con('ProofG1::verify_complete_proof')
def _(c, s, bases, com, ch, nonce):
    g = eq(c.len(bases), c.len(c.f(s, 'responses')))
    def v(c):
        t = contribution(c, s, bases, com, ch); n = c.len(bases)
        data = c.seq(c.flatmap(lambda x: encs(c, ring(c, x)), bases), encs(c, t, ring(c, com)), c.D(nonce))
        return and_(feq0(rsub(t, ring(c, c.f(s, 'commitment')))), feq0(rsub(H(c, data), ring(c, ch))))
    c.ok(g, gdot(c, g, v)); c.err(not_(g))

# ---- proofs of knowledge of a signature (B03, B04)
def hid(c, m): return isvar(c, m, 'Hidden')
def pm_msg(c, m):
    def pick(x):
        if x.vn == 'Revealed': return c.D(x.fs[0])
        y = c.D(x.fs[0])
        return payload(c, y, lambda z: c.D(z.fs[0]))
    return payload(c, m, pick)
@con('ProofMessage::get_message')
def _(c, m): c.ret(TRUE, wrap(c, 'SignatureMessage', ring(c, pm_msg(c, m))))
@con("PoKOfSignature::init", check_only=True)
def _(c, s, pk, ms):
    n = nmsg(c, pk)
    mm = lambda k: ring(c, pm_msg(c, c.at(ms, k)))
    good = and_(eq(c.len(ms), n), pk_ok(c, pk), sig_ok(c, s), sigeq(c, pk, s, mm))
    c.err(not_(good))
    a, e, ss = sig(c, s); h0 = ring(c, c.f(pk, 'h0'))
    r2 = c.wit('r2', nonzero=True, bind=lambda ex, st, v: ring(c, ex.segs_get(st, ex.norm_segs(list(ex.getf(st, v.fs[0], 'secrets_1').segs)), ONE, st.pc)))
    r1 = c.wit('r1', nonzero=True, bind=lambda ex, st, v: rneg(rinv(ring(c, ex.segs_get(st, ex.norm_segs(list(ex.getf(st, v.fs[0], 'secrets_2').segs)), ZERO, st.pc)))))
    b = B(c, pk, ss, mm); r3 = rinv(r1)
    ap = rmul(r1, a); ab = rsub(rmul(r1, b), rmul(e, ap)); d = rsub(rmul(r1, b), rmul(r2, h0))
    hidden = lambda k: hid(c, c.at(ms, k))
    def committed(bases):
        def chk(cm, st, v, path):
            """bases as specified; commitment is sum of bases*blindings; as many blindings as bases"""
            ex = cm.ex; sp = Spec(ex, st, 'bbs', 'x'); f = sp.D(sp.f(v, 'blinding_factors')); bb = sp.D(sp.f(v, 'bases'))
            cm.val(st, bb, vsub(bases, cm.sub), path + '.bases')
            if not prove(st.pc, eq(sp.len(bb), sp.len(f))): return cm.fail(path + '.blinding_factors', 'length')
            cm.val(st, ring(sp, sp.f(v, 'commitment')), sp.dot(bb, f), path + '.commitment')
            # an external blinding is the blinding factor at that message's position
            return True
        return chk
    k = fresh_var('I', 'k'); k2 = fresh_var('I', 'k')
    rev = MapV(k, and_(le(ZERO, k), lt(k, n), not_(hidden(k))), wrap(c, 'SignatureMessage', mm(k)), 'asc')
    c.ok(good, c.mk('PoKOfSignature', a_prime=ap, a_bar=ab, d=d, pok_vc_1=committed(c.seq(ap, h0)), secrets_1=c.seq(rneg(e), r2),
         pok_vc_2=committed(c.seq(d, h0, (0, n, lambda k: h(c, pk, k), hidden))), secrets_2=c.seq(rneg(r3), rsub(ss, rmul(r2, r3)), (0, n, mm, hidden)), revealed_messages=rev))
@con('PoKOfSignature::to_bytes')
def _(c, s):
    c.ret(TRUE, c.seq(encs(c, ring(c, c.f(s, 'a_bar'))), committed_bytes(c, c.f(s, 'pok_vc_1')), committed_bytes(c, c.f(s, 'pok_vc_2'))))
def resp(c, vc, sec, ch):
    f = c.f(vc, 'blinding_factors'); n = c.len(c.f(vc, 'bases'))
    return c.mk('ProofG1', commitment=ring(c, c.f(vc, 'commitment')), responses=c.zipmap(lambda x, y: rsub(ring(c, x), rmul(ring(c, ch), ring(c, y))), f, sec))
@con('PoKOfSignature::gen_proof')
def _(c, s, ch):
    v1, v2, s1, s2 = [c.f(s, x) for x in ('pok_vc_1', 'pok_vc_2', 'secrets_1', 'secrets_2')]
    for v in (v1, v2): c.req(eq(c.len(c.f(v, 'bases')), c.len(c.f(v, 'blinding_factors'))))
    g = and_(eq(c.len(s1), c.len(c.f(v1, 'bases'))), eq(c.len(s2), c.len(c.f(v2, 'bases'))))
    c.ok(g, c.under(g, lambda c: c.mk('PoKOfSignatureProof', a_prime=ring(c, c.f(s, 'a_prime')), a_bar=ring(c, c.f(s, 'a_bar')), d=ring(c, c.f(s, 'd')), proof_vc_1=resp(c, v1, s1, ch), proof_vc_2=resp(c, v2, s2, ch))))
    c.err(not_(g))
def proof_bytes(c, p, rev, pk):
    """what the verifier hashes: abar, a', h0, T1, d, h0, hidden h_i, T2"""
    rev = c.D(rev); h0 = ring(c, c.f(pk, 'h0')); g = lambda x: ring(c, c.f(p, x))
    return c.seq(encs(c, g('a_bar'), g('a_prime'), h0, ring(c, c.f(p, 'proof_vc_1.commitment')), g('d'), h0),
                 (0, nmsg(c, pk), lambda k: Seq([enc(c, h(c, pk, k))]), lambda k: not_(c.has(rev, k))), encs(c, ring(c, c.f(p, 'proof_vc_2.commitment'))))
@con('PoKOfSignatureProof::get_bytes_for_challenge')
def _(c, p, rev, pk): c.ret(TRUE, proof_bytes(c, p, rev, pk))
@con('PoKOfSignatureProof::get_resp_for_message')
def _(c, p, i):
    r = c.f(p, 'proof_vc_2.responses'); g = lt(iadd(i, num(2)), c.len(r))
    c.ok(g, gdot(c, g, lambda c: wrap(c, 'SignatureMessage', ring(c, c.at(r, iadd(i, num(2))))))); c.err(not_(g))
ST = lambda c, n: c.mk('PoKOfSignatureProofStatus::' + n)
def pok_verify(c, p, pk, rev, ch):
    """the conditions of proof verification: (error, [(status, condition)])"""
    rev = c.D(rev); n = nmsg(c, pk)
    g = lambda x: ring(c, c.f(p, x))
    ap, ab, d = g('a_prime'), g('a_bar'), g('d'); h0 = ring(c, c.f(pk, 'h0')); w = ring(c, c.f(pk, 'w'))
    k = fresh_var('I', 'k')
    inr = forall(k, c.has(rev, k), lt(k, n))
    p1, p2 = c.f(p, 'proof_vc_1'), c.f(p, 'proof_vc_2')
    sigok = and_(nz(ap), feq0(rsub(rmul(ap, w), rmul(ab, G2))))
    l1 = eq(c.len(c.f(p1, 'responses')), num(2))
    k = fresh_var('I', 'k')
    nh = count(k, and_(le(ZERO, k), lt(k, n), not_(c.has(rev, k))))
    pre = and_(pk_ok(c, pk), inr)
    fit = eq(c.len(c.f(p2, 'responses')), iadd(nh, num(2)))
    def vc1(c):
        t = radd(c.dot(c.seq(ap, h0), c.f(p1, 'responses')), rmul(ring(c, ch), rsub(ab, d)))
        return feq0(rsub(t, ring(c, c.f(p1, 'commitment'))))
    v1 = gdot(c, and_(pre, l1), vc1)
    def vc2(c):
        k = fresh_var('I', 'k')
        pr = rneg(radd(G1, rsum(k, and_(le(ZERO, k), lt(k, n), c.has(rev, k)), rmul(ring(c, c.get(rev, k)), h(c, pk, k)))))
        bases = c.seq(d, h0, (0, n, lambda k: h(c, pk, k), lambda k: not_(c.has(rev, k))))
        t = radd(c.dot(bases, c.f(p2, 'responses')), rmul(ring(c, ch), pr))
        return feq0(rsub(t, ring(c, c.f(p2, 'commitment'))))
    v2 = gdot(c, and_(pre, fit), vc2)
    return pre, sigok, l1, v1, and_(fit, v2)
@con('PoKOfSignatureProof::verify')
def _(c, p, pk, rev, ch):
    pre, sigok, l1, v1, v2 = pok_verify(c, p, pk, rev, ch)
    c.err(or_(not_(pre), and_(sigok, not_(l1))))
    c.ok(and_(pre, not_(sigok)), ST(c, 'BadSignature'), label='BadSignature')
    c.ok(and_(pre, sigok, l1, not_(v1)), ST(c, 'BadHiddenMessage'), label='BadHidden')
    c.ok(and_(pre, sigok, l1, v1, not_(v2)), ST(c, 'BadRevealedMessage'), label='BadRevealed')
    c.ok(and_(pre, sigok, l1, v1, v2), ST(c, 'Success'), label='Success')

# ---- issuer / prover / verifier API
def ctx_bases(c, pk, rev): return c.seq(ring(c, c.f(pk, 'h0')), (0, nmsg(c, pk), lambda k: h(c, pk, k), lambda k: not_(c.has(rev, k))))
@con('BlindSignatureContext::verify')
def _(c, s, rev, pk, nonce):
    rev = c.D(rev); n = nmsg(c, pk)
    k = fresh_var('I', 'k'); nh = count(k, and_(le(ZERO, k), lt(k, n), not_(c.has(rev, k))))
    pf = c.f(s, 'proof_of_hidden_messages')
    fit = eq(c.len(c.f(pf, 'responses')), iadd(nh, ONE))
    def v(c):
        bases = ctx_bases(c, pk, rev); ch, com = ring(c, c.f(s, 'challenge_hash')), ring(c, c.f(s, 'commitment'))
        t = radd(c.dot(bases, c.f(pf, 'responses')), rmul(ch, com))
        data = c.seq(encs(c, ring(c, c.f(pk, 'h0'))), (0, n, lambda k: Seq([enc(c, h(c, pk, k))]), lambda k: not_(c.has(rev, k))), encs(c, t, com), Seq([chunk('Fr', True, ring(c, nonce))]))
        return and_(feq0(rsub(t, ring(c, c.f(pf, 'commitment')))), feq0(rsub(H(c, data), ch)))
    c.ok(fit, gdot(c, fit, v)); c.err(not_(fit))
@con('Prover::create_challenge_hash', types={1: 'Option<&[&[u8]]>'})
def _(c, ps, claims, nonce):
    n = c.len(ps)
    base = [(0, n, lambda k: c.seq(encs(c, ring(c, c.f(c.at(ps, k), 'a_bar'))), committed_bytes(c, c.f(c.at(ps, k), 'pok_vc_1')), committed_bytes(c, c.f(c.at(ps, k), 'pok_vc_2')))), Seq([chunk('Fr', True, ring(c, nonce))])]
    cl = payload(c, claims, lambda x: None if x.vn == 'None' else c.D(x.fs[0]))
    some_ = isvar(c, claims, 'Some')
    if some_ is not FALSE:
        full = base + [(0, c.len(cl), lambda k: Seq(list(c.D(c.at(cl, k)).segs)))]
        c.ok(some_, wrap(c, 'ProofChallenge', H(c, c.seq(*full))), label='claims')
    c.ok(not_(some_), wrap(c, 'ProofChallenge', H(c, c.seq(*base))), label='noclaims')
@con('Verifier::create_challenge_hash')
def _(c, ps, rs, nonce, claims):
    c.req(eq(c.len(ps), c.len(rs)))
    n = c.len(ps)
    base = [(0, n, lambda k: proof_bytes(c, c.f(c.at(ps, k), 'proof'), c.f(c.at(rs, k), 'revealed_messages'), c.f(c.at(rs, k), 'verification_key'))), Seq([chunk('Fr', True, ring(c, nonce))])]
    cl = payload(c, claims, lambda x: None if x.vn == 'None' else c.D(x.fs[0]))
    some_ = isvar(c, claims, 'Some')
    if some_ is not FALSE:
        full = base + [(0, c.len(cl), lambda k: Seq(list(c.D(c.at(cl, k)).segs)))]
        c.ok(some_, wrap(c, 'ProofChallenge', H(c, c.seq(*full))), label='claims')
    c.ok(not_(some_), wrap(c, 'ProofChallenge', H(c, c.seq(*base))), label='noclaims')
@con('Verifier::new_proof_request')
def _(c, idx, pk):
    n = nmsg(c, pk); m = c.len(idx)
    inr = c.all(0, m, lambda k: lt(c.at(idx, k), n))
    k = fresh_var('I', 'k'); j = fresh_var('I', 'j')
    c.ok(inr, c.mk('ProofRequest', revealed_messages=MapV(k, exists(j, and_(le(ZERO, j), lt(j, m)), eq(c.at(idx, j), k)), UNITV, 'asc'), verification_key=c.D(pk)))
    c.err(not_(inr))
@con('Verifier::verify_signature_pok')
def _(c, req, sp, nonce):
    want = c.D(c.f(req, 'revealed_messages')); got = c.D(c.f(sp, 'revealed_messages')); pk = c.f(req, 'verification_key'); p = c.f(sp, 'proof')
    k = fresh_var('I', 'k')
    samek = and_(forall(k, c.has(want, k), c.has(got, k)), forall(k, c.has(got, k), c.has(want, k)))
    ch = H(c, c.seq(proof_bytes(c, p, want, pk), Seq([chunk('Fr', True, ring(c, nonce))])))
    pre, sigok, l1, v1, v2 = pok_verify(c, p, pk, got, ch)
    good = and_(samek, pre, sigok, l1, v1, v2)
    k = fresh_var('I', 'k')
    c.ok(good, Seq([Comp(k, c.has(got, k), [One(c.get(got, k))])])); c.err(not_(good))
@con('Prover::new_blind_signature_context')
def _(c, pk, ms, nonce):
    ms = c.D(ms); n = nmsg(c, pk); k = fresh_var('I', 'k')
    inr = forall(k, c.has(ms, k), lt(k, n))
    h0 = ring(c, c.f(pk, 'h0'))
    t = c.wit('blinding', bind=lambda ex, st, v: ring(c, v.fs[0].fs[1]))
    k = fresh_var('I', 'k')
    com = radd(rmul(t, h0), rsum(k, c.has(ms, k), rmul(ring(c, c.get(ms, k)), h(c, pk, k))))
    k = fresh_var('I', 'k')
    nn = count(k, c.has(ms, k))
    c.ok(inr, Tup([Adt(c.ex.prog.tt['bbs'].byname['BlindSignatureContext'][0].path, 0, 'BlindSignatureContext', [wrap(c, 'Commitment', com), ANY, ANY]), wrap(c, 'SignatureBlinding', t)]))
    c.err(not_(inr))
C['Prover::new_blind_signature_context'].opts['check_only'] = True
@con('Issuer::blind_sign', check_only=True)
def _(c, ctx, ms, sk, pk, nonce):
    ms_ = c.D(ms)
    cc = Spec(c.ex, c.st, 'bbs', 'check')
    C['BlindSignatureContext::verify'].fn(cc, ctx, MapV(ms_.var, ms_.dom, UNITV, ms_.order), pk, nonce)
    accepted = and_(cc.cases[0].cond, cc.cases[0].out[1].fs[0])
    bb = Spec(c.ex, c.st, 'bbs', 'check'); C['BlindSignature::new'].fn(bb, c.f(ctx, 'commitment'), ms, sk, pk)
    c.wits = bb.wits
    good = and_(accepted, bb.cases[0].cond)
    c.ok(good, bb.cases[0].out[1].fs[0]); c.err(not_(good))

# ---------------------------------------------------------------- lemmas
def key(l, st):
    """a valid key pair: w = x g2, all generators nonzero"""
    pk = l.sym('PublicKey', 'pk'); c = l.spec(st); x = fsym('x')
    pk = c.mk('PublicKey', h0=c.f(pk, 'h0'), h=c.f(pk, 'h'), w=wrap(c, 'GeneratorG2', rmul(x, G2)))
    st.assume(pk_ok(c, pk), nz(x), nz(G2), nz(G1))
    return pk, wrap(c, 'SecretKey', x), x
@lem('signatures made by Signature::new verify', ('B01',))
def _(l):
    st = l.st; pk, sk, x = key(l, st); c = l.spec(st)
    ms = l.sym('Vec<SignatureMessage>', 'ms'); st.assume(eq(c.len(ms), nmsg(c, pk)))
    for s2, sg in l.must(st, 'Issuer::sign', ms, sk, pk, what='sign succeeds'):
        # A = 0 happens only if B = 0 for the random s
        c = l.spec(s2); s2.assume(nz(ring(c, c.f(sg, 'a'))))
        for s3, r in l.must(s2, 'Signature::verify', sg, ms, pk, what='verify returns'): l.holds(s3, r, 'verify is true')
@lem('changing a signed message is rejected', ('B01',))
def _(l):
    # from the contract of verify: two messages sequences differing at one place j are not both accepted
    st = l.st; pk, sk, x = key(l, st); c = l.spec(st)
    ms = l.sym('Vec<SignatureMessage>', 'ms'); sg = l.sym('Signature', 'sg'); d = fsym('d'); j = sym('j', 'I')
    n = nmsg(c, pk); st.assume(eq(c.len(ms), n), le(ZERO, j), lt(j, n), nz(d), sig_ok(c, sg))
    ms2 = c.seq((0, n, lambda k: wrap(c, 'SignatureMessage', radd(ring(c, c.at(ms, k)), rmul(ind(eq(k, j)), d)))))
    for s2, r in l.must(st, 'Signature::verify', sg, ms, pk, what='verify returns'):
        s2.assume(r)
        for s3, r2 in l.must(s2, 'Signature::verify', sg, ms2, pk, what='verify returns'):
            l.holds(s3, not_(r2), 'verify is false after the change')
@lem('blind issuance completes to a valid signature', ('B02',))
def _(l):
    st = l.st; pk, sk, x = key(l, st); c = l.spec(st); n = nmsg(c, pk)
    ms = l.sym('Vec<SignatureMessage>', 'ms'); st.assume(eq(c.len(ms), n))
    hid_ = lambda k: app('hidden', (k,), 'B')
    k = fresh_var('I', 'k'); H_ = MapV(k, and_(le(ZERO, k), lt(k, n), hid_(k)), c.at(ms, k), 'asc')
    k = fresh_var('I', 'k'); K_ = MapV(k, and_(le(ZERO, k), lt(k, n), not_(hid_(k))), c.at(ms, k), 'asc')
    nonce = l.sym('ProofNonce', 'nonce')
    for s2, r in l.must(st, 'Prover::new_blind_signature_context', pk, H_, nonce, what='context is made'):
        ctx, t = r.fs
        for s3, bs in l.must(s2, 'Issuer::blind_sign', ctx, K_, sk, pk, nonce, what='issuer accepts the context'):
            c = l.spec(s3); s3.assume(nz(ring(c, c.f(bs, 'a'))), nz(radd(ring(c, c.f(bs, 's')), ring(c, t))))
            for s4, sg in l.must(s3, 'Prover::complete_signature', pk, ms, bs, t, what='completed signature verifies'): pass
@lem('honest selective disclosure verifies', ('B03',))
def _(l):
    st = l.st; pk, sk, x = key(l, st); c = l.spec(st); n = nmsg(c, pk)
    pms = l.sym('Vec<ProofMessage>', 'pm'); sg = l.sym('Signature', 'sg'); st.assume(eq(c.len(pms), n), sig_ok(c, sg))
    st.assume(sigeq(c, pk, sg, lambda k: ring(c, pm_msg(c, c.at(pms, k)))))
    nonce = l.sym('ProofNonce', 'nonce')
    k = fresh_var('I', 'k')
    idx = MapV(k, and_(le(ZERO, k), lt(k, n), not_(hid(c, c.at(pms, k)))), UNITV, 'asc')
    req = c.mk('ProofRequest', revealed_messages=idx, verification_key=pk)
    for s2, pok in l.must(st, 'Prover::commit_signature_pok', req, pms, sg, what='commitment is made'):
        for s3, b in l.must(s2, 'PoKOfSignature::to_bytes', pok, what='prover transcript'):
            c = l.spec(s3)
            ch = wrap(c, 'ProofChallenge', H(c, c.seq(c.D(b), Seq([chunk('Fr', True, ring(c, nonce))]))))
            for s4, sp in l.must(s3, 'Prover::generate_signature_pok', pok, ch, what='proof is made'):
                for s5, out in l.must(s4, 'Verifier::verify_signature_pok', req, sp, nonce, what='verifier accepts'):
                    c = l.spec(s5)
                    l.eq(s5, out, c.seq((0, n, lambda k: wrap(c, 'SignatureMessage', ring(c, pm_msg(c, c.at(pms, k)))), lambda k: not_(hid(c, c.at(pms, k))))), 'returned values are the revealed messages')
@lem('prover and verifier derive the same challenge', ('B03',))
def _(l):
    st = l.st; pk, sk, x = key(l, st); c = l.spec(st); n = nmsg(c, pk)
    pms = l.sym('Vec<ProofMessage>', 'pm'); sg = l.sym('Signature', 'sg'); st.assume(eq(c.len(pms), n), sig_ok(c, sg))
    st.assume(sigeq(c, pk, sg, lambda k: ring(c, pm_msg(c, c.at(pms, k)))))
    nonce = l.sym('ProofNonce', 'nonce'); k = fresh_var('I', 'k')
    idx = MapV(k, and_(le(ZERO, k), lt(k, n), not_(hid(c, c.at(pms, k)))), UNITV, 'asc')
    req = c.mk('ProofRequest', revealed_messages=idx, verification_key=pk); claims = l.sym('Vec<Vec<u8>>', 'claims')
    for s2, pok in l.must(st, 'Prover::commit_signature_pok', req, pms, sg, what='commitment is made'):
        for cl in (none(), some(claims)):
            for s3, ch in l.must(s2, 'Prover::create_challenge_hash', Seq([One(pok)]), cl, nonce, what='prover challenge'):
                for s4, sp in l.must(s3, 'Prover::generate_signature_pok', pok, ch, what='proof is made'):
                    for s5, ch2 in l.must(s4, 'Verifier::create_challenge_hash', Seq([One(sp)]), Seq([One(req)]), nonce, cl, what='verifier challenge'):
                        l.eq(s5, ch, ch2, 'challenges agree')
                        c = l.spec(s5)
                        for s6, r in l.must(s5, 'PoKOfSignatureProof::verify', c.f(sp, 'proof'), pk, c.f(sp, 'revealed_messages'), ch2, what='proof checks'):
                            l.eq(s6, r, ST(c, 'Success'), 'status is Success')
@lem('vector commitment proofs verify', ('V01',))
def _(l):
    st = l.st; c = l.spec(st)
    s = l.sym('ProverCommittingG1', 'cm'); st.assume(eq(c.len(c.f(s, 'bases')), c.len(c.f(s, 'blinding_factors'))))
    sec = l.sym('Vec<SignatureMessage>', 'sec'); st.assume(eq(c.len(sec), c.len(c.f(s, 'bases')))); extra = l.sym('Vec<u8>', 'extra')
    gens = c.map(lambda x: wrap(c, 'GeneratorG1', x), c.f(s, 'bases'))
    com = wrap(c, 'Commitment', c.dot(c.f(s, 'bases'), sec))
    for s2, cd in l.must(st, 'ProverCommittingG1::finish', s, what='finish'):
        ch0 = l.sym('ProofChallenge', 'ch')
        for s3, p in l.must(s2, 'ProverCommittedG1::gen_proof', cd, ch0, sec, what='gen_proof'):
            for s4, r in l.must(s3, 'ProofG1::verify', p, gens, com, ch0, what='verify'): l.holds(s4, r, 'verify is true')
        c = l.spec(s2); nonce = l.sym('Vec<u8>', 'nonce')
        for s3, ch in l.must(s2, 'ProverCommittedG1::gen_challenge', cd, c.seq(encs(c, ring(c, com)), c.D(nonce)), what='gen_challenge'):
            for s4, p in l.must(s3, 'ProverCommittedG1::gen_proof', cd, ch, sec, what='gen_proof'):
                for s5, r in l.must(s4, 'ProofG1::verify_complete_proof', p, gens, com, ch, nonce, what='verify_complete_proof'): l.holds(s5, r, 'complete proof verifies')
@lem('vector commitment proof of a different commitment is rejected', ('V01',))
def _(l):
    st = l.st; c = l.spec(st)
    p = l.sym('ProofG1', 'p'); gens = l.sym('Vec<GeneratorG1>', 'g'); com, com2 = l.sym('Commitment', 'c1'), l.sym('Commitment', 'c2'); ch = l.sym('ProofChallenge', 'ch')
    st.assume(eq(c.len(gens), c.len(c.f(p, 'responses'))), nz(rsub(ring(c, com), ring(c, com2))), nz(ring(c, ch)))
    for s2, r in l.must(st, 'ProofG1::verify', p, gens, com, ch, what='verify'):
        s2.assume(r)
        for s3, r2 in l.must(s2, 'ProofG1::verify', p, gens, com2, ch, what='verify'): l.holds(s3, not_(r2), 'rejected for another commitment')
# ---- encodings (B05)
VAR = ['PublicKey', 'ProofG1', 'PoKOfSignatureProof', 'BlindSignatureContext', 'SignatureProof']
FIX = ['Signature', 'BlindSignature']
NEW = ['SecretKey', 'DeterministicPublicKey', 'Commitment', 'GeneratorG1', 'GeneratorG2', 'SignatureMessage', 'ProofNonce', 'ProofChallenge', 'SignatureBlinding']
def rt(ty, form):
    @lem('%s %s bytes round-trip' % (ty, form), ('B05',), 90)
    def _(l):
        st = l.st; v = l.sym(ty, 'v'); c = l.spec(st)
        if ty == 'PublicKey': st.assume(pk_ok(c, v))
        if ty == 'SignatureProof':
            # message indices that fit the 4 bytes they are written to
            m = c.f(v, 'revealed_messages')
            v = c.mk('SignatureProof', proof=c.f(v, 'proof'), revealed_messages=MapV(m.var, and_(m.dom, le(ZERO, m.var), lt(m.var, num(2 ** 32))), m.val, m.order))
        for x in lens(c, v): st.assume(lt(x, num(2 ** 25)))
        for s2, b in l.must(st, '%s as ToVariableLengthBytes::to_bytes_%s_form' % (ty, form), v, what='encode'):
            for s3, w in l.must(s2, '%s as ToVariableLengthBytes::from_bytes_%s_form' % (ty, form), b, what='decode'): l.eq(s3, w, v, 'decoded equals original')
def lens(c, v):
    out = []
    def go(x):
        if isinstance(x, Seq): out.append(c.len(x))
        elif isinstance(x, (Adt, Tup)):
            for y in x.fs: go(y)
        elif isinstance(x, MapV): out.append(count(x.var, x.dom))
    go(v); return out
for ty in VAR:
    for form in ('compressed', 'uncompressed'): rt(ty, form)
def rtf(ty, form, size):
    @lem('%s %s bytes round-trip' % (ty, form), ('B05',))
    def _(l):
        st = l.st; v = l.sym(ty, 'v')
        for s2, b in l.must(st, '%s::to_bytes_%s_form' % (ty, form), v, what='encode'):
            c = l.spec(s2); l.holds(s2, eq(c.len(b), num(size)), 'encoded length is %d' % size)
            for s3, w in l.must(s2, '%s as TryFrom::try_from' % ty, b, what='decode'): l.eq(s3, w, v, 'decoded equals original')
for ty in FIX:
    rtf(ty, 'compressed', 112); rtf(ty, 'uncompressed', 160)

# ---- which property each contract belongs to
TAGS = {
    'PublicKey::validate': 'B01 B04 B05', 'Signature::validate': 'B01', 'SecretKey::validate': 'B01 B02', 'Signature::new': 'B01',
    'Issuer::sign': 'B01', 'Signature::verify': 'B01 B02 B03', 'BlindSignature::new': 'B02', 'BlindSignature::to_unblinded': 'B02',
    'Prover::complete_signature': 'B02', 'ProverCommittingG1::new': 'V01 B02 B03', 'ProverCommittingG1::commit': 'V01 B02 B03',
    'ProverCommittingG1::commit_with': 'V01 B03', 'ProverCommittingG1::finish': 'V01 B02 B03', 'ProverCommittingG1::get_index': 'V01',
    'ProverCommittedG1::to_bytes': 'V01 B02 B03', 'ProverCommittedG1::gen_challenge': 'V01 B02', 'ProverCommittedG1::gen_proof': 'V01 B02 B03',
    'ProofG1::get_challenge_contribution': 'V01 B02', 'ProofG1::verify': 'V01 B04', 'ProofG1::verify_complete_proof': 'V01',
    'ProofMessage::get_message': 'B03', 'PoKOfSignature::init': 'B03', 'PoKOfSignature::to_bytes': 'B03', 'PoKOfSignature::gen_proof': 'B03',
    'PoKOfSignatureProof::get_bytes_for_challenge': 'B03 B04', 'PoKOfSignatureProof::get_resp_for_message': 'B03',
    'PoKOfSignatureProof::verify': 'B04', 'BlindSignatureContext::verify': 'B02', 'Prover::create_challenge_hash': 'B03',
    'Verifier::create_challenge_hash': 'B03 B04', 'Verifier::new_proof_request': 'B03 B04', 'Verifier::verify_signature_pok': 'B04',
    'Prover::new_blind_signature_context': 'B02', 'Issuer::blind_sign': 'B02',
}
CRATES = ['bbs']; MODELS = BBSModels
