"""Contracts and lemmas for libzmix Pointcheval-Sanders signatures and impl_PoK_VC! (P01..P04, V01)."""
from contracts import *
from models_amcl import AmclModels, chunk
GEN = fsym('gen1')
C = {}; LEM = []; TAGS = {}
def con(ident, tags, n=0, **opts):
    def d(f): C[ident] = Contract('zmix', ident, f, n, opts); TAGS[ident] = tags; return f
    return d
def lem(name, props, limit=60):
    def d(f): LEM.append((props, Lemma('zmix', name, f, limit))); return f
    return d
nz = lambda x: not_(feq0(x))
def R(c, v, *p):
    for x in p: v = c.f(v, x)
    return ring(c, v)
def at(c, v, k): return ring(c, c.at(v, k))
def enc(c, x, ty): return Seq([chunk(ty, x)])
def H(c, data): return fapp('hash.FieldElement', (valterm(data),))
def gdot(c, g, f):
    st = c.st; c.st = st.fork().assume(g)
    try: return R0 if contradiction(c.st.pc) else f(c)
    finally: c.st = st
SG, OG = 'G2', 'G1'      # features PS_Signature_G2 (default)

# ---- P01 keys, signatures
@con('BlindingKey::new', 'P02')
def _(c, sk, pr):
    g = R(c, pr, 'g'); y = c.f(sk, 'y')
    c.ret(TRUE, c.mk('BlindingKey', X=rmul(g, R(c, sk, 'x')), Y=c.map(lambda v: rmul(g, ring(c, v)), y)))
def uwit(c, pr):
    """the exponent u of sigma_1 = g u"""
    g = R(c, pr, 'g'); c.req(nz(g))
    return c.wit('u', nonzero=True, bind=lambda ex, st, v: rmul(ring(c, ex.getf(st, v.fs[0], 'sigma_1')), rinv(g)))
def msum(c, y, off, ms): return c.sum(0, c.len(ms), lambda k: rmul(at(c, y, iadd(off, k)), at(c, ms, k)))
@con('Signature::sign_with_sigma_1_generated_from_given_exp', 'P01 P02')
def _(c, ms, sk, u, off, g):
    c.req(le(iadd(off, c.len(ms)), num(2 ** 63)))
    y = c.f(sk, 'y'); good = eq(iadd(off, c.len(ms)), c.len(y))
    h = rmul(ring(c, g), ring(c, u))
    c.ok(good, gtup(c, good, lambda c: Tup([h, rmul(h, radd(R(c, sk, 'x'), msum(c, y, off, ms)))]))); c.err(not_(good))
def gtup(c, g, f): return c.under(g, f)
@con('Signature::new', 'P01')
def _(c, ms, sk, pr):
    y = c.f(sk, 'y'); good = eq(c.len(ms), c.len(y)); u = uwit(c, pr)
    h = rmul(R(c, pr, 'g'), u)
    c.ok(good, c.under(good, lambda c: c.mk('Signature', sigma_1=h, sigma_2=rmul(h, radd(R(c, sk, 'x'), msum(c, y, ZERO, ms)))))); c.err(not_(good))
def sigeq(c, s, vk, pr, msg):
    n = c.len(c.f(vk, 'Y_tilde'))
    return feq0(rsub(rmul(R(c, s, 'sigma_1'), radd(R(c, vk, 'X_tilde'), c.sum(0, n, lambda k: rmul(msg(k), at(c, c.f(vk, 'Y_tilde'), k))))), rmul(R(c, s, 'sigma_2'), R(c, pr, 'g_tilde'))))
def sig_ok(c, s): return and_(nz(R(c, s, 'sigma_1')), nz(R(c, s, 'sigma_2')))
@con('Signature::verify', 'P01 P02')
def _(c, s, ms, vk, pr):
    good = sig_ok(c, s); fit = eq(c.len(ms), c.len(c.f(vk, 'Y_tilde')))
    c.ok(or_(not_(good), fit), and_(good, gdot(c, and_(good, fit), lambda c: sigeq(c, s, vk, pr, lambda k: at(c, ms, k)))))
    c.err(and_(good, not_(fit)))
@con('Signature::to_bytes', 'P03 P04')
def _(c, s): c.ret(TRUE, sigbytes(c, s))
def sigbytes(c, s): return c.seq(enc(c, R(c, s, 'sigma_1'), SG), enc(c, R(c, s, 'sigma_2'), SG))
# ---- P02 blind signatures
@con('BlindSignature::new', 'P02')
def _(c, com, ms, sk, bk, pr):
    y, Y = c.f(sk, 'y'), c.f(bk, 'Y'); m = c.len(ms)
    good = and_(lt(m, c.len(Y)), eq(c.len(y), c.len(Y)))
    u = uwit(c, pr); h = rmul(R(c, pr, 'g'), u)
    c.ok(good, c.under(good, lambda c: c.mk('Signature', sigma_1=h, sigma_2=radd(rmul(h, radd(R(c, sk, 'x'), msum(c, y, isub(c.len(Y), m), ms))), rmul(ring(c, com), u)))))
    c.err(not_(good))
@con('BlindSignature::new_from_paper', 'P02')
def _(c, com, ms, X, bk, pr):
    Y = c.f(bk, 'Y'); m = c.len(ms); good = lt(m, c.len(Y))
    u = uwit(c, pr)
    c.ok(good, c.under(good, lambda c: c.mk('Signature', sigma_1=rmul(R(c, pr, 'g'), u), sigma_2=rmul(u, radd(radd(ring(c, X), msum(c, Y, isub(c.len(Y), m), ms)), ring(c, com))))))
    c.err(not_(good))
@con('BlindSignature::unblind', 'P02')
def _(c, s, t): c.ret(TRUE, c.mk('Signature', sigma_1=R(c, s, 'sigma_1'), sigma_2=rsub(R(c, s, 'sigma_2'), rmul(R(c, s, 'sigma_1'), ring(c, t)))))

# ---- V01: the vector commitment proofs, instantiated in both groups
def vc(grp, ty, tags, ptags):
    pc, pd, pf = 'ProverCommitting' + grp, 'ProverCommitted' + grp, 'Proof' + grp
    @con(pc + '::new', tags)
    def _(c): c.ret(TRUE, c.mk(pc, gens=Seq(), blindings=Seq()))
    @con(pc + '::commit', tags, check_only=True)
    def _(c, s, g, b):
        n = c.len(c.f(s, 'gens'))
        isS = isvar(c, b, 'Some')
        new = lambda x: c.mk(pc, gens=c.seq(c.D(c.f(s, 'gens')), ring(c, g)), blindings=c.seq(c.D(c.f(s, 'blindings')), x))
        if isS is not FALSE:
            bv = payload(c, b, lambda x: R0 if x.vn == 'None' else ring(c, x.fs[0]))
            c.ret(isS, n, {0: new(bv)}, label='given')
        r = c.wit('blinding', nonzero=True, bind=None)
        c.ret(not_(isS), n, {0: new(r)}, label='random')
    @con(pc + '::finish', tags)
    def _(c, s):
        b, f = c.f(s, 'gens'), c.f(s, 'blindings')
        c.req(eq(c.len(b), c.len(f)))
        c.ret(TRUE, c.mk(pd, gens=c.D(b), blindings=c.D(f), commitment=c.dot(b, f)))
    @con(pc + '::get_index', tags)
    def _(c, s, i):
        b, f = c.f(s, 'gens'), c.f(s, 'blindings')
        c.req(eq(c.len(b), c.len(f)))
        c.ok(lt(i, c.len(b)), Tup([at(c, b, i), at(c, f, i)])); c.err(le(c.len(b), i))
    @con(pd + '::to_bytes', tags)
    def _(c, s): c.ret(TRUE, committed_bytes(c, s, ty))
    @con(pd + '::gen_challenge', tags)
    def _(c, s, extra): c.ret(TRUE, H(c, c.seq(committed_bytes(c, s, ty), c.D(extra))))
    @con(pd + '::gen_proof', tags)
    def _(c, s, ch, secrets):
        b, f = c.f(s, 'gens'), c.f(s, 'blindings'); n = c.len(b)
        c.req(eq(n, c.len(f)))
        g = eq(c.len(secrets), n)
        c.ok(g, c.under(g, lambda c: c.mk(pf, commitment=R(c, s, 'commitment'), responses=c.zipmap(lambda x, y: rsub(ring(c, x), rmul(ring(c, ch), ring(c, y))), f, secrets))))
        c.err(not_(g))
    def contribution(c, s, bases, com, ch): return radd(c.dot(bases, c.f(s, 'responses')), rmul(ring(c, ch), ring(c, com)))
    @con(pf + '::verify', ptags)
    def _(c, s, bases, com, ch):
        g = eq(c.len(bases), c.len(c.f(s, 'responses')))
        c.ok(g, gdot(c, g, lambda c: feq0(rsub(contribution(c, s, bases, com, ch), R(c, s, 'commitment'))))); c.err(not_(g))
    @con(pf + '::verify_complete_proof', tags)
    def _(c, s, bases, com, ch, nonce):
        g = eq(c.len(bases), c.len(c.f(s, 'responses')))
        def v(c):
            t = contribution(c, s, bases, com, ch)
            data = c.seq(c.flatmap(lambda x: enc(c, ring(c, x), ty), bases), enc(c, t, ty), enc(c, ring(c, com), ty), c.D(nonce))
            return and_(feq0(rsub(t, R(c, s, 'commitment'))), feq0(rsub(H(c, data), ring(c, ch))))
        c.ok(g, gdot(c, g, v)); c.err(not_(g))
    @lem('vector commitment proofs verify (%s)' % grp, ('V01',))
    def _(l):
        st = l.st; c = l.spec(st)
        s = l.sym(pc, 'cm'); gens = c.D(c.f(s, 'gens')); st.assume(eq(c.len(gens), c.len(c.f(s, 'blindings'))))
        sec = l.sym('Vec<amcl_wrapper::field_elem::FieldElement>', 'sec'); st.assume(eq(c.len(sec), c.len(gens))); extra = l.sym('Vec<u8>', 'extra')
        com = c.dot(gens, sec); ch0 = fsym('ch'); nonce = l.sym('Vec<u8>', 'nonce')
        for s2, cd in l.must(st, pc + '::finish', s, what='finish'):
            for s3, p in l.must(s2, pd + '::gen_proof', cd, ch0, sec, what='gen_proof'):
                for s4, r in l.must(s3, pf + '::verify', p, gens, com, ch0, what='verify'): l.holds(s4, r, 'verify is true')
            for s3, ch in l.must(s2, pd + '::gen_challenge', cd, c.seq(enc(c, com, ty), c.D(nonce)), what='gen_challenge'):
                for s4, p in l.must(s3, pd + '::gen_proof', cd, ch, sec, what='gen_proof'):
                    for s5, r in l.must(s4, pf + '::verify_complete_proof', p, gens, com, ch, nonce, what='verify_complete_proof'): l.holds(s5, r, 'complete proof verifies')
    @lem('proof of a different commitment is rejected (%s)' % grp, ('V01',))
    def _(l):
        st = l.st; c = l.spec(st)
        p = l.sym(pf, 'p'); gens = l.sym('Vec<amcl_wrapper::field_elem::FieldElement>', 'g'); com, com2, ch = fsym('c1'), fsym('c2'), fsym('ch')
        st.assume(eq(c.len(gens), c.len(c.f(p, 'responses'))), nz(rsub(com, com2)), nz(ch))
        for s2, r in l.must(st, pf + '::verify', p, gens, com, ch, what='verify'):
            s2.assume(r)
            for s3, r2 in l.must(s2, pf + '::verify', p, gens, com2, ch, what='verify'): l.holds(s3, not_(r2), 'rejected for another commitment')
    @lem('%s bytes round-trip' % pf, ('P04',) if ptags.find('P') >= 0 else ('V01',))
    def _(l):
        st = l.st; v = l.sym(pf, 'v'); c = l.spec(st); st.assume(lt(c.len(c.f(v, 'responses')), num(2 ** 25)))
        for s2, b in l.must(st, pf + '::to_bytes', v, what='encode'):
            for s3, w in l.must(s2, pf + '::from_bytes', b, what='decode'): l.eq(s3, w, v, 'decoded equals original')
    @lem('%s truncated bytes are rejected' % pf, ('P04',) if ptags.find('P') >= 0 else ('V01',))
    def _(l):
        st = l.st; b = l.sym('Vec<u8>', 'b'); c = l.spec(st); st.assume(lt(c.len(b), num({'G1': 97, 'G2': 192}[ty] + 4)))
        for s2, r in l.run(st, pf + '::from_bytes', b): l.holds(s2, isvar(l.spec(s2), r[1], 'Err') if r[0] == 'ret' else FALSE, 'short input is an error')
def committed_bytes(c, s, ty): return c.seq(c.flatmap(lambda x: enc(c, ring(c, x), ty), c.f(s, 'gens')), enc(c, R(c, s, 'commitment'), ty))
vc('OtherGroup', OG, 'V01 P03', 'V01 P03')
vc('SignatureGroup', SG, 'V01 P02', 'V01 P02')
vc('G1', 'G1', 'V01 G02', 'V01 P04'); vc('G2', 'G2', 'V01 G02', 'V01 P04')

# ---- P03: proofs of knowledge of a signature
@con('PoKOfSignature::init', 'P03', check_only=True)
def _(c, s, vk, pr, ms, bl, rev):
    rev = c.D(rev); Y = c.f(vk, 'Y_tilde'); n = c.len(Y); k = fresh_var('I', 'k')
    inr = forall(k, c.has(rev, k), lt(k, c.len(ms)))
    fit = eq(c.len(ms), n)
    k = fresh_var('I', 'k'); nrev = count(k, c.has(rev, k))
    given = isvar(c, bl, 'Some')
    bv = payload(c, bl, lambda x: Seq() if x.vn == 'None' else c.D(x.fs[0]))
    good0 = and_(inr, fit)
    nbl = eq(iadd(c.len(bv), nrev), n) if given is not FALSE else TRUE
    good = and_(good0, or_(not_(given), nbl))
    c.err(not_(good))
    hidden = lambda k: not_(c.has(rev, k))
    t = c.wit('t', nonzero=True, bind=lambda ex, st, v: ring(c, ex.segs_get(st, ex.norm_segs(list(ex.getf(st, v.fs[0], 'secrets').segs)), ZERO, st.pc)))
    def rbind(ex, st, v): return rmul(ring(c, ex.getf(st, ex.getf(st, v.fs[0], 'sig'), 'sigma_1')), rinv(R(c, s, 'sigma_1')))
    c.req(nz(R(c, s, 'sigma_1')))
    r = c.wit('r', nonzero=True, bind=rbind)
    s1, s2 = R(c, s, 'sigma_1'), R(c, s, 'sigma_2'); gt = R(c, pr, 'g_tilde')
    J = radd(rmul(t, gt), c.sum(0, n, lambda k: rmul(ind(hidden(k)), rmul(at(c, ms, k), at(c, Y, k)))))
    bases = c.seq(gt, (0, n, lambda k: at(c, Y, k), hidden))
    def committed(which):
        def chk(cm, st, v, path):
            ex = cm.ex; sp = Spec(ex, st, 'zmix', 'x'); f = sp.D(sp.f(v, 'blindings')); bb = sp.D(sp.f(v, 'gens'))
            cm.val(st, bb, vsub(bases, cm.sub), path + '.gens')
            if not prove(st.pc, eq(sp.len(bb), sp.len(f))): return cm.fail(path + '.blindings', 'length')
            cm.val(st, ring(sp, sp.f(v, 'commitment')), sp.dot(bb, f), path + '.commitment')
            if which:
                # the first blinding is fresh; hidden position k uses the given blinding of k's rank among the hidden positions
                def rank(k): j = fresh_var('I', 'j'); return count(j, and_(le(ZERO, j), lt(j, k), hidden(j)))
                r0 = ring(sp, sp.at(f, ZERO))
                cm.val(st, f, vsub(sp.seq(r0, (0, n, lambda k: at(sp, bv, rank(k)), hidden)), cm.sub), path + '.blindings')
            return True
        return chk
    for which, cond in ((True, and_(good, given)), (False, and_(good, not_(given)))):
        if cond is FALSE or (which and given is FALSE): continue
        c.ok(cond, c.mk('PoKOfSignature', secrets=c.seq(t, (0, n, lambda k: at(c, ms, k), hidden)),
             sig=c.mk('Signature', sigma_1=rmul(r, s1), sigma_2=rmul(r, radd(s2, rmul(t, s1)))), J=J, pok_vc=committed(which)), label='given' if which else 'random')
@con('PoKOfSignature::to_bytes', 'P03')
def _(c, s): c.ret(TRUE, c.seq(sigbytes(c, c.f(s, 'sig')), enc(c, R(c, s, 'J'), OG), committed_bytes(c, c.f(s, 'pok_vc'), OG)))
@con('PoKOfSignature::gen_proof', 'P03')
def _(c, s, ch):
    v, sec = c.f(s, 'pok_vc'), c.f(s, 'secrets')
    c.req(eq(c.len(c.f(v, 'gens')), c.len(c.f(v, 'blindings'))))
    g = eq(c.len(sec), c.len(c.f(v, 'gens')))
    c.ok(g, c.under(g, lambda c: c.mk('PoKOfSignatureProof', sig=c.D(c.f(s, 'sig')), J=R(c, s, 'J'), proof_vc=c.mk('ProofOtherGroup', commitment=R(c, v, 'commitment'),
        responses=c.zipmap(lambda x, y: rsub(ring(c, x), rmul(ring(c, ch), ring(c, y))), c.f(v, 'blindings'), sec)))))
    c.err(not_(g))
@con('PoKOfSignatureProof::get_bytes_for_challenge', 'P03')
def _(c, p, rev, vk, pr):
    rev = c.D(rev); Y = c.f(vk, 'Y_tilde')
    c.ret(TRUE, c.seq(sigbytes(c, c.f(p, 'sig')), enc(c, R(c, p, 'J'), OG), enc(c, R(c, pr, 'g_tilde'), OG), (0, c.len(Y), lambda k: enc(c, at(c, Y, k), OG), lambda k: not_(c.has(rev, k))),
                      enc(c, R(c, p, 'proof_vc.commitment'), OG)))
@con('PoKOfSignatureProof::get_resp_for_message', 'P03')
def _(c, p, i):
    r = c.f(p, 'proof_vc.responses'); g = lt(iadd(i, ONE), c.len(r))
    c.ok(g, gdot(c, g, lambda c: at(c, r, iadd(i, ONE)))); c.err(not_(g))
@con('PoKOfSignatureProof::verify', 'P03')
def _(c, p, vk, pr, rev, ch):
    rev = c.D(rev); Y = c.f(vk, 'Y_tilde'); n = c.len(Y); s = c.f(p, 'sig'); k = fresh_var('I', 'k')
    good = sig_ok(c, s); inr = forall(k, c.has(rev, k), lt(k, n))
    k = fresh_var('I', 'k'); nh = count(k, and_(le(ZERO, k), lt(k, n), not_(c.has(rev, k))))
    resp = c.f(p, 'proof_vc.responses')
    fit = and_(inr, eq(c.len(resp), iadd(nh, ONE))); gt = R(c, pr, 'g_tilde'); J = R(c, p, 'J')
    def v(c):
        bases = c.seq(gt, (0, n, lambda k: at(c, Y, k), lambda k: not_(c.has(rev, k))))
        sch = feq0(rsub(radd(c.dot(bases, resp), rmul(ring(c, ch), J)), R(c, p, 'proof_vc.commitment')))
        k = fresh_var('I', 'k')
        full = radd(radd(J, R(c, vk, 'X_tilde')), rsum(k, and_(le(ZERO, k), lt(k, n), c.has(rev, k)), rmul(ring(c, c.get(rev, k)), at(c, Y, k))))
        return and_(sch, feq0(rsub(rmul(R(c, s, 'sigma_1'), full), rmul(R(c, s, 'sigma_2'), gt))))
    c.ok(not_(good), FALSE, label='identity')
    c.ok(and_(good, fit), gdot(c, and_(good, fit), v)); c.err(and_(good, not_(fit)))

# ---- lemmas
def key(l, st):
    """matching verification and signing keys for some parameters"""
    pr = l.sym('Params', 'pr'); sk = l.sym('Sigkey', 'sk'); c = l.spec(st); gt = R(c, pr, 'g_tilde'); y = c.f(sk, 'y')
    vk = c.mk('Verkey', X_tilde=rmul(gt, R(c, sk, 'x')), Y_tilde=c.map(lambda v: rmul(gt, ring(c, v)), y))
    st.assume(nz(gt), nz(R(c, pr, 'g')))
    return pr, vk, sk, c.len(y)
FE = 'Vec<amcl_wrapper::field_elem::FieldElement>'
@lem('key generation gives matching keys', ('P01',))
def _(l):
    st = l.st; n = sym('n', 'I'); st.assume(le(ZERO, n)); pr = l.sym('Params', 'pr'); 
    for s2, r in l.must(st, 'signatures::ps::keys::keygen', n, pr, what='keygen'):
        c = l.spec(s2); vk, sk = r.fs; gt = R(c, pr, 'g_tilde')
        l.holds(s2, eq(c.len(c.f(sk, 'y')), n), 'one secret per message')
        l.eq(s2, vk, c.mk('Verkey', X_tilde=rmul(gt, R(c, sk, 'x')), Y_tilde=c.map(lambda v: rmul(gt, ring(c, v)), c.f(sk, 'y'))), 'verification key matches')
@lem('signatures verify', ('P01',))
def _(l):
    st = l.st; pr, vk, sk, n = key(l, st); c = l.spec(st); ms = l.sym(FE, 'ms'); st.assume(eq(c.len(ms), n))
    for s2, sg in l.must(st, 'Signature::new', ms, sk, pr, what='sign succeeds'):
        c = l.spec(s2); s2.assume(nz(R(c, sg, 'sigma_2')))       # sigma_2 = 0 only if x + sum y_i m_i = 0
        for s3, r in l.must(s2, 'Signature::verify', sg, ms, vk, pr, what='verify returns'): l.holds(s3, r, 'verify is true')
@lem('changing a signed message is rejected', ('P01',))
def _(l):
    st = l.st; pr, vk, sk, n = key(l, st); c = l.spec(st); ms = l.sym(FE, 'ms'); sg = l.sym('Signature', 'sg'); d = fsym('d'); j = sym('j', 'I')
    st.assume(eq(c.len(ms), n), le(ZERO, j), lt(j, n), nz(d), sig_ok(c, sg), c.all(0, n, lambda k: nz(at(c, c.f(sk, 'y'), k))))
    st.assume(nz(at(c, c.f(sk, 'y'), j)))
    ms2 = c.seq((0, n, lambda k: radd(at(c, ms, k), rmul(ind(eq(k, j)), d))))
    for s2, r in l.must(st, 'Signature::verify', sg, ms, vk, pr, what='verify returns'):
        s2.assume(r)
        for s3, r2 in l.must(s2, 'Signature::verify', sg, ms2, vk, pr, what='verify returns'): l.holds(s3, not_(r2), 'verify is false after the change')
def blind(alg):
    @lem('blind issuance gives a valid signature (%s)' % alg, ('P02',))
    def _(l):
        st = l.st; pr, vk, sk, n = key(l, st); c = l.spec(st); ms = l.sym(FE, 'ms'); h = sym('h', 'I'); t = fsym('t')
        st.assume(eq(c.len(ms), n), lt(ZERO, h), le(h, n))
        for s2, bk in l.must(st, 'BlindingKey::new', sk, pr, what='blinding key'):
            c = l.spec(s2); g = R(c, pr, 'g')
            com = radd(rmul(g, t), c.sum(0, h, lambda k: rmul(at(c, ms, k), at(c, c.f(bk, 'Y'), k))))
            known = c.seq((0, isub(n, h), lambda k: at(c, ms, iadd(h, k))))
            third = sk if alg == 'new' else R(c, bk, 'X')
            for s3, bs in l.must(s2, 'BlindSignature::' + alg, com, known, third, bk, pr, what='blind signature is made'):
                for s4, sg in l.must(s3, 'BlindSignature::unblind', bs, t, what='unblind'):
                    c = l.spec(s4); s4.assume(nz(R(c, sg, 'sigma_2')))
                    for s5, r in l.must(s4, 'Signature::verify', sg, ms, vk, pr, what='verify returns'): l.holds(s5, r, 'unblinded signature verifies')
blind('new'); blind('new_from_paper')
@lem('honest proofs of knowledge verify, with the same challenge on both sides', ('P03',))
def _(l):
    st = l.st; pr, vk, sk, n = key(l, st); c = l.spec(st); ms = l.sym(FE, 'ms'); sg = l.sym('Signature', 'sg')
    st.assume(eq(c.len(ms), n), sig_ok(c, sg), sigeq(c, sg, vk, pr, lambda k: at(c, ms, k)))
    rv = lambda k: app('revealed', (k,), 'B')
    k = fresh_var('I', 'k'); idx = MapV(k, and_(le(ZERO, k), lt(k, n), rv(k)), UNITV, 'any')
    k = fresh_var('I', 'k'); rm = MapV(k, and_(le(ZERO, k), lt(k, n), rv(k)), at(c, ms, k), 'any')
    for s2, pok in l.must(st, 'PoKOfSignature::init', sg, vk, pr, ms, none(), idx, what='proof is initiated'):
        c = l.spec(s2); s2.assume(nz(R(c, pok, 'sig', 'sigma_1')), nz(R(c, pok, 'sig', 'sigma_2')))
        ch = fsym('ch')
        for s3, b in l.must(s2, 'PoKOfSignature::to_bytes', pok, what='transcript'):
            for s4, p in l.must(s3, 'PoKOfSignature::gen_proof', pok, ch, what='proof is made'):
                for s5, b2 in l.must(s4, 'PoKOfSignatureProof::get_bytes_for_challenge', p, idx, vk, pr, what='verifier transcript'):
                    l.eq(s5, b2, b, 'verifier hashes what the prover hashed')
                for s5, r in l.must(s4, 'PoKOfSignatureProof::verify', p, vk, pr, rm, ch, what='proof verifies'): l.holds(s5, r, 'verify is true')
CRATES = ['zmix']; MODELS = AmclModels
