"""Contracts and lemmas for libursa::cl (C01..C07)."""
from contracts import *
from models import str_bytes
from values import segsub
from models_cl import CLModels, bnbytes, bnlen, sha, bn_from, mod_exp, mod_mul, mod_inv, chunk, kv, fits32
from models_bbs import int_to_ring
CRATES = ['ursa']; CRATE = 'ursa'; MODELS = CLModels
C = {}; LEM = []; TAGS = {}
def con(ident, tags, n=0, **opts):
    def d(f): C['%s#%s' % (ident, n)] = Contract('ursa', ident, f, n, opts); TAGS['%s#%s' % (ident, n)] = tags; return f
    return d
def lem(name, props, limit=60):
    def d(f): LEM.append((props, Lemma('ursa', name, f, limit))); return f
    return d
def R(c, v, *p):
    for x in p: v = c.f(v, x)
    return ring(c, v)
def at(c, v, k): return ring(c, c.at(v, k))
def bnseq(*xs): return [bnbytes(x) for x in xs]
def cat(*parts):
    out = []
    for p in parts: out += p.segs if isinstance(p, Seq) else p
    return Seq(out)
def each(lo, hi, f):
    k = fresh_var('I', 'k'); return [Comp(k, and_(le(lo if isinstance(lo, T) else num(lo), k), lt(k, hi)), f(k))]
def allel(c, v, f):
    """for every element of a sequence, in whatever way it is indexed"""
    def go(segs):
        out = []
        for g in segs:
            if isinstance(g, One): out.append(f(c.D(g.v)))
            elif isinstance(g, Guard): out.append(implies(g.cond, go(g.body)))
            elif isinstance(g, Comp):
                k = fresh_var(g.var.sort, 'k'); r = {g.var: k}; cd = subst(g.cond, r); out.append(forall(k, cd, go([segsub(x, r) for x in g.body])))
            else: raise Unsupported('elements of %s' % short(g, 80))
        return and_(*out)
    return go(c.D(v).segs)
def eachel(c, v, f):
    def go(segs):
        out = []
        for g in segs:
            if isinstance(g, One): out += f(c.D(g.v))
            elif isinstance(g, Guard): out.append(Guard(g.cond, go(g.body)))
            elif isinstance(g, Comp):
                k = fresh_var(g.var.sort, 'k'); r = {g.var: k}; out.append(Comp(k, subst(g.cond, r), go([segsub(x, r) for x in g.body]), g.order))
            else: raise Unsupported('elements of %s' % short(g, 80))
        return out
    return go(c.D(v).segs)
def hash_int(w): return bn_from(sha(w))
def inr(k, n): return and_(le(ZERO, k), lt(k, n))
# ---------------------------------------------------------------- C01
def ped(n, g, e, h, s): return E(n, radd(rmul(lg(n, g), e), rmul(lg(n, h), s)))
def key_ok(c, pk, pf):
    n, s, z, r = R(c, pk, 'n'), R(c, pk, 's'), R(c, pk, 'z'), c.f(pk, 'r'); ch = R(c, pf, 'c'); xr = c.f(pf, 'xr_cap'); L = c.len(xr)
    nm = lambda i: c.f(c.at(xr, i), '0'); k = fresh_var('S', 'k')
    named = lambda x: not_(c.all(0, L, lambda i: not_(eq(nm(i), x))))
    names = and_(forall(k, c.has(r, k), or_(named(k), eq(k, sstr('master_secret')))), c.all(0, L, lambda i: c.has(r, nm(i))))
    rv = lambda c, i: ring(c, c.get(r, c.f(c.at(xr, i), '0')))
    zc = ped(n, mod_inv(z, n), ch, s, R(c, pf, 'xz_cap'))
    rc = lambda c, i: ped(n, mod_inv(rv(c, i), n), ch, s, R(c, c.at(xr, i), '1'))
    w = cat(bnseq(z), each(0, L, lambda i: bnseq(rv(c, i))), bnseq(zc), each(0, L, lambda i: bnseq(rc(c, i))))
    return and_(names, feq0(rsub(ch, hash_int(w))))
@con('Prover::_check_credential_key_correctness_proof', ('C01',), check_only=True)
def _(c, pk, pf):
    good = key_ok(c, pk, pf); c.ok(good, UNITV); c.err(not_(good))
def newkeys(l, st, out='cred'):
    sch = l.sym('CredentialSchema', 'sch'); non = l.sym('NonCredentialSchema', 'non'); c = l.spec(st)
    st.assume(c.has(c.f(sch, 'attrs'), sym('some', 'S')))
    return sch, non
@lem('an honest issuer key correctness proof is accepted', ('C01',), 100)
def _(l):
    st = l.st; sch, non = newkeys(l, st)
    for s2, r in l.must(st, 'Issuer::_new_credential_primary_keys', sch, non, what='key generation succeeds'):
        pk, sk, meta = r.fs
        for s3, pf in l.must(s2, 'Issuer::_new_credential_key_correctness_proof', pk, sk, meta, what='the proof is produced'):
            for s4, _ in l.must(s3, 'Prover::_check_credential_key_correctness_proof', pk, pf, what='the proof is accepted'): pass
# ---------------------------------------------------------------- helpers
DELTA = sstr('DELTA')
def get(c, m, k): return ring(c, c.get(m, k))
def teq(c, pk, ap, e, v, m, m2, un):
    n = R(c, pk, 'n'); r = c.f(pk, 'r'); un = c.D(un); k = fresh_var('S', 'k')
    inu = subst(un.dom, {un.var: k})
    s = rsum(k, inu, rmul(lg(n, get(c, r, k)), get(c, m, k)))
    return E(n, radd(radd(rmul(lg(n, ap), e), s), radd(rmul(lg(n, R(c, pk, 's')), v), rmul(lg(n, R(c, pk, 'rctxt')), m2))))
@con('cl::helpers::calc_teq', ('C04', 'C05'))
def _(c, pk, ap, e, v, m, m2, un):
    k = fresh_var('S', 'k'); r = c.f(pk, 'r'); u = c.D(un)
    good = forall(k, subst(u.dom, {u.var: k}), and_(c.has(r, k), c.has(m, k)))
    c.ok(good, c.under(good, lambda c: teq(c, pk, ring(c, ap), ring(c, e), ring(c, v), m, ring(c, m2), un))); c.err(not_(good))
def four(c, m): return [c.has(m, sstr(str(i))) for i in range(4)]
def tne(c, pk, u, r, mj, alpha, t, less):
    n = R(c, pk, 'n'); Z = lg(n, R(c, pk, 'z')); S = lg(n, R(c, pk, 's'))
    K = [sstr(str(i)) for i in range(4)]
    taus = [E(n, radd(rmul(Z, get(c, u, k)), rmul(S, get(c, r, k)))) for k in K]
    d = get(c, r, DELTA); d = ite(less, rneg(d), d)
    taus.append(E(n, radd(rmul(Z, mj), rmul(S, d))))
    q = rmul(S, alpha)
    for k in K: q = radd(q, rmul(lg(n, get(c, t, k)), get(c, u, k)))
    return taus + [E(n, q)]
@con('cl::helpers::calc_tne', ('C04', 'C05'))
def _(c, pk, u, r, mj, alpha, t, less):
    less = c.D(less); good = and_(*four(c, u), *four(c, r), c.has(r, DELTA), *four(c, t))
    c.ok(good, c.under(good, lambda c: c.seq(*tne(c, pk, u, r, ring(c, mj), ring(c, alpha), t, less)))); c.err(not_(good))
# ---------------------------------------------------------------- C02, C03
KNOWN, HIDDEN, COMMITTED = 0, 1, 2
def kind(c, v):
    if isinstance(v, MRef): v = c.D(v)
    if isinstance(v, IteV): return ite(v.c, kind(c, v.a), kind(c, v.b))
    return num(v.vi)
def inmap(c, m, k): m = c.D(m); return subst(m.dom, {m.var: k})
def over(c, m, f):
    """the entries of a map in its own order"""
    m = c.D(m); k = fresh_var('S', 'k'); return [Comp(k, subst(m.dom, {m.var: k}), f(k), m.order)]
def blinded_ok(c, b, pf, nonce, pk):
    n, s, z, r = R(c, pk, 'n'), R(c, pk, 's'), R(c, pk, 'z'), c.f(pk, 'r')
    ch, mc, rc = R(c, pf, 'c'), c.f(pf, 'm_caps'), c.f(pf, 'r_caps'); u, hid, com = R(c, b, 'u'), c.f(b, 'hidden_attributes'), c.f(b, 'committed_attributes')
    k = fresh_var('S', 'k'); inh = inmap(c, hid, k)
    names = and_(forall(k, inh, and_(c.has(r, k), c.has(mc, k))), forall(k, inmap(c, com, k), and_(c.has(mc, k), c.has(rc, k))))
    def w(c):
        ucap = E(n, radd(radd(rneg(rmul(lg(n, u), ch)), rmul(lg(n, s), R(c, pf, 'v_dash_cap'))), rsum(k, inh, rmul(lg(n, get(c, r, k)), get(c, mc, k)))))
        ccap = lambda k: E(n, radd(rneg(rmul(lg(n, get(c, com, k)), ch)), radd(rmul(lg(n, z), get(c, mc, k)), rmul(lg(n, s), get(c, rc, k)))))
        return cat(over(c, com, lambda k: bnseq(ccap(k), get(c, com, k))), bnseq(u, ucap, ring(c, nonce)))
    return and_(names, feq0(rsub(ch, hash_int(c.under(names, w)))))
@con('Issuer::_check_blinded_credential_secrets_correctness_proof', ('C02',))
def _(c, b, pf, nonce, pk):
    good = blinded_ok(c, b, pf, nonce, pk); c.ok(good, UNITV); c.err(not_(good))
def sig_ok(c, sg, vals, pf, pk, nonce):
    n, s, z, r = R(c, pk, 'n'), R(c, pk, 's'), R(c, pk, 'z'), c.f(pk, 'r'); a, e, v, m2 = (R(c, sg, x) for x in ('a', 'e', 'v', 'm_2'))
    av = c.f(vals, 'attrs_values'); k = fresh_var('S', 'k'); ink = inmap(c, av, k)
    used = lambda c, k: or_(eq(kind(c, c.get(av, k)), num(KNOWN)), eq(kind(c, c.get(av, k)), num(HIDDEN)))
    names = forall(k, and_(ink, c.under(ink, lambda c: used(c, k))), c.has(r, k))
    def eqs(c):
        rx = radd(radd(rmul(lg(n, s), v), rmul(lg(n, R(c, pk, 'rctxt')), m2)), rsum(k, and_(ink, used(c, k)), rmul(lg(n, get(c, r, k)), R(c, c.get(av, k), 'value'))))
        q = E(n, rsub(lg(n, z), rx)); se = R(c, pf, 'se')
        acap = E(n, rmul(lg(n, a), radd(R(c, pf, 'c'), rmul(se, e))))
        w = cat(bnseq(q, a, acap, ring(c, nonce)))
        return and_(feq0(rsub(q, E(n, rmul(lg(n, a), e)))), feq0(rsub(R(c, pf, 'c'), hash_int(w))))
    return and_(app('bn.prime', (e,), 'B'), names, eqs(c))
@con('Prover::_check_signature_correctness_proof', ('C03',))
def _(c, sg, vals, pf, pk, nonce):
    good = sig_ok(c, sg, vals, pf, pk, nonce); c.ok(good, UNITV); c.err(not_(good))
@con('Prover::blind_credential_secrets', ('C01',), check_only=True)
def _(c, pub, kp, vals, nonce):
    good = key_ok(c, c.f(pub, 'p_key'), kp); c.err(not_(good)); c.free(good)
@con('Issuer::sign_credential', ('C02',), check_only=True)
def _(c, pid, b, bp, n1, n2, vals, pub, priv):
    good = blinded_ok(c, b, bp, n1, c.f(pub, 'p_key')); c.err(not_(good)); c.free(good)
@con('Prover::process_credential_signature', ('C03', 'C06', 'C07'), check_only=True)
def _(c, sig, vals, sp, fac, pub, nonce, rkp, reg, wit):
    sg = c.f(sig, 'p_credential'); sg2 = c.mk('PrimaryCredentialSignature', m_2=c.f(sg, 'm_2'), a=c.f(sg, 'a'), e=c.f(sg, 'e'), v=radd(R(c, sg, 'v'), R(c, fac, 'v_prime')))
    good = sig_ok(c, sg2, vals, sp, c.f(pub, 'p_key'), nonce); norev = eq(kind(c, c.f(sig, 'r_credential')), num(0))
    # the part of a credential that can be revoked is checked when everything to check it with is given
    rc, vr, rk = c.f(sig, 'r_credential'), c.f(fac, 'vr_prime'), c.f(pub, 'r_key'); full = and_(*[not_(isnone(c, v)) for v in (rc, vr, rk, rkp, reg, wit)])
    rc2 = c.under(full, lambda c: with_vr(c, un(c, rc), un(c, vr))); w = lambda c: witness_ok(c, rc2, un(c, rk), un(c, rkp), un(c, reg), un(c, wit), R(c, un(c, rc), 'm2'))
    rev = c.under(full, w) if full is not FALSE else TRUE; bad = or_(not_(good), and_(full, not_(rev))); c.err(bad, {0: ANY})
    c.ok(and_(good, not_(full)), UNITV, {0: c.mk('CredentialSignature', p_credential=sg2, r_credential=rc)}, label='primary part only'); c.ok(and_(good, full, rev), UNITV, {0: c.mk('CredentialSignature', p_credential=sg2, r_credential=some(rc2))}, label='both parts')
@con('Issuer::_sign_primary_credential', ('C02', 'C03'))
def _(c, pub, priv, ctx, vals, v, b, e):
    pk = c.f(pub, 'p_key'); sk = c.f(priv, 'p_key'); n, s, z, r = R(c, pk, 'n'), R(c, pk, 's'), R(c, pk, 'z'), c.f(pk, 'r'); u, hid = R(c, b, 'u'), c.f(b, 'hidden_attributes')
    av = c.f(vals, 'attrs_values'); k = fresh_var('S', 'k'); ink = inmap(c, av, k); known = lambda c, k: eq(kind(c, c.get(av, k)), num(KNOWN))
    kn = and_(ink, c.under(ink, lambda c: known(c, k)))
    good = forall(k, kn, and_(c.has(r, k), not_(inmap(c, hid, k))))
    def val(c):
        rx = radd(rmul(lg(n, s), ring(c, v)), rmul(lg(n, R(c, pk, 'rctxt')), ring(c, ctx)))
        rx = radd(rx, radd(ite(feq0(u), R0, lg(n, u)), rsum(k, kn, rmul(lg(n, get(c, r, k)), R(c, c.get(av, k), 'value')))))
        q = E(n, rsub(lg(n, z), rx)); return Tup((E(n, rmul(lg(n, q), mod_inv(ring(c, e), rmul(R(c, sk, 'p'), R(c, sk, 'q'))))), q))
    c.ok(good, c.under(good, val)); c.err(not_(good))
def keys(l, st, out):
    """an honestly generated primary key pair: list of (state, pk, sk, key proof)"""
    sch, non = newkeys(l, st); res = []
    for s2, r in l.must(st, 'Issuer::_new_credential_primary_keys', sch, non, what='key generation succeeds'):
        pk, sk, meta = r.fs
        for s3, pf in l.must(s2, 'Issuer::_new_credential_key_correctness_proof', pk, sk, meta, what='the key proof is produced'): res.append((s3, pk, sk, pf))
    return res
def values(l, st, pk):
    """a holder's attribute values (any split) and the issuer's view of the known ones"""
    c = l.spec(st); pv = l.sym('CredentialValues', 'pv'); av = c.D(c.f(pv, 'attrs_values')); k = fresh_var('S', 'k'); ink = inmap(c, av, k)
    st.assume(forall(k, ink, c.has(c.f(pk, 'r'), k)))
    known = and_(av.dom, eq(kind(c, av.val), num(KNOWN)))
    return pv, c.mk('CredentialValues', attrs_values=MapV(av.var, known, av.val, av.order))
@lem('an honest issuance succeeds at every step and gives a credential that satisfies the key equation', ('C02', 'C03'), 200)
def _(l):
    st = l.st; c = l.spec(st)
    for st, pk, sk, kp in keys(l, st, None):
        c = l.spec(st); pub = c.mk('CredentialPublicKey', p_key=pk, r_key=none()); priv = c.mk('CredentialPrivateKey', p_key=sk, r_key=none())
        pv, iv = values(l, st, pk); n1, n2 = l.F('n1'), l.F('n2'); pid = sym('prover_id', 'S')
        for st, b in l.must(st, 'Prover::blind_credential_secrets', pub, kp, pv, n1, what='blinding the secrets'):
            bl, fac, bp = b.fs
            for st, r in l.must(st, 'Issuer::sign_credential', pid, bl, bp, n1, n2, iv, pub, priv, what='the issuer accepts the blinded secrets and signs'):
                sig, sp = r.fs; m = l.mut(st, sig)
                for st, _ in l.must(st, 'Prover::process_credential_signature', m, pv, sp, fac, pub, n2, none(), none(), none(), what='the holder accepts the credential'): pass
# ---------------------------------------------------------------- C05 (and what C04 needs from the verifier)
GE_, LE_, GT_, LT_ = range(4)
def ptype(c, p): return kind(c, c.f(p, 'p_type'))
def is_less(c, p): t = ptype(c, p); return or_(eq(t, num(LE_)), eq(t, num(LT_)))
def bound(c, p):
    """the bound the difference is taken to: value, value + 1 for >, value - 1 for <"""
    t = ptype(c, p); v = c.f(p, 'value')
    return ite(eq(t, num(GT_)), int_to_ring(iadd(v, ONE)), ite(eq(t, num(LT_)), int_to_ring(isub(v, ONE)), int_to_ring(v)))
E_START = rnum(2 ** 596)
def unrevealed(c, cs, ns, spr):
    k = fresh_var('S', 'k'); A, B_, Rv = c.f(cs, 'attrs'), c.f(ns, 'attrs'), c.f(spr, 'revealed_attrs')
    return MapV(k, and_(or_(inmap(c, A, k), inmap(c, B_, k)), not_(inmap(c, Rv, k))), UNITV, None)
def eq_names(c, pk, pf, cs, ns, spr):
    k = fresh_var('S', 'k'); r = c.f(pk, 'r'); u = unrevealed(c, cs, ns, spr)
    return and_(le(app('bn.bits.len', (R(c, pf, 'e'),), 'I'), num(457)), forall(k, subst(u.dom, {u.var: k}), and_(c.has(r, k), c.has(c.f(pf, 'm'), k))),
                forall(k, inmap(c, c.f(pf, 'revealed_attrs'), k), c.has(r, k)))
def eq_tau(c, pk, pf, ch, cs, ns, spr):
    """Z^c S^v' A'^(e^ - c 2^596) ... : the commitment recomputed from the responses"""
    n, z, r, ra = R(c, pk, 'n'), R(c, pk, 'z'), c.f(pk, 'r'), c.f(pf, 'revealed_attrs'); k = fresh_var('S', 'k'); ap = R(c, pf, 'a_prime')
    t1 = teq(c, pk, ap, R(c, pf, 'e'), R(c, pf, 'v'), c.f(pf, 'm'), R(c, pf, 'm2'), unrevealed(c, cs, ns, spr))
    rar = radd(rmul(lg(n, ap), E_START), rsum(k, inmap(c, ra, k), rmul(lg(n, get(c, r, k)), get(c, ra, k))))
    return E(n, rsub(lg(n, t1), rmul(ch, rsub(lg(n, z), rar))))
@con('ProofVerifier::_verify_equality', ('C05',))
def _(c, pk, pf, ch, cs, ns, spr):
    good = eq_names(c, pk, pf, cs, ns, spr); c.ok(good, c.under(good, lambda c: c.seq(eq_tau(c, pk, pf, ring(c, ch), cs, ns, spr)))); c.err(not_(good))
def ne_names(c, pf):
    r, t = c.f(pf, 'r'), c.f(pf, 't'); return and_(*four(c, c.f(pf, 'u')), *four(c, r), c.has(r, DELTA), *four(c, t), c.has(t, DELTA))
def ne_taus(c, pk, pf, ch):
    n, z, t = R(c, pk, 'n'), R(c, pk, 'z'), c.f(pf, 't'); p = c.f(pf, 'predicate'); less = is_less(c, p)
    T_ = tne(c, pk, c.f(pf, 'u'), c.f(pf, 'r'), R(c, pf, 'mj'), R(c, pf, 'alpha'), t, less); d = get(c, t, DELTA)
    sub = lambda tau, L: E(n, rsub(lg(n, tau), rmul(ch, L)))
    ld = lg(n, d)
    return [sub(T_[i], lg(n, get(c, t, sstr(str(i))))) for i in range(4)] + [sub(T_[4], radd(rmul(lg(n, z), bound(c, p)), ite(less, rneg(ld), ld))), sub(T_[5], ld)]
@con('ProofVerifier::_verify_ne_predicate', ('C05',))
def _(c, pk, pf, ch):
    good = ne_names(c, pf); c.ok(good, c.under(good, lambda c: c.seq(*ne_taus(c, pk, pf, ring(c, ch))))); c.err(not_(good))
def same_response(c, m, pf):
    nm = R_(c, pf, 'predicate', 'attr_name'); return and_(c.has(m, nm), c.under(c.has(m, nm), lambda c: feq0(rsub(get(c, m, nm), R(c, pf, 'mj')))))
def R_(c, v, *p):
    for x in p: v = c.f(v, x)
    return v
def primary_ok(c, pk, pp, cs, ns, spr):
    e, ne = c.f(pp, 'eq_proof'), c.f(pp, 'ne_proofs')
    return and_(eq_names(c, pk, e, cs, ns, spr), allel(c, ne, lambda x: and_(same_response(c, c.f(e, 'm'), x), ne_names(c, x))))
def primary_taus(c, pk, ch, pp, cs, ns, spr):
    e, ne = c.f(pp, 'eq_proof'), c.f(pp, 'ne_proofs')
    return cat([One(eq_tau(c, pk, e, ch, cs, ns, spr))], eachel(c, ne, lambda x: [One(y) for y in ne_taus(c, pk, x, ch)]))
@con('ProofVerifier::_verify_primary_proof', ('C05',))
def _(c, pk, ch, pp, cs, ns, spr):
    good = primary_ok(c, pk, pp, cs, ns, spr)
    c.ok(good, c.under(good, lambda c: primary_taus(c, pk, ring(c, ch), pp, cs, ns, spr))); c.err(not_(good))
def primary_clist(c, pp):
    ne = c.f(pp, 'ne_proofs')
    def one(x):
        t = c.f(x, 't'); return [One(Seq([bnbytes(get(c, t, k))])) for k in [sstr(str(i)) for i in range(4)] + [DELTA]]
    return cat([One(Seq([bnbytes(R(c, pp, 'eq_proof', 'a_prime'))]))], eachel(c, ne, one))
@con('PrimaryProof::as_c_list', ('C05',))
def _(c, pp):
    ne = c.f(pp, 'ne_proofs'); good = allel(c, ne, lambda x: and_(*four(c, c.f(x, 't')), c.has(c.f(x, 't'), DELTA)))
    c.ok(good, c.under(good, lambda c: primary_clist(c, pp))); c.err(not_(good))
def key(c, v): return c.ex.models.keyof(c.ex, c.ex.deep(c.st, v))
def sets_equal(f, g):
    k = fresh_var('S', 'k'); return and_(forall(k, f(k), g(k)), forall(k, g(k), f(k)))
def pred_in(c, ne):
    """k is the predicate of some inequality proof"""
    return lambda k: not_(allel(c, ne, lambda x: not_(eq(key(c, c.f(x, 'predicate')), k))))
def as_requested(c, sp, cred):
    req = c.f(cred, 'sub_proof_request'); ra = R_(c, sp, 'primary_proof', 'eq_proof', 'revealed_attrs')
    return and_(sets_equal(lambda k: inmap(c, ra, k), lambda k: inmap(c, c.f(req, 'revealed_attrs'), k)),
                sets_equal(pred_in(c, R_(c, sp, 'primary_proof', 'ne_proofs')), lambda k: inmap(c, c.f(req, 'predicates'), k)))
def params_ok(c, creds, proof):
    ps = c.f(proof, 'proofs'); L = c.len(ps); return and_(eq(L, c.len(creds)), c.all(0, L, lambda i: as_requested(c, c.at(ps, i), c.at(creds, i))))
@con('ProofVerifier::_check_verify_params_consistency', ('C05',))
def _(c, creds, proof):
    good = params_ok(c, creds, proof); c.ok(good, UNITV); c.err(not_(good))
@con('ProofVerifier::add_sub_proof_request', ('C04', 'C05'))
def _(c, me, req, cs, ns, pk, rk, rr):
    """what will be verified is what was asked for: the request, schema, key and registry, in the order added"""
    A = c.f(cs, 'attrs'); k = fresh_var('S', 'k'); S = Seq(c.D(c.f(me, 'credentials')).segs)
    good = and_(forall(k, inmap(c, c.f(req, 'revealed_attrs'), k), inmap(c, A, k)), forall(k, inmap(c, c.f(req, 'predicates'), k), inmap(c, A, kv(k)[0])))
    new = c.mk('VerifiableCredential', pub_key=c.D(pk), sub_proof_request=c.D(req), credential_schema=c.D(cs), non_credential_schema=c.D(ns), rev_key_pub=c.D(rk), rev_reg=c.D(rr))
    c.ok(good, UNITV, writes={0: c.mk('ProofVerifier', credentials=Seq(tuple(S.segs) + (One(new),)), common_attributes=c.D(c.f(me, 'common_attributes')))})
    c.err(not_(good))
@con('ProofVerifier::add_common_attribute', ('C05',))
def _(c, me, name):
    com = c.f(me, 'common_attributes'); m = c.D(com); n = c.D(name)
    c.ok(TRUE, UNITV, writes={0: c.mk('ProofVerifier', credentials=c.D(c.f(me, 'credentials')), common_attributes=MapV(m.var, or_(m.dom, eq(m.var, n)), ite_val(eq(m.var, n), none(), m.val), m.order))})
# ---------------------------------------------------------------- C07: the non-revocation proof (discrete logs, e(a,b) = a b)
def goe(x): return fapp('goe', (x,))
def nr_expected(c, rpk, reg, vk, C_):
    """the eight statement values: what the commitments of the proof have to be for the equations to hold"""
    p = lambda x: R(c, rpk, x); q = lambda x: R(c, C_, x)
    return [q('e'), R0,
            rsub(rmul(radd(p('h0'), q('g')), p('h_cap')), rmul(q('a'), p('y'))),
            rsub(rmul(q('g'), R(c, reg, 'accum')), radd(rmul(p('g'), q('w')), R(c, vk, 'z'))),
            q('d'), R0,
            rsub(rmul(radd(p('pk'), q('g')), q('s')), rmul(p('g'), p('g_dash'))),
            rsub(rmul(q('g'), p('u')), rmul(p('g'), q('u')))]
def nr_values(c, rpk, reg, X, C_):
    """the eight homomorphisms applied to a vector of exponents"""
    p = lambda x: R(c, rpk, x); q = lambda x: R(c, C_, x); x = lambda n: R(c, X, n); ht, hc, acc = p('htilde'), p('h_cap'), R(c, reg, 'accum')
    s = lambda *a: rsum_list(a)
    return [s(rmul(p('h'), x('rho')), rmul(ht, x('o'))),
            s(rmul(q('e'), x('c')), rneg(rmul(p('h'), x('m'))), rneg(rmul(ht, x('t')))),
            s(rmul(rmul(q('a'), hc), x('c')), rmul(rmul(ht, hc), x('r')), rneg(rmul(rmul(ht, p('y')), x('rho'))), rneg(rmul(rmul(ht, hc), x('m'))),
              rneg(rmul(rmul(p('h1'), hc), x('m2'))), rneg(rmul(rmul(p('h2'), hc), x('s')))),
            s(rmul(rmul(ht, acc), x('r')), rneg(rmul(rmul(p('g'), hc), x('r_prime')))),
            s(rmul(p('g'), x('r')), rmul(ht, x('o_prime'))),
            s(rmul(q('d'), x('r_prime_prime')), rneg(rmul(p('g'), x('m_prime'))), rneg(rmul(ht, x('t_prime')))),
            s(rmul(rmul(radd(p('pk'), q('g')), hc), x('r_prime_prime')), rneg(rmul(rmul(ht, hc), x('m_prime'))), rmul(rmul(ht, q('s')), x('r'))),
            s(rmul(rmul(ht, p('u')), x('r')), rneg(rmul(rmul(p('g'), hc), x('r_prime_prime_prime'))))]
def rsum_list(a):
    t = R0
    for x in a: t = radd(t, x)
    return t
NRT = ['PointG1', 'PointG1', 'Pair', 'Pair', 'PointG1', 'PointG1', 'Pair', 'Pair']
def taulist(c, v): return c.mk('NonRevocProofTauList', **{'t%d' % (i + 1): x for i, x in enumerate(v)})
@con('cl::helpers::create_tau_list_expected_values', ('C06', 'C07'))
def _(c, rpk, reg, vk, C_): c.ok(TRUE, taulist(c, nr_expected(c, rpk, reg, vk, C_)))
@con('cl::helpers::create_tau_list_values', ('C06', 'C07'))
def _(c, rpk, reg, X, C_): c.ok(TRUE, taulist(c, nr_values(c, rpk, reg, X, C_)))
def nr_taus(c, rpk, reg, vk, ch, pf):
    C_ = c.f(pf, 'c_list'); e = nr_expected(c, rpk, reg, vk, C_); v = nr_values(c, rpk, reg, c.f(pf, 'x_list'), C_); g = goe(ring(c, ch))
    return [radd(rmul(a, g), b) for a, b in zip(e, v)]
@con('ProofVerifier::_verify_non_revocation_proof', ('C07', 'C05'))
def _(c, rpk, reg, vk, ch, pf): c.ok(TRUE, taulist(c, nr_taus(c, rpk, reg, vk, ch, pf)))
@con('NonRevocProofTauList::as_slice', ('C07', 'C05'))
def _(c, t): c.ok(TRUE, Seq([One(Seq([chunk(ty, R(c, t, 't%d' % (i + 1)))])) for i, ty in enumerate(NRT)]))
NRC = [('e', 1), ('d', 1), ('a', 1), ('g', 1), ('w', 2), ('s', 2), ('u', 2)]
def nr_clist(c, C_): return [One(Seq([chunk('PointG%d' % g, R(c, C_, f))])) for f, g in NRC]
@con('NonRevocProofCList::as_list', ('C07', 'C05'))
def _(c, C_): c.ok(TRUE, Seq(nr_clist(c, C_)))
# ---------------------------------------------------------------- C05: the whole presentation
def given(c, cred):
    """the verifier was given the registry of a revocable credential"""
    return and_(*[not_(isnone(c, v)) for v in (R_(c, cred, 'pub_key', 'r_key'), c.f(cred, 'rev_reg'), c.f(cred, 'rev_key_pub'))])
def isnone(c, v): return eq(kind(c, v), num(0))
def un(c, v):
    v = c.D(v)
    while isinstance(v, IteV): v = v.a if isinstance(v.a, Adt) and v.a.vn == 'Some' else v.b
    return v.fs[0]
def subproof_taus(c, ch, sp, cred):
    nr, g = c.f(sp, 'non_revoc_proof'), given(c, cred); pk = c.f(cred, 'pub_key')
    T_ = []
    c2 = c.under(and_(g, not_(isnone(c, nr))), lambda c: [One(Seq([chunk(ty, t)])) for ty, t in zip(NRT, nr_taus(c, un(c, c.f(pk, 'r_key')), un(c, c.f(cred, 'rev_reg')), un(c, c.f(cred, 'rev_key_pub')), ch, un(c, nr)))])
    T_ = [Guard(and_(g, not_(isnone(c, nr))), c2)]
    prim = primary_taus(c, c.f(pk, 'p_key'), ch, c.f(sp, 'primary_proof'), c.f(cred, 'credential_schema'), c.f(cred, 'non_credential_schema'), c.f(cred, 'sub_proof_request'))
    return T_ + [bytes_of(x) for x in prim.segs]
def bytes_of(seg):
    if isinstance(seg, One): return One(Seq([bnbytes(seg.v)]))
    return Comp(seg.var, seg.cond, [bytes_of(x) for x in seg.body], seg.order)
def subproof_clist(c, sp, cred):
    nr, g = c.f(sp, 'non_revoc_proof'), given(c, cred)
    return [Guard(and_(g, not_(isnone(c, nr))), c.under(and_(g, not_(isnone(c, nr))), lambda c: nr_clist(c, c.f(un(c, nr), 'c_list'))))] + list(primary_clist(c, c.f(sp, 'primary_proof')).segs)
def subproof_ok(c, sp, cred):
    return and_(or_(not_(given(c, cred)), not_(isnone(c, c.f(sp, 'non_revoc_proof')))),
                primary_ok(c, R_(c, cred, 'pub_key', 'p_key'), c.f(sp, 'primary_proof'), c.f(cred, 'credential_schema'), c.f(cred, 'non_credential_schema'), c.f(cred, 'sub_proof_request')))
@con('ProofVerifier::verify', ('C04', 'C05', 'C07'), check_only=True, limit=200)
def _(c, me, proof, nonce):
    creds, ps, ag = c.f(me, 'credentials'), c.f(proof, 'proofs'), c.f(proof, 'aggregated_proof'); L = c.len(ps); ch = R(c, ag, 'c_hash'); com = c.f(me, 'common_attributes')
    m = lambda i: R_(c, c.at(ps, i), 'primary_proof', 'eq_proof', 'm'); k = fresh_var('S', 'k')
    common = lambda i: forall(k, inmap(c, com, k), and_(c.has(m(i), k), c.under(and_(c.has(m(i), k), c.has(m(ZERO), k)), lambda c: feq0(rsub(get(c, m(i), k), get(c, m(ZERO), k))))))
    one = lambda i: and_(common(i), subproof_ok(c, c.at(ps, i), c.at(creds, i)))
    from models_cl import concat_all
    sp = lambda c, i: (c.at(ps, i), c.at(creds, i))
    # the first sub proof and the others: the loop fixes the common responses at the first
    def case(cond, f, every):
        good = and_(params_ok(c, creds, proof), c.under(and_(cond, params_ok(c, creds, proof)), lambda c: every()))
        def lists(c): return Seq(f(lambda i: subproof_taus(c, ch, *sp(c, i)))), Seq(f(lambda i: subproof_clist(c, *sp(c, i))))
        g = and_(good, cond); taus, cl = c.under(g, lists); listed = eq_seq(c, cl, c.f(ag, 'c_list'))
        w = cat(concat_all(c.ex, c.st, taus), concat_all(c.ex, c.st, c.D(c.f(ag, 'c_list'))), bnseq(ring(c, nonce)))
        c.ok(and_(g, listed), feq0(rsub(ch, hash_int(w)))); c.err(and_(cond, not_(and_(good, listed))))
    def peeled(f):
        i = fresh_var('I', 'k'); return f(ZERO) + [Comp(i, and_(le(ONE, i), lt(i, L)), f(i))]
    case(lt(ZERO, L), peeled, lambda: and_(one(ZERO), c.all(1, L, one)))
    case(le(L, ZERO), lambda f: [], lambda: TRUE)
def eq_seq(c, a, b):
    import models; return models.val_eq(c.ex, c.st, a, c.D(b))
# ---------------------------------------------------------------- C04: honest presentations
def honest_cred(l, st, define=False, n_=''):
    """any issuer key, any credential that satisfies the key equation (what issuance establishes, C03), any request on it"""
    c = l.spec(st); pk = l.sym('CredentialPrimaryPublicKey', 'pk' + n_); sg = l.sym('PrimaryCredentialSignature', 'sg' + n_); cs = l.sym('CredentialSchema', 'cs' + n_); ns = l.sym('NonCredentialSchema', 'ns' + n_)
    vals = l.sym('CredentialValues', 'vals' + n_); spr = l.sym('SubProofRequest', 'req' + n_); com = l.sym('HashMap<String, BigNumber>', 'common') if False else None
    n, s, z, r = R(c, pk, 'n'), R(c, pk, 's'), R(c, pk, 'z'), c.f(pk, 'r'); av = c.f(vals, 'attrs_values')
    k = fresh_var('S', 'k'); A, B_ = c.f(cs, 'attrs'), c.f(ns, 'attrs'); inv = inmap(c, av, k)
    st.assume(forall(k, inv, c.has(r, k)))
    st.assume(forall(k, inv, or_(inmap(c, A, k), inmap(c, B_, k)))); st.assume(forall(k, or_(inmap(c, A, k), inmap(c, B_, k)), inv))
    rx = radd(radd(rmul(lg(n, s), R(c, sg, 'v')), rmul(lg(n, R(c, pk, 'rctxt')), R(c, sg, 'm_2'))), rsum(k, inv, rmul(lg(n, get(c, r, k)), R(c, c.get(av, k), 'value'))))
    zl = radd(rx, rmul(lg(n, R(c, sg, 'a')), R(c, sg, 'e')))
    if define: pk = c.mk('CredentialPrimaryPublicKey', n=n, s=s, r=c.D(r), rctxt=R(c, pk, 'rctxt'), z=E(n, zl))      # the same equation, oriented
    else: st.assume(feq0(rsub(lg(n, z), zl)))
    return c, pk, sg, cs, ns, vals, spr
I32 = (-2 ** 31, 2 ** 31 - 1)
def bnint(x):
    k = rconst(x); return num(k) if k is not None else app('bn.int', (x,), 'I')
def delta_of(c, p, x):
    v = c.f(p, 'value'); t = ptype(c, p)
    return ite(eq(t, num(GE_)), isub(x, v), ite(eq(t, num(LE_)), isub(v, x), ite(eq(t, num(GT_)), isub(isub(x, v), ONE), isub(isub(v, x), ONE))))
def delta_ring(c, p, x):
    v = int_to_ring(c.f(p, 'value')); t = ptype(c, p)
    return ite(eq(t, num(GE_)), rsub(x, v), ite(eq(t, num(LE_)), rsub(v, x), ite(eq(t, num(GT_)), rsub(rsub(x, v), R1), rsub(rsub(v, x), R1))))
def pick(c, v, i):
    """the value of an enum known to be variant i"""
    v = c.D(v)
    if isinstance(v, IteV): return pick(c, v.a, i) or pick(c, v.b, i)
    return v if v.vi == i else None
def satisfied(c, vals, p):
    """the holder's value of the attribute is an i32 that satisfies the predicate"""
    av, nm = c.f(vals, 'attrs_values'), c.f(p, 'attr_name'); h = c.has(av, nm)
    def rest(c):
        x = attr_int(c, vals, p); return and_(le(num(I32[0]), x), le(x, num(I32[1])), le(ZERO, delta_of(c, p, x)))
    return and_(h, c.under(h, rest))
def attr_int(c, vals, p):
    v = c.D(c.get(c.f(vals, 'attrs_values'), c.f(p, 'attr_name')))
    return ite(eq(kind(c, v), num(KNOWN)), bnint(R(c, pick(c, v, KNOWN), 'value')), ite(eq(kind(c, v), num(HIDDEN)), bnint(R(c, pick(c, v, HIDDEN), 'value')), bnint(R(c, pick(c, v, COMMITTED), 'value'))))
def mapof(d):
    m = MapV(fresh_var('S', 'key'), FALSE, R0, ('h', 'spec'))
    for k, v in d:
        e = eq(m.var, k); m = MapV(m.var, or_(m.dom, e), ite_val(e, v, m.val) if m.dom is not FALSE else v, m.order)
    return m
DIG = [sstr(str(i)) for i in range(4)]
@con('ProofBuilder::_init_ne_proof', ('C04',))
def _(c, pk, mt, vals, p):
    if isinstance(p, T): p = pred(c, p)
    nm = c.f(p, 'attr_name'); n, s, z = R(c, pk, 'n'), R(c, pk, 's'), R(c, pk, 'z')
    g = lambda m, k: (lambda ex, st, v: ring(c, ex.models.map_get(ex, st, ex.deref(st, ex.getf(st, v.fs[0], m)), k)))
    r = [c.wit('r%d' % i, bind=g('r', k)) for i, k in enumerate(DIG + [DELTA])]; ut = [c.wit('ut%d' % i, bind=g('u_tilde', k)) for i, k in enumerate(DIG)]
    rt = [c.wit('rt%d' % i, bind=g('r_tilde', k)) for i, k in enumerate(DIG + [DELTA])]; al = c.wit('alpha', bind=lambda ex, st, v: ring(c, ex.getf(st, v.fs[0], 'alpha_tilde')))
    good = and_(satisfied(c, vals, p), c.has(mt, nm))
    def sq(c): d = delta_of(c, p, attr_int(c, vals, p)); return delta_ring(c, p, R(c, c.get(c.f(vals, 'attrs_values'), nm), 'value')), [fapp('sq.%d' % i, (d,)) for i in range(4)]
    def val(c):
        d, u = sq(c); T_ = [ped(n, z, e, s, r[i]) for i, e in enumerate(u + [d])]
        tm, um, rm, utm, rtm = mapof(zip(DIG + [DELTA], T_)), mapof(zip(DIG, u)), mapof(zip(DIG + [DELTA], r)), mapof(zip(DIG, ut)), mapof(zip(DIG + [DELTA], rt))
        return c.mk('PrimaryPredicateInequalityInitProof', c_list=c.seq(*T_), tau_list=c.seq(*tne(c, pk, utm, rtm, get(c, mt, nm), al, tm, is_less(c, p))),
                    u=um, u_tilde=utm, r=rm, r_tilde=rtm, alpha_tilde=al, predicate=p, t=tm)
    def four_(c): d, u = sq(c); return feq0(rsub(rsum_list([rmul(y, y) for y in u]), d))
    c.ok(good, c.under(good, val), facts=[c.under(good, four_)]); c.err(not_(good))
def pred(c, k):
    import models_cl; f = kv(k); return c.mk('Predicate', attr_name=f[0], p_type=models_cl.ptype(f[1]), value=f[2])
def requested(c, vals, spr, pk):
    """the request is one this credential answers: its attributes exist, the ones with predicates are not revealed and satisfy them"""
    k = fresh_var('S', 'k'); P = c.f(spr, 'predicates'); av = c.f(vals, 'attrs_values'); nm = kv(k)[0]
    inp = inmap(c, P, k)
    return and_(forall(k, inmap(c, c.f(spr, 'revealed_attrs'), k), c.has(av, k)),
                forall(k, inp, and_(not_(inmap(c, c.f(spr, 'revealed_attrs'), nm)), satisfied(c, vals, pred(c, k)))))
@lem('an honest presentation of one credential recomputes the commitments of the prover', ('C04',), 200)
def _(l):
    st = l.st; c, pk, sg, cs, ns, vals, spr = honest_cred(l, st); ch = l.F('challenge'); k = fresh_var('S', 'k')
    com = MapV(k, app('common.has', (k,), 'B'), fapp('common', (k,)), ('h', 'common'))
    st.assume(requested(c, vals, spr, pk))
    for st, ip in l.must(st, 'ProofBuilder::_init_primary_proof', com, pk, sg, vals, cs, ns, spr, none(), what='the prover starts the proof'):
        for st, pp in l.must(st, 'ProofBuilder::_finalize_primary_proof', ip, ch, cs, ns, vals, spr, what='the prover answers the challenge'):
            c = l.spec(st); st.assume(le(app('bn.bits.len', (R(c, pp, 'eq_proof', 'e'),), 'I'), num(457)))      # e^ = e~ + c e' of the specified sizes
            for st, taus in l.must(st, 'ProofVerifier::_verify_primary_proof', pk, ch, pp, cs, ns, spr, what='the verifier accepts the shape of the proof'):
                for st, w in l.must(st, 'PrimaryInitProof::as_tau_list', ip, what='the commitments of the prover'):
                    l.eq(st, Seq([bytes_of(x) for x in c.D(taus).segs]), w, 'the recomputed commitments are those of the prover')
                    for st, cl in l.must(st, 'PrimaryInitProof::as_c_list', ip, what='the commitment list of the prover'):
                        for st, cl2 in l.must(st, 'PrimaryProof::as_c_list', pp, what='the commitment list of the proof'): l.eq(st, cl2, cl, 'the commitment lists agree')
# ---------------------------------------------------------------- C06: the registry is the sum (in the exponent) of the tails of the valid indices
def tail(i): return fapp('tail', (i,))
def tailok(i): return app('tail.ok', (i,), 'B')
def inreg(i, mx): return and_(le(ONE, i), le(i, mx))
U32 = num(2 ** 32)
def slot(mx, i): return isub(iadd(mx, ONE), i)
def setof(*xs):
    m = MapV(fresh_var('I', 'key'), FALSE, UNITV, 'hash')
    for x in xs: m = MapV(m.var, or_(m.dom, eq(m.var, x)), UNITV, 'hash')
    return m
def setwhere(f, order='hash'): k = fresh_var('I', 'key'); return MapV(k, f(k), UNITV, order)
def delta(c, prev, acc, iss, rev): return c.mk('RevocationRegistryDelta', prev_accum=some(prev), accum=acc, issued=iss, revoked=rev)
def registry(c, acc): return c.mk('RevocationRegistry', accum=acc)
def ssum(S, f, c):
    k = fresh_var('I', 'k'); return rsum(k, c.has(S, k), f(k))
def sall(S, f, c):
    k = fresh_var('I', 'k'); return forall(k, c.has(S, k), f(k))
@con('Issuer::_get_index', ('C06', 'C07'))
def _(c, mx, i): c.req(lt(iadd(mx, ONE), U32)); c.ok(inreg(i, mx), slot(mx, i)); c.err(not_(inreg(i, mx)))
@con('Witness::_get_index', ('C06', 'C07'))
def _(c, mx, j, i): c.req(lt(iadd(mx, mx), U32)); c.ok(and_(inreg(i, mx), inreg(j, mx)), iadd(slot(mx, j), i)); c.err(not_(and_(inreg(i, mx), inreg(j, mx))))
@con('cl::helpers::transform_u32_to_array_of_u8', ('C06', 'C07'))
def _(c, x): c.ret(TRUE, Seq([One(imod(idiv(x, num(256 ** (3 - i))), num(256))) for i in range(4)]))
@con('PointG2::new_tail', ('C06', 'C07'))
def _(c, i, g, gamma): c.ok(TRUE, rmul(ring(c, g), rpow(ring(c, gamma), i)))
def change(sign):
    def f(c, reg, mx, i, acc):
        c.req(lt(iadd(mx, ONE), U32)); a = R(c, reg, 'accum'); t = tail(slot(mx, i)); b = radd(a, t) if sign > 0 else rsub(a, t)
        good = and_(inreg(i, mx), tailok(slot(mx, i))); c.err(not_(good))
        c.ok(good, delta(c, a, b, setof(i) if sign > 0 else setof(), setof() if sign > 0 else setof(i)), writes={0: registry(c, b)})
    return f
con('Issuer::revoke_credential', ('C06',))(change(-1))
con('Issuer::recovery_credential', ('C06',))(change(1))
@con('Issuer::update_revocation_registry', ('C06',))
def _(c, reg, mx, iss, rev, acc):
    c.req(lt(iadd(mx, ONE), U32)); a = R(c, reg, 'accum'); good = lambda i: and_(inreg(i, mx), tailok(slot(mx, i))); t = lambda i: tail(slot(mx, i))
    b = rsub(radd(a, ssum(iss, t, c)), ssum(rev, t, c))
    good = and_(sall(iss, good, c), sall(rev, good, c)); c.err(not_(good))
    c.ok(good, delta(c, a, b, iss, rev), writes={0: registry(c, b)})
@con('Issuer::_new_revocation_registry', ('C06',))
def _(c, pk, sk, mx, default):
    c.req(lt(iadd(mx, ONE), U32)); g, gamma = R(c, pk, 'g_dash'), R(c, sk, 'gamma'); k = fresh_var('I', 'k')
    c.ok(default, registry(c, rsum(k, inreg(k, mx), rmul(g, rpow(gamma, slot(mx, k)))))); c.ok(not_(default), registry(c, R0))
@con('Issuer::_new_revocation_registry_keys', ('C06', 'C07'))
def _(c, pk, mx):
    c.req(lt(iadd(mx, ONE), U32)); gamma = c.wit('gamma', nonzero=True, bind=lambda ex, st, v: R(c, ex.getf(st, v.fs[0], '1'), 'gamma'))
    c.ok(TRUE, Tup([c.mk('RevocationKeyPublic', z=rmul(rmul(R(c, pk, 'g'), R(c, pk, 'g_dash')), rpow(gamma, iadd(mx, ONE)))), c.mk('RevocationKeyPrivate', gamma=gamma)]))
@con('RevocationTailsGenerator::new', ('C06',))
def _(c, mx, gamma, g): c.req(lt(iadd(imul(mx, num(2)), ONE), U32)); c.ret(TRUE, c.mk('RevocationTailsGenerator', size=iadd(imul(mx, num(2)), ONE), current_index=ZERO, g_dash=g, gamma=gamma))
@con('RevocationTailsGenerator::try_next', ('C06',))
def _(c, me):
    n, i = c.f(me, 'size'), c.f(me, 'current_index'); c.req(lt(iadd(n, ONE), U32)); nxt = {0: c.mk('RevocationTailsGenerator', size=n, current_index=iadd(i, ONE), g_dash=c.f(me, 'g_dash'), gamma=c.f(me, 'gamma'))}
    mid = idiv(iadd(n, ONE), num(2))
    c.ok(le(n, i), none()); c.ok(and_(lt(i, n), eq(i, mid)), some(R0), writes=nxt, label='hidden')
    c.ok(and_(lt(i, n), not_(eq(i, mid))), some(rmul(R(c, me, 'g_dash'), rpow(R(c, me, 'gamma'), i))), writes=nxt, label='tail')
@con('RevocationTailsGenerator::count', ('C06',))
def _(c, me): c.req(le(c.f(me, 'current_index'), c.f(me, 'size'))); c.ret(TRUE, isub(c.f(me, 'size'), c.f(me, 'current_index')))
@con('RevocationRegistryDelta::merge', ('C06',))
def _(c, me, other):
    i1, r1, i2, r2 = c.f(me, 'issued'), c.f(me, 'revoked'), c.f(other, 'issued'), c.f(other, 'revoked'); h = lambda s: (lambda k: c.has(s, k))
    I1, R1_, I2, R2 = h(i1), h(r1), h(i2), h(r2); k = fresh_var('I', 'k')
    # deltas of one history: an index is issued or revoked in a delta, issued again only after its revocation, revoked again only after it was issued
    for a, b in ((I1, R1_), (I2, R2), (I1, I2), (R1_, R2)): c.req(forall(k, and_(a(k), b(k)), FALSE))
    p = c.f(other, 'prev_accum'); k0 = eq(kind(c, p), ONE)
    good = and_(k0, c.under(k0, lambda c: feq0(rsub(R(c, me, 'accum'), ring(c, un(c, p))))))
    c.err(not_(good))
    c.ok(good, UNITV, writes={0: c.mk('RevocationRegistryDelta', prev_accum=c.f(me, 'prev_accum'), accum=R(c, other, 'accum'),
        issued=setwhere(lambda k: or_(and_(I1(k), not_(R2(k))), and_(I2(k), not_(R1_(k))))), revoked=setwhere(lambda k: or_(and_(R1_(k), not_(I2(k))), and_(R2(k), not_(I1(k))))))})
def wslot(mx, j, i): return iadd(slot(mx, j), i)
@con('Witness::new', ('C06', 'C07'))
def _(c, i, mx, default, dl, acc):
    c.req(lt(iadd(mx, mx), U32)); iss, rev = c.f(dl, 'issued'), c.f(dl, 'revoked'); k = fresh_var('I', 'k')
    used = lambda k: and_(not_(eq(k, i)), or_(and_(default, inreg(k, mx), not_(c.has(rev, k))), and_(not_(default), c.has(iss, k))))
    good = forall(k, used(k), and_(inreg(k, mx), inreg(i, mx), tailok(wslot(mx, k, i)))); c.err(not_(good))
    c.ok(good, c.mk('Witness', omega=rsum(k, used(k), tail(wslot(mx, k, i)))))
@con('Witness::update', ('C06', 'C07'))
def _(c, me, i, mx, dl, acc):
    c.req(lt(iadd(mx, mx), U32)); iss, rev = c.f(dl, 'issued'), c.f(dl, 'revoked'); k = fresh_var('I', 'k')
    oth = lambda S: (lambda k: and_(not_(eq(k, i)), c.has(S, k))); good = lambda k: and_(inreg(k, mx), inreg(i, mx), tailok(wslot(mx, k, i)))
    s = lambda S: rsum(k, oth(S)(k), tail(wslot(mx, k, i)))
    good = and_(forall(k, oth(rev)(k), good(k)), forall(k, oth(iss)(k), good(k))); c.err(not_(good))
    c.ok(good, UNITV, writes={0: c.mk('Witness', omega=rsub(radd(R(c, me, 'omega'), s(iss)), s(rev)))})
# ---------------------------------------------------------------- C06, C07: issuing and checking the revocable part of a credential
XS = ['rho', 'r', 'r_prime', 'r_prime_prime', 'r_prime_prime_prime', 'o', 'o_prime', 'm', 'm_prime', 't', 't_prime', 'm2', 's', 'c']
def rev_cred(c, ur, pk, sk, gamma, i, m2, cc, vpp):
    """the revocable part of a credential of index i: sigma is a signature on the blinded secret, the context m2 and the index"""
    p = lambda f: R(c, pk, f); q = lambda f: R(c, sk, f); gi = rpow(gamma, i); g_i = rmul(p('g'), gi)
    sigma = rmul(rsum_list([p('h0'), rmul(p('h1'), m2), ur, g_i, rmul(p('h2'), vpp)]), rinv(radd(q('x'), cc)))
    w = c.mk('WitnessSignature', sigma_i=rmul(p('g_dash'), rinv(radd(q('sk'), gi))), u_i=rmul(p('u'), gi), g_i=g_i)
    return c.mk('NonRevocationCredentialSignature', sigma=sigma, c=cc, vr_prime_prime=vpp, witness_signature=w, g_i=g_i, i=i, m2=m2)
@con('Issuer::_new_non_revocation_credential', ('C06', 'C07'))
def _(c, i, ctx, bl, pub, priv, mx, default, reg, rk, acc):
    c.req(lt(iadd(mx, ONE), U32)); ur, pk, sk = c.f(bl, 'ur'), c.f(pub, 'r_key'), c.f(priv, 'r_key'); a = R(c, reg, 'accum')
    here = and_(*[not_(isnone(c, v)) for v in (ur, pk, sk)]); idx = slot(mx, i)
    good = and_(here, fits32(ring(c, ctx)), inreg(i, mx), or_(default, tailok(idx))); c.err(not_(good))
    cc = c.wit('c', nonzero=True, bind=lambda ex, st, v: R(c, ex.getf(st, v.fs[0], '0'), 'c')); vpp = c.wit('vpp', nonzero=True, bind=lambda ex, st, v: R(c, ex.getf(st, v.fs[0], '0'), 'vr_prime_prime'))
    cred = lambda c: rev_cred(c, ring(c, un(c, ur)), un(c, pk), un(c, sk), R(c, rk, 'gamma'), i, goe(ring(c, ctx)), cc, vpp)
    g1, g2 = and_(good, default), and_(good, not_(default)); b = radd(a, tail(idx))
    c.ok(g1, c.under(g1, lambda c: Tup([cred(c), none()])), label='by default')
    c.ok(g2, c.under(g2, lambda c: Tup([cred(c), some(delta(c, a, b, setof(i), setof()))])), writes={7: registry(c, b)}, label='on demand')
def witness_ok(c, rc, pk, vk, reg, w, m2):
    """what the holder checks of the revocable part: the index is in the accumulator, the issuer signed the index, and the credential"""
    p = lambda f: R(c, pk, f); q = lambda f: R(c, rc, f); ws = lambda f: R(c, rc, 'witness_signature', f)
    return and_(feq0(rsub(rsub(rmul(ws('g_i'), R(c, reg, 'accum')), rmul(p('g'), R(c, w, 'omega'))), R(c, vk, 'z'))),
                feq0(rsub(rmul(radd(p('pk'), q('g_i')), ws('sigma_i')), rmul(p('g'), p('g_dash')))),
                feq0(rsub(rmul(q('sigma'), radd(p('y'), rmul(p('h_cap'), q('c')))), rmul(rsum_list([p('h0'), rmul(p('h1'), m2), rmul(p('h2'), q('vr_prime_prime')), q('g_i')]), p('h_cap')))))
@con('Prover::_test_witness_signature', ('C06', 'C07'))
def _(c, rc, pk, vk, reg, w, m2):
    good = and_(fits32(ring(c, m2)), witness_ok(c, rc, pk, vk, reg, w, goe(ring(c, m2)))); c.ok(good, UNITV); c.err(not_(good))
def with_vr(c, rc, vr):
    return c.mk('NonRevocationCredentialSignature', sigma=R(c, rc, 'sigma'), c=R(c, rc, 'c'), vr_prime_prime=radd(ring(c, vr), R(c, rc, 'vr_prime_prime')), witness_signature=c.f(rc, 'witness_signature'),
                g_i=R(c, rc, 'g_i'), i=c.f(rc, 'i'), m2=R(c, rc, 'm2'))
@con('Prover::_process_non_revocation_credential', ('C06', 'C07'))
def _(c, rc, vr, pk, vk, reg, w):
    rc2 = with_vr(c, rc, vr); good = witness_ok(c, rc2, pk, vk, reg, w, R(c, rc, 'm2')); c.ok(good, UNITV, writes={0: rc2}); c.err(not_(good), writes={0: ANY})
def xlist(c, d): return c.mk('NonRevocProofXList', **d)
@con('ProofBuilder::_gen_c_list_params', ('C07',))
def _(c, rc):
    d = {x: c.wit(x, nonzero=True, bind=lambda ex, st, v, x=x: R(c, v.fs[0], x)) for x in XS[:7]}
    cc = R(c, rc, 'c'); d.update(m=rmul(d['rho'], cc), m_prime=rmul(d['r'], d['r_prime_prime']), t=rmul(d['o'], cc), t_prime=rmul(d['o_prime'], d['r_prime_prime']), m2=R(c, rc, 'm2'), s=R(c, rc, 'vr_prime_prime'), c=cc)
    c.ok(TRUE, xlist(c, d))
@con('ProofBuilder::_create_c_list_values', ('C07',))
def _(c, rc, X, pk, w):
    p = lambda f: R(c, pk, f); x = lambda f: R(c, X, f); q = lambda *f: R(c, rc, *f)
    c.ok(TRUE, c.mk('NonRevocProofCList', e=radd(rmul(p('h'), x('rho')), rmul(p('htilde'), x('o'))), d=radd(rmul(p('g'), x('r')), rmul(p('htilde'), x('o_prime'))),
        a=radd(q('sigma'), rmul(p('htilde'), x('rho'))), g=radd(q('g_i'), rmul(p('htilde'), x('r'))), w=radd(R(c, w, 'omega'), rmul(p('h_cap'), x('r_prime'))),
        s=radd(q('witness_signature', 'sigma_i'), rmul(p('h_cap'), x('r_prime_prime'))), u=radd(q('witness_signature', 'u_i'), rmul(p('h_cap'), x('r_prime_prime_prime')))))
@con('ProofBuilder::_gen_tau_list_params', ('C07',))
def _(c): c.ok(TRUE, xlist(c, {x: c.wit(x, nonzero=True, bind=lambda ex, st, v, x=x: R(c, v.fs[0], x)) for x in XS}))
@con('ProofBuilder::_finalize_non_revocation_proof', ('C07',))
def _(c, ip, ch):
    g = goe(ring(c, ch)); a, b = c.f(ip, 'tau_list_params'), c.f(ip, 'c_list_params')
    c.ok(TRUE, c.mk('NonRevocProof', x_list=xlist(c, {x: rsub(R(c, a, x), rmul(g, R(c, b, x))) for x in XS}), c_list=c.f(ip, 'c_list')))
# ---- what an issuer of revocation registries and a holder with a valid index have
def rev_keys(l, st):
    for st, k in l.must(st, 'Issuer::_new_credential_revocation_keys', what='new revocation keys'): yield st, k.fs[0], k.fs[1]
@lem('an index in the accumulator passes the checks of the holder; one that is not does not', ('C06', 'C07'), 200)
def _(l):
    st = l.st; c = l.spec(st); mx, i = sym('max', 'I'), sym('i', 'I'); st.assume(lt(iadd(mx, mx), U32)); st.assume(inreg(i, mx)); V = l.sym('HashSet<u32>', 'valid'); k = fresh_var('I', 'k'); ctx = l.F('ctx'); st.assume(fits32(ctx))
    st.assume(forall(k, c.has(V, k), inreg(k, mx)))
    for st, pk, sk in rev_keys(l, st):
        for st, rk in l.must(st, 'Issuer::_new_revocation_registry_keys', pk, mx, what='new registry keys'):
            vk, rpriv = rk.fs; c = l.spec(st); gamma, gd, vr = R(c, rpriv, 'gamma'), R(c, pk, 'g_dash'), l.F('vr')
            tl = lambda j: rmul(gd, rpow(gamma, j))
            acc = rsum(k, c.has(V, k), tl(slot(mx, k))); om = rsum(k, and_(c.has(V, k), not_(eq(k, i))), tl(wslot(mx, k, i)))
            pub, priv = c.mk('CredentialPublicKey', p_key=l.sym('CredentialPrimaryPublicKey', 'ppk'), r_key=some(pk)), c.mk('CredentialPrivateKey', p_key=l.sym('CredentialPrimaryPrivateKey', 'psk'), r_key=some(sk))
            bl = c.mk('BlindedCredentialSecrets', u=l.F('u'), ur=some(rmul(R(c, pk, 'h2'), vr)), hidden_attributes=l.sym('BTreeSet<String>', 'h'), committed_attributes=l.sym('BTreeMap<String, BigNumber>', 'ca'))
            reg0 = l.mut(st, registry(c, acc))
            for st, r in l.must(st, 'Issuer::_new_non_revocation_credential', i, ctx, bl, pub, priv, mx, TRUE, reg0, rpriv, UNITV, what='the issuer signs'):
                c = l.spec(st); rc = r.fs[0]; reg, w = registry(c, acc), c.mk('Witness', omega=om); s1 = st.fork(); s1.assume(c.has(V, i)); m = l.mut(s1, rc)
                l.must(s1, 'Prover::_process_non_revocation_credential', m, vr, pk, vk, reg, w, what='the holder of a valid index accepts')
                s2 = st.fork(); s2.assume(not_(c.has(V, i)))
                e = rsub(rsub(rmul(R(c, rc, 'witness_signature', 'g_i'), acc), rmul(R(c, pk, 'g'), om)), R(c, vk, 'z'))
                l.eq(s2, e, rneg(rmul(rmul(R(c, pk, 'g'), gd), rpow(gamma, iadd(mx, ONE)))), 'the accumulator equation of an index that is not valid is off by z, which is not zero')
@lem('an honest non-revocation proof is accepted: the verifier recomputes the commitments of the holder', ('C07',), 200)
def _(l):
    st = l.st; c = l.spec(st); rc, pk, vk, reg, w = (l.sym(t, n) for t, n in (('NonRevocationCredentialSignature', 'rc'), ('CredentialRevocationPublicKey', 'pk'), ('RevocationKeyPublic', 'vk'), ('RevocationRegistry', 'reg'), ('Witness', 'w')))
    ch = l.F('challenge'); q = lambda *f: R(c, rc, *f); p = lambda f: R(c, pk, f)
    # what the issuer made (the credential lemma) and the holder checked: g_i = g gamma^i, u_i = u gamma^i and the three equations
    i = l.F('gamma^i'); st.assume(feq0(rsub(q('g_i'), rmul(p('g'), i)))); st.assume(feq0(rsub(q('witness_signature', 'g_i'), q('g_i')))); st.assume(feq0(rsub(q('witness_signature', 'u_i'), rmul(p('u'), i))))
    st.assume(witness_ok(c, rc, pk, vk, reg, w, q('m2')))
    for st, ip in l.must(st, 'ProofBuilder::_init_non_revocation_proof', rc, reg, pk, w, what='the holder commits'):
        for st, pf in l.must(st, 'ProofBuilder::_finalize_non_revocation_proof', ip, ch, what='the holder answers'):
            for st, t in l.must(st, 'ProofVerifier::_verify_non_revocation_proof', pk, reg, vk, ch, pf, what='the verifier recomputes'):
                for st, b1 in l.must(st, 'NonRevocProofTauList::as_slice', t, what='encoding'):
                    for st, b2_ in l.must(st, 'NonRevocInitProof::as_tau_list', ip, what='encoding'): l.eq(st, b1, b2_, 'the recomputed commitments are those of the holder')
def honest_rev(l, st, n_=''):
    """what the issuer made (the credential lemma) and the holder checked: g_i = g gamma^i, u_i = u gamma^i and the three equations"""
    c = l.spec(st); rc, pk, vk, reg, w = (l.sym(t, n + n_) for t, n in (('NonRevocationCredentialSignature', 'rc'), ('CredentialRevocationPublicKey', 'rpk'), ('RevocationKeyPublic', 'vk'), ('RevocationRegistry', 'reg'), ('Witness', 'w')))
    q = lambda *f: R(c, rc, *f); p = lambda f: R(c, pk, f); i = l.F('gamma^i' + n_)
    st.assume(feq0(rsub(q('g_i'), rmul(p('g'), i)))); st.assume(feq0(rsub(q('witness_signature', 'g_i'), q('g_i')))); st.assume(feq0(rsub(q('witness_signature', 'u_i'), rmul(p('u'), i))))
    st.assume(witness_ok(c, rc, pk, vk, reg, w, q('m2')))
    return rc, pk, vk, reg, w
def present(l, N, rev=()):
    """N credentials of any issuers, those of rev revocable with a witness that is current, any request on each that it satisfies, any set of attributes shared by all
    (hidden, of equal value in all), any nonce: the objects of both sides, from construction to the verdict"""
    st = l.st; k = fresh_var('S', 'k'); nonce = l.F('nonce'); shared = lambda x: app('common.has', (x,), 'B') if N > 1 else FALSE; H = []
    for i in range(N):
        c, pk, sg, cs, ns, vals, spr = honest_cred(l, st, True, str(i + 1) if i else ''); H.append((pk, sg, cs, ns, vals, spr)); A = c.f(cs, 'attrs')
        st.assume(requested(c, vals, spr, pk))      # attributes of the schema can be asked for, others (the link secret) not
        st.assume(forall(k, inmap(c, c.f(spr, 'revealed_attrs'), k), inmap(c, A, k))); st.assume(forall(k, inmap(c, c.f(spr, 'predicates'), k), inmap(c, A, kv(k)[0])))
        value = lambda j: R(c, c.get(c.f(H[j][4], 'attrs_values'), k), 'value')
        if N > 1:
            st.assume(forall(k, shared(k), and_(inmap(c, c.f(vals, 'attrs_values'), k), not_(inmap(c, c.f(spr, 'revealed_attrs'), k)))))
            if i: st.assume(forall(k, shared(k), feq0(rsub(value(i), value(0)))))
    RV = {i: honest_rev(l, st, str(i + 1) if i else '') for i in rev}
    pb = c.mk('ProofBuilder', common_attributes=MapV(k, shared(k), fapp('common', (k,)), ('h', 'common')), init_proofs=Seq([]), c_list=Seq([]), tau_list=Seq([]))
    ver = c.mk('ProofVerifier', credentials=Seq([]), common_attributes=MapV(k, shared(k), none(), ('h', 'common')))
    b = l.mut(st, pb); v = l.mut(st, ver); cpk = lambda i: c.mk('CredentialPublicKey', p_key=H[i][0], r_key=some(RV[i][1]) if i in rev else none())
    def prover(st, i):
        if i == N: yield st; return
        pk, sg, cs, ns, vals, spr = H[i]
        for s2, _ in l.must(st, 'ProofBuilder::add_sub_proof_request', b, spr, cs, ns, c.mk('CredentialSignature', p_credential=sg, r_credential=some(RV[i][0]) if i in rev else none()), vals, cpk(i), *((some(RV[i][3]), some(RV[i][4])) if i in rev else (none(), none())), what='the prover takes request %d' % (i + 1)):
            yield from prover(s2, i + 1)
    def verifier(st, i):
        if i == N: yield st; return
        pk, sg, cs, ns, vals, spr = H[i]
        for s2, _ in l.must(st, 'ProofVerifier::add_sub_proof_request', v, spr, cs, ns, cpk(i), *((some(RV[i][2]), some(RV[i][3])) if i in rev else (none(), none())), what='the verifier takes request %d' % (i + 1)): yield from verifier(s2, i + 1)
    for st in prover(st, 0):
        for st, proof in l.must(st, 'ProofBuilder::finalize', b, nonce, what='the prover finishes the proof'):
            proof, ch = l.named(st, proof, R(l.spec(st), proof, 'aggregated_proof', 'c_hash'), 'challenge')      # for any value of the challenge, and so for that of the hash
            c2 = l.spec(st)
            for i in range(N):
                pp = R_(c2, c2.at(c2.f(proof, 'proofs'), num(i)), 'primary_proof')
                st.assume(le(app('bn.bits.len', (R(c2, pp, 'eq_proof', 'e'),), 'I'), num(457)))      # e^ = e~ + c e' of the specified sizes
            for st in verifier(st, 0):
                for st, o in l.must(st, 'ProofVerifier::verify', v, proof, nonce, what='the verifier reaches a verdict'):
                    l.holds(st, o, 'the proof is accepted', ch)
@lem('a whole honest presentation is accepted: built, finalized and verified', ('C04',), 300)
def _(l): present(l, 1)
@lem('a whole honest presentation of two credentials with shared attributes is accepted', ('C04',), 300)
def _(l): present(l, 2)
@lem('a whole honest presentation of three credentials is accepted', ('C04',), 300)
def _(l): present(l, 3)
@lem('a whole honest presentation of a revocable credential with a current witness is accepted', ('C04', 'C07'), 300)
def _(l): present(l, 1, (0,))
@lem('a whole honest presentation of two credentials, one revocable, is accepted', ('C04', 'C07'), 300)
def _(l): present(l, 2, (1,))
# ---- the credential context and the attribute encoding
def encoded(s, little):
    w = sha(Seq([g for g in str_bytes(s).segs])); k = fresh_var('I', 'k'); f = w.segs[0]
    return bn_from(Seq([Comp(k, inr(k, num(32)), [segsub(x, {f.var: isub(num(31), k)}) for x in f.body])]) if little else w)
@con('cl::helpers::encode_attribute', ('C02',))
def _(c, s, order):
    lit = eq(kind(c, order), ONE); c.ok(lit, encoded(s, True), label='little'); c.ok(not_(lit), encoded(s, False), label='big')
@con('Issuer::_gen_credential_context', ('C02',))
def _(c, pid, i):
    # the index as a decimal number, -1 for a credential that cannot be revoked
    k0 = eq(kind(c, i), ONE); c.req(c.under(k0, lambda c: lt(un(c, i), num(2 ** 31))) if not isinstance(c.D(i), Adt) or c.D(i).vn == 'Some' else TRUE)
    f = lambda n: hash_int(cat(bnseq(encoded(pid, True), encoded(n, True))))
    c.ok(k0, c.under(k0, lambda c: f(app('fmt', (un(c, i),), 'S'))), label='index'); c.ok(not_(k0), f(sstr('-1')), label='none')
@con('Issuer::_new_credential_revocation_keys', ('C06', 'C07'))
def _(c):
    names = ['g', 'g_dash', 'h', 'h0', 'h1', 'h2', 'htilde', 'h_cap', 'u']; w = lambda i, f: c.wit(f, nonzero=True, bind=lambda ex, st, v: R(c, ex.getf(st, v.fs[0], i), f))
    d = {f: w('0', f) for f in names}; s = {f: w('1', f) for f in ('x', 'sk')}
    c.ok(TRUE, Tup([c.mk('CredentialRevocationPublicKey', pk=rmul(d['g'], s['sk']), y=rmul(d['h_cap'], s['x']), **d), c.mk('CredentialRevocationPrivateKey', **s)]))
@con('Prover::_generate_blinded_revocation_credential_secrets', ('C06', 'C07'))
def _(c, pk):
    v = c.wit('vr', nonzero=True, bind=lambda ex, st, v: R(c, v.fs[0], 'vr_prime')); c.ok(TRUE, c.mk('RevocationBlindedCredentialSecretsFactors', ur=rmul(R(c, pk, 'h2'), v), vr_prime=v))
@con('RevocationRegistryDelta::from_parts', ('C06',))
def _(c, frm, to, iss, rev):
    k0 = eq(kind(c, frm), ONE)
    c.ret(k0, c.under(k0, lambda c: c.mk('RevocationRegistryDelta', prev_accum=some(R(c, un(c, frm), 'accum')), accum=R(c, to, 'accum'), issued=iss, revoked=rev)), label='from a registry')
    c.ret(not_(k0), c.mk('RevocationRegistryDelta', prev_accum=none(), accum=R(c, to, 'accum'), issued=iss, revoked=rev), label='from nothing')
@con('Issuer::sign_credential_with_revoc', ('C02', 'C06'), check_only=True)
def _(c, pid, b, bp, n1, n2, vals, pub, priv, i, mx, default, reg, rk, acc):
    c.req(lt(i, num(2 ** 31))); c.req(lt(iadd(mx, ONE), U32))
    good = blinded_ok(c, b, bp, n1, c.f(pub, 'p_key')); c.err(not_(good)); c.free(good)
@lem('a revocable credential issued on a valid index is accepted by its holder', ('C02', 'C03', 'C06'), 250)
def _(l):
    st = l.st; c = l.spec(st); mx, i = sym('max', 'I'), sym('i', 'I'); st.assume(lt(iadd(mx, mx), num(2 ** 31))); st.assume(inreg(i, mx)); k = fresh_var('I', 'k')
    for st, pk, sk, kp in keys(l, st, None):
      for st, rpk, rsk in rev_keys(l, st):
        c = l.spec(st); pub = c.mk('CredentialPublicKey', p_key=pk, r_key=some(rpk)); priv = c.mk('CredentialPrivateKey', p_key=sk, r_key=some(rsk))
        pv, iv = values(l, st, pk); n1, n2 = l.F('n1'), l.F('n2'); pid = sym('prover_id', 'S')
        for st, d in l.must(st, 'Issuer::new_revocation_registry_def', pub, mx, TRUE, what='a registry with every index issued'):
            vk, rk, reg, gen = d.fs; c = l.spec(st); gamma, gd = R(c, rk, 'gamma'), R(c, rpk, 'g_dash')
            for st, b in l.must(st, 'Prover::blind_credential_secrets', pub, kp, pv, n1, what='blinding the secrets'):
                bl, fac, bp = b.fs; mreg = l.mut(st, reg)
                for st, r in l.must(st, 'Issuer::sign_credential_with_revoc', pid, bl, bp, n1, n2, iv, pub, priv, i, mx, TRUE, mreg, rk, UNITV, what='the issuer accepts the blinded secrets and signs'):
                    sig, sp, dl = r.fs; m = l.mut(st, sig); c = l.spec(st)
                    w = c.mk('Witness', omega=rsum(k, and_(inreg(k, mx), not_(eq(k, i))), rmul(gd, rpow(gamma, wslot(mx, k, i)))))
                    for st, _ in l.must(st, 'Prover::process_credential_signature', m, pv, sp, fac, pub, n2, some(vk), some(reg), some(w), what='the holder accepts the credential'): pass
@con('Issuer::new_revocation_registry_def', ('C06',))
def _(c, pub, mx, default):
    c.req(lt(iadd(imul(mx, num(2)), ONE), U32)); rk = c.f(pub, 'r_key'); k0 = not_(isnone(c, rk)); c.err(not_(k0)); k = fresh_var('I', 'k')
    gamma = c.wit('gamma', nonzero=True, bind=lambda ex, st, v: R(c, ex.getf(st, v.fs[0], '1'), 'gamma'))
    def val(c, acc):
        p = lambda f: R(c, un(c, rk), f); g, gd = p('g'), p('g_dash')
        return Tup([c.mk('RevocationKeyPublic', z=rmul(rmul(g, gd), rpow(gamma, iadd(mx, ONE)))), c.mk('RevocationKeyPrivate', gamma=gamma), registry(c, acc(gd)),
                    c.mk('RevocationTailsGenerator', size=iadd(imul(mx, num(2)), ONE), current_index=ZERO, g_dash=gd, gamma=gamma)])
    c.ok(and_(k0, default), c.under(k0, lambda c: val(c, lambda gd: rsum(k, inreg(k, mx), rmul(gd, rpow(gamma, slot(mx, k)))))), label='every index issued')
    c.ok(and_(k0, not_(default)), c.under(k0, lambda c: val(c, lambda gd: R0)), label='none issued')
# ---- histories: the registry and every witness follow the set of valid indices, one change at a time (induction over the history)
def hist(l, st):
    c = l.spec(st); mx = sym('max', 'I'); V = l.sym('HashSet<u32>', 'valid'); k = fresh_var('I', 'k'); st.assume(lt(iadd(mx, mx), num(2 ** 31))); st.assume(forall(k, c.has(V, k), and_(inreg(k, mx), tailok(slot(mx, k))))); return c, mx, V
def acc_of(c, mx, P): k = fresh_var('I', 'k'); return rsum(k, P(k), tail(slot(mx, k)))
def omega_of(c, mx, P, i): k = fresh_var('I', 'k'); return rsum(k, and_(P(k), not_(eq(k, i))), tail(wslot(mx, k, i)))
@lem('revoking a valid index and recovering a revoked one keep the registry the product of the tails of the valid indices', ('C06',), 100)
def _(l):
    for revoke in (True, False):
        st = l.st.fork(); c, mx, V = hist(l, st); i = sym('i', 'I'); st.assume(inreg(i, mx)); st.assume(tailok(slot(mx, i))); v = lambda k: c.has(V, k)
        st.assume(v(i) if revoke else not_(v(i))); m = l.mut(st, registry(c, acc_of(c, mx, v)))
        after = (lambda k: and_(v(k), not_(eq(k, i)))) if revoke else (lambda k: or_(v(k), eq(k, i)))
        for st, d in l.must(st, 'Issuer::revoke_credential' if revoke else 'Issuer::recovery_credential', m, mx, i, UNITV, what='the change succeeds'):
            c = l.spec(st); l.eq(st, R(c, c.D(m), 'accum'), acc_of(c, mx, after), 'the registry is the product over the indices valid now')
            l.eq(st, R(c, d, 'accum'), R(c, c.D(m), 'accum'), 'the delta leads to the registry')
            j = sym('j', 'I'); st.assume(inreg(j, mx)); kk = fresh_var('I', 'k'); st.assume(forall(kk, inreg(kk, mx), tailok(wslot(mx, kk, j))))
            w = l.mut(st, c.mk('Witness', omega=omega_of(c, mx, v, j)))
            for st, _ in l.must(st, 'Witness::update', w, j, mx, d, UNITV, what='a witness follows the delta'):
                c = l.spec(st); l.eq(st, R(c, c.D(w), 'omega'), omega_of(c, mx, after, j), 'the witness is the product over the other indices valid now')
@lem('a batch of changes keeps the registry and the witnesses in step, and so do merged deltas', ('C06',), 100)
def _(l):
    st = l.st.fork(); c, mx, V = hist(l, st); v = lambda k: c.has(V, k); k = fresh_var('I', 'k'); I1, R1_, I2, R2 = (l.sym('HashSet<u32>', n) for n in ('issued1', 'revoked1', 'issued2', 'revoked2'))
    h = lambda S: (lambda k: c.has(S, k)); a, b, d, e = h(I1), h(R1_), h(I2), h(R2)
    v1 = lambda k: or_(a(k), and_(v(k), not_(b(k)))); v2 = lambda k: or_(d(k), and_(v1(k), not_(e(k))))
    for S in (a, b, d, e): st.assume(forall(k, S(k), and_(inreg(k, mx), tailok(slot(mx, k)))))
    st.assume(forall(k, a(k), not_(v(k)))); st.assume(forall(k, b(k), v(k))); st.assume(forall(k, d(k), not_(v1(k)))); st.assume(forall(k, e(k), v1(k)))
    m = l.mut(st, registry(c, acc_of(c, mx, v)))
    for st, d1 in l.must(st, 'Issuer::update_revocation_registry', m, mx, I1, R1_, UNITV, what='the first batch'):
        c = l.spec(st); l.eq(st, R(c, c.D(m), 'accum'), acc_of(c, mx, v1), 'the registry after the first batch')
        for st, d2 in l.must(st, 'Issuer::update_revocation_registry', m, mx, I2, R2, UNITV, what='the second batch'):
            c = l.spec(st); l.eq(st, R(c, c.D(m), 'accum'), acc_of(c, mx, v2), 'the registry after the second batch'); md = l.mut(st, d1)
            for st, _ in l.must(st, 'RevocationRegistryDelta::merge', md, d2, what='the deltas of one history merge'):
                c = l.spec(st); l.eq(st, R(c, c.D(md), 'accum'), acc_of(c, mx, v2), 'the merged delta leads to the registry')
                j = sym('j', 'I'); st.assume(inreg(j, mx)); kk = fresh_var('I', 'k'); st.assume(forall(kk, inreg(kk, mx), tailok(wslot(mx, kk, j))))
                w = l.mut(st, c.mk('Witness', omega=omega_of(c, mx, v, j)))
                for st, _ in l.must(st, 'Witness::update', w, j, mx, c.D(md), UNITV, what='a witness follows the merged delta'):
                    c = l.spec(st); l.eq(st, R(c, c.D(w), 'omega'), omega_of(c, mx, v2, j), 'the witness after both batches')
