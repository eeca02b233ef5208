"""Contracts and lemmas for Camenisch-Shoup verifiable encryption in zmix (E01)."""
from contracts import *
from models_bbs import int_to_ring
from terms import args_terms
from models_cs import CSModels, bn_from, bnbytes, sha, lt_, cs_exp, cs_mod, cs_div, cs_mul, cs_inv
CRATES = ['zmix', 'ursa']; CRATE = 'zmix'; MODELS = CSModels
C = {}; LEM = []; TAGS = {}
EXT = [(('E01',), 'the number theory of the Paillier group (theorems of Paillier.lean)', 'Paillier.lean')]
U = ('E01',)
M = 'verifiable_encryption::cs_verifiable_encryption::'
def con(ident, n=0, **opts):
    def d(f): C['%s#%s' % (ident, n)] = Contract('zmix', ident, f, n, opts); TAGS['%s#%s' % (ident, n)] = U; return f
    return d
def lem(name, props=U, limit=60):
    def d(f): LEM.append((props, Lemma('zmix', name, f, limit))); return f
    return d
def R(c, v, *p):
    for x in p: v = c.f(v, x)
    return ring(c, v)
def at(c, v, k): return ring(c, c.at(v, k))
def mul(c, a, b, N): return cs_mul(c.ex, a, b, N, c.st)
def exp(c, b, e, N): return cs_exp(c.ex, b, e, N)
def pgN(c, pg): return R(c, pg, 'modulus')
def absv(c, N, x):
    """[(condition, |x| modulo N)]"""
    a = cs_mod(c.ex, x, N); big = lt_(fapp('bn.shr', (N, ONE)), a)
    return [(big, rsub(N, a)), (not_(big), a)]
G = 'PaillierGroup::'
@con(G + 'exponentiate')
def _(c, pg, b, e, ctx): c.ok(TRUE, exp(c, ring(c, b), ring(c, e), pgN(c, pg)))
@con(G + 'exponentiate_g')
def _(c, pg, e, ctx): c.ok(TRUE, exp(c, R(c, pg, 'g'), ring(c, e), pgN(c, pg)))
@con(G + 'exponentiate_h')
def _(c, pg, e, ctx): c.ok(TRUE, exp(c, R(c, pg, 'h'), ring(c, e), pgN(c, pg)))
@con(G + 'sqr')
def _(c, pg, b, ctx): x = ring(c, b); c.ok(TRUE, cs_mod(c.ex, rmul(x, x), pgN(c, pg)))
@con(G + 'abs')
def _(c, pg, a, ctx):
    for g, v in absv(c, pgN(c, pg), ring(c, a)): c.ok(g, v)
@con(G + 'rand')
def _(c, pg): x = c.wit('x'); c.fact(app('bn.below', (x, pgN(c, pg)), 'B')); c.ok(TRUE, x)
@con(G + 'rand_for_enc')
def _(c, pg): x = c.wit('x'); c.fact(app('bn.below', (x, R(c, pg, 'n_by_4')), 'B')); c.ok(TRUE, x)
def group(c, n, g):
    N = rmul(n, n)
    return c.mk('PaillierGroup', g=E(N, rmul(lg(N, g), rmul(rnum(2), n))), h=radd(n, R1), n_by_4=fapp('bn.shr', (n, num(2))), modulus=N)
@con(G + 'new')
def _(c, n, ctx): g = c.wit('g', bind=drawn('g')); c.ok(TRUE, group(c, ring(c, n), g))
def hs(c, u, e, label):
    """the hash of the ciphertext and its label"""
    k = c.idx(); n = c.len(e)
    st0 = c.st; c.st = c.st.fork().assume(le(ZERO, k), lt(k, n))
    try: b = Comp(k, and_(le(ZERO, k), lt(k, n)), [bnbytes(at(c, e, k))])
    finally: c.st = st0
    return bn_from(sha(Seq([bnbytes(u), b] + list(c.D(label).segs))))
@con(M + 'hash')
def _(c, u, e, label): c.ok(TRUE, hs(c, ring(c, u), e, label))
def drawn(path):
    """the random number drawn that occurs in a part of the result"""
    def bind(ex, st, v):
        v = v.fs[0]
        if isinstance(path, int): x = v.fs[path]; return fromatom(x) if x.op != 'poly' else x
        for t in subterms(ex.getf(st, v, path)):
            if t.op == 'sym' and str(t.args[0]).startswith('rnd'): return fromatom(t)
        raise Unsupported('no random number in the result')
    return bind
def subterms(t, seen=None):
    seen = set() if seen is None else seen; st = [t]
    while st:
        x = st.pop()
        if id(x) in seen: continue
        seen.add(id(x)); yield x
        st += list(args_terms(x))
def pub(c, pk): return c.f(pk, 'paillier_group'), R(c, pk, 'paillier_group', 'modulus')
def uu(c, r, pk): pg, N = pub(c, pk); return exp(c, R(c, pg, 'g'), r, N)
def ee(c, m, r, pk, k, dbl=R1):
    pg, N = pub(c, pk)
    return mul(c, exp(c, at(c, c.f(pk, 'y1'), k), r, N), exp(c, R(c, pg, 'h'), rmul(dbl, at(c, m, k)), N), N)
def es(c, m, r, pk, dbl=R1): return c.seq((0, c.len(m), lambda k: ee(c, m, r, pk, k, dbl)))
def y23(c, h, pk): pg, N = pub(c, pk); return mul(c, R(c, pk, 'y2'), exp(c, R(c, pk, 'y3'), h, N), N)
def vv(c, r, h, pk): pg, N = pub(c, pk); return exp(c, y23(c, h, pk), r, N)
def fits(c, m, pk): return le(c.len(m), c.len(c.f(pk, 'y1')))
@con(M + 'compute_u')
def _(c, r, pk, ctx): c.ok(TRUE, uu(c, ring(c, r), pk))
@con(M + 'compute_e')
def _(c, m, r, pk, ctx): c.req(fits(c, m, pk)); c.ok(TRUE, es(c, m, ring(c, r), pk))
@con(M + 'compute_v')
def _(c, r, h, pk, ctx, take):
    v = vv(c, ring(c, r), ring(c, h), pk); t = c.D(take)
    for g, a in absv(c, pub(c, pk)[1], v): c.ok(and_(t, g), a)
    c.ok(not_(t), v)
def cipher(c, r, m, label, pk):
    """[(condition, ciphertext)] of the messages under randomness r"""
    u = uu(c, r, pk); e = es(c, m, r, pk); v = vv(c, r, hs(c, u, e, label), pk)
    return [(g, c.mk('CSCiphertext', u=u, e=e, v=a)) for g, a in absv(c, pub(c, pk)[1], v)]
@con(M + 'encrypt_using_random_value')
def _(c, r, m, label, pk):
    c.req(fits(c, m, pk))
    for g, x in cipher(c, ring(c, r), m, label, pk): c.ok(g, x)
def tvals(c, r, m, h, pk):
    two = rnum(2); r2 = rmul(two, r)
    return c.mk('CSCiphertext', u=uu(c, r2, pk), e=es(c, m, r2, pk, two), v=vv(c, r2, h, pk))
@con(M + 'ciphertext_t_values')
def _(c, r, m, h, pk): c.req(fits(c, m, pk)); c.ok(TRUE, tvals(c, ring(c, r), m, ring(c, h), pk))
@con(M + 'encrypt')
def _(c, m, label, pk):
    r = c.wit('r', bind=drawn('u')); f = fits(c, m, pk); c.fact(app('bn.below', (r, R(c, pk, 'paillier_group', 'n_by_4')), 'B'))
    with_(c, f, lambda c: [c.ok(and_(f, g), x) for g, x in cipher(c, r, m, label, pk)]); c.err(not_(f))
def with_(c, cond, fn): return c.under(cond, fn)
@con(M + 'encrypt_and_prove_phase_1')
def _(c, m, b, label, pk):
    r, rt = c.wit('r', bind=drawn(2)), c.wit('rt', bind=drawn(3)); f = and_(fits(c, m, pk), eq(c.len(m), c.len(b)))
    for x in (r, rt): c.fact(app('bn.below', (x, R(c, pk, 'paillier_group', 'n_by_4')), 'B'))
    def go(c):
        for g, x in cipher(c, r, m, label, pk): c.ok(and_(f, g), Tup([x, tvals(c, rt, b, hs(c, R(c, x, 'u'), c.f(x, 'e'), label), pk), r, rt]))
    with_(c, f, go); c.err(not_(f))
@con(M + 'encrypt_and_prove_phase_2')
def _(c, r, rt, ch, pk, ctx): c.ok(TRUE, rsub(ring(c, rt), mul(c, ring(c, r), ring(c, ch), pub(c, pk)[1])))
@con(M + 'reconstruct_blindings_ciphertext')
def _(c, ct, s, rh, ch, label, pk):
    n = c.len(s); f = and_(fits(c, s, pk), eq(n, c.len(c.f(ct, 'e')))); two = rnum(2)
    def go(c):
        pg, N = pub(c, pk); c2, r2 = rmul(two, ring(c, ch)), rmul(two, ring(c, rh)); P = lambda x, y: mul(c, x, y, N)
        e = c.seq((0, n, lambda k: P(exp(c, at(c, c.f(ct, 'e'), k), c2, N), ee(c, s, r2, pk, k, two))))
        c.ok(f, c.mk('CSCiphertext', u=P(exp(c, R(c, ct, 'u'), c2, N), uu(c, r2, pk)), e=e,
                     v=P(exp(c, R(c, ct, 'v'), c2, N), vv(c, r2, hs(c, R(c, ct, 'u'), c.f(ct, 'e'), label), pk))))
    with_(c, f, go); c.err(not_(f))
@con(M + 'decrypt')
def _(c, label, ct, pk, sk):
    n = c.len(c.f(ct, 'e')); f = le(n, c.len(c.f(sk, 'x1')))
    def go(c):
        pg, N = pub(c, pk); nn = R(c, pk, 'n'); u, v = R(c, ct, 'u'), R(c, ct, 'v'); h = hs(c, u, c.f(ct, 'e'), label)
        isabs = or_(*[and_(g, feq0(rsub(v, a))) for g, a in absv(c, N, v)])
        tag = feq0(rsub(cs_mod(c.ex, rmul(v, v), N), exp(c, u, rmul(rnum(2), radd(rmul(h, R(c, sk, 'x3')), R(c, sk, 'x2'))), N)))
        def mh(k):
            ux = exp(c, u, at(c, c.f(sk, 'x1'), k), N)
            return exp(c, mul(c, at(c, c.f(ct, 'e'), k), cs_inv(ux, N), N), R(c, pk, 'two_inv_times_2'), N)
        good = c.all(0, n, lambda k: feq0(rsub(cs_mod(c.ex, mh(k), nn), R1)))
        out = c.seq((0, n, lambda k: cs_div(rsub(cs_mod(c.ex, mh(k), N), R1), nn)))
        c.ok(and_(f, isabs, tag, good), out); c.err(and_(f, not_(and_(isabs, tag, good))))
    with_(c, f, go); c.err(not_(f))
@con('CSKeypair::new')
def _(c, num_):
    f = le(ONE, num_); p, q, g, x2, x3 = (c.wit(x, bind=b) for x, b in (('p', prime(0)), ('q', prime(1)), ('g', drawn('pub_key.paillier_group.g')), ('x2', drawn('pri_key.x2')), ('x3', drawn('pri_key.x3')))); x1 = c.witfn('x1')
    n = rmul(p, q); c.fact(app('bn.prime', (p,), 'B'), app('bn.prime', (q,), 'B'))
    pg = group(c, n, g); N = rmul(n, n); y = lambda x: exp(c, R(c, pg, 'g'), x, N)
    c.ok(f, c.mk('CSKeypair', pri_key=c.mk('CSEncPrikey', x1=c.seq((0, num_, lambda k: x1(k))), x2=x2, x3=x3),
        pub_key=c.mk('CSEncPubkey', n=n, two_inv_times_2=rmul(rnum(2), cs_inv(rnum(2), n)), paillier_group=pg, y1=c.seq((0, num_, lambda k: y(x1(k)))), y2=y(x2), y3=y(x3))))
    c.err(not_(f))
def prime(i):
    def bind(ex, st, v):
        ps = [fromatom(t) for t in subterms(ex.getf(st, v.fs[0], 'pub_key.n')) if t.op == 'sym' and 'prime' in str(t.args[0])]
        return ps[i]
    return bind
# ---------------------------------------------------------------- lemmas
def honest(l, st):
    """a key pair as CSKeypair::new makes it (its contract), with the modulus N = n^2 written as one number"""
    c = l.spec(st); n, N, g, t = l.F('n'), l.F('N'), l.F('g'), l.F('t'); x2, x3 = l.F('x2'), l.F('x3'); cnt = sym('count', 'I'); st.assume(le(ONE, cnt))
    x1 = lambda k: fapp('key.x1', (k,)); y = lambda x: exp(c, g, x, N)
    pg = c.mk('PaillierGroup', g=g, h=radd(n, R1), n_by_4=fapp('bn.shr', (n, num(2))), modulus=N)
    l.ex.cs = {'n': n, 'N': N, 't': t, 'small': small, 'product': lambda st, a, b: product(st, pg, c, a, b)}
    return n, N, c.mk('CSEncPubkey', n=n, two_inv_times_2=t, paillier_group=pg, y1=c.seq((0, cnt, lambda k: y(x1(k)))), y2=y(x2), y3=y(x3)), c.mk('CSEncPrikey', x1=c.seq((0, cnt, x1)), x2=x2, x3=x3), cnt
def small(m):
    """one of the messages, declared to lie in 0..n"""
    ms = mons(m)
    if list(ms.values()) != [1]: return False
    k = list(ms)[0]
    return len(k) == 1 and k[0][1] == 1 and k[0][0].op == 'app' and k[0][0].args[0] == 'message'
def product(st, pg, c, a, b):
    """a below n/4 and b the challenge, declared to be at most n: the product is below N = n^2"""
    for x, y in ((a, b), (b, a)):
        if y.op == 'poly' and y is fsym('challenge') and app('bn.below', (x, R(c, pg, 'n_by_4')), 'B') in st.pc: return True
    return False
def folded(l, st, ct, N):
    """a > N/2 gives N - a <= N/2 (Paillier.lean)"""
    c = l.spec(st); v = R(c, ct, 'v'); a = rsub(N, v); h = fapp('bn.shr', (N, ONE))
    if lt_(h, a) in st.pc: st.assume(not_(lt_(h, v)))
def messages(l, st, cnt, name='message'):
    c = l.spec(st); m = sym('m', 'I'); st.assume(le(ZERO, m), le(m, cnt)); return m, c.seq((0, m, lambda k: fapp(name, (k,))))
@lem('decrypting an honest ciphertext returns the messages, in order')
def _(l):
    st = l.st; n, N, pk, sk, cnt = honest(l, st); m, ms = messages(l, st, cnt); label = l.sym('Vec<u8>', 'label')
    for s2, ct in l.must(st, M + 'encrypt', ms, label, pk, what='encrypt succeeds'):
        folded(l, s2, ct, N)
        for s3, out in l.must(s2, M + 'decrypt', label, ct, pk, sk, what='decrypt succeeds'): l.eq(s3, out, ms, 'the messages')
@lem('more messages than the key supports are refused')
def _(l):
    st = l.st; n, N, pk, sk, cnt = honest(l, st); c = l.spec(st); m = sym('m', 'I'); st.assume(lt(cnt, m)); ms = c.seq((0, m, lambda k: fapp('message', (k,)))); label = l.sym('Vec<u8>', 'label')
    for s2, r in l.run(st, M + 'encrypt', ms, label, pk):
        if not contradiction(s2.pc): l.holds(s2, TRUE if r[0] == 'ret' and r[1].vn == 'Err' else FALSE, 'refused')
@lem('an honest proof of encryption reconstructs to its commitment')
def _(l):
    st = l.st; n, N, pk, sk, cnt = honest(l, st); m, ms = messages(l, st, cnt); label = l.sym('Vec<u8>', 'label'); ch = l.F('challenge')
    c = l.spec(st); b = lambda k: fapp('blinding', (k,)); bs = c.seq((0, m, b))
    for s2, t in l.must(st, M + 'encrypt_and_prove_phase_1', ms, bs, label, pk, what='phase 1 succeeds'):
        ct, tv, r, rt = l.spec(s2).D(t).fs; folded(l, s2, ct, N)
        for s3, rh in l.must(s2, M + 'encrypt_and_prove_phase_2', r, rt, ch, pk, none(), what='phase 2 succeeds'):
            c = l.spec(s3); s = c.seq((0, m, lambda k: rsub(b(k), rmul(fapp('message', (k,)), ch))))
            for s4, back in l.must(s3, M + 'reconstruct_blindings_ciphertext', ct, s, rh, ch, label, pk, what='reconstruction succeeds'): l.eq(s4, back, tv, 'the commitment')
        for s5, out in l.must(s2, M + 'decrypt', label, ct, pk, sk, what='decrypt succeeds'): l.eq(s5, out, ms, 'the proved ciphertext decrypts to the messages')
@lem('a key pair as generated is of the form the other lemmas assume')
def _(l):
    st = l.st; cnt = sym('count', 'I'); st.assume(le(ONE, cnt))
    for s2, kp in l.must(st, 'CSKeypair::new', cnt, what='key generation succeeds'):
        c = l.spec(s2); pk, sk = c.f(kp, 'pub_key'), c.f(kp, 'pri_key'); n = R(c, pk, 'n'); pg, N = pub(c, pk); g = R(c, pg, 'g')
        l.eq(s2, N, rmul(n, n), 'the modulus is n squared'); l.eq(s2, R(c, pg, 'h'), radd(n, R1), 'h = n + 1'); l.eq(s2, R(c, pg, 'n_by_4'), fapp('bn.shr', (n, num(2))), 'n/4')
        l.eq(s2, R(c, pk, 'two_inv_times_2'), rmul(rnum(2), cs_inv(rnum(2), n)), 'twice the inverse of 2 modulo n')
        l.eq(s2, c.f(pk, 'y1'), c.seq((0, cnt, lambda k: exp(c, g, at(c, c.f(sk, 'x1'), k), N))), 'y1 = g^x1')
        for i in '23': l.eq(s2, R(c, pk, 'y' + i), exp(c, g, R(c, sk, 'x' + i), N), 'y%s = g^x%s' % (i, i))
