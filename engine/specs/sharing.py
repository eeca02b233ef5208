"""Contracts and lemmas for ursa_sharing (S01..S03)."""
from contracts import *
from models_sharing import SharingModels, chunk, SIZES
from models import enc_int
from models_bbs import int_to_ring
CRATES = ['us']; CRATE = 'us'; MODELS = SharingModels
C = {}; LEM = []; TAGS = {}
EXT = [(('S01',), 'Lagrange interpolation at zero with the coefficients of combine_shares (theorem recombine, Lean and Mathlib)', 'Lagrange.lean')]
def con(ident, tags, n=0, **opts):
    def d(f): C['%s#%s' % (ident, n)] = Contract('us', ident, f, n, opts); TAGS['%s#%s' % (ident, n)] = tags; return f
    return d
def lem(name, props, limit=60):
    def d(f): LEM.append((props, Lemma('us', name, f, limit))); return f
    return d
nz = lambda x: not_(feq0(x))
def R(c, v, *p):
    for x in p: v = c.f(v, x)
    return ring(c, v)
def at(c, v, k): return ring(c, c.at(v, k))
def i2f(k): return int_to_ring(k)
def gdot(c, g, f):
    st = c.st; c.st = st.fork().assume(g)
    try: return R0 if contradiction(c.st.pc) else f(c)
    finally: c.st = st
# identifiers of the three Scheme types in the order the compiler prints them
def wf(c, s): c.req(le(num(2), c.f(s, 'threshold')), le(c.f(s, 'threshold'), c.f(s, 'limit')), lt(c.f(s, 'limit'), num(2 ** 32)))
for n in ('feldman', 'pedersen', 'shamir'):
    @con('Scheme::new', 'S01', n=n)
    def _(c, t, l):
        good = and_(le(num(2), t), le(t, l))
        c.ok(good, c.mk('Scheme', threshold=t, limit=l)); c.err(not_(good))
@con('Scheme::split_secret', 'S01', n='shamir')
def _(c, s, rng, x):
    wf(c, s); t = c.f(s, 'threshold'); n = c.f(s, 'limit'); v = ring(c, x); a = c.witfn('a')
    c.ok(nz(v), c.seq((0, n, lambda i: share(c, iadd(i, num(1)), poly(c, v, a, t, iadd(i, num(1)))))))
    c.err(not_(nz(v)))
def poly(c, v, a, t, x): return radd(v, c.sum(1, t, lambda k: rmul(a(k), rpow(i2f(x), k))))
def share(c, i, y): return c.mk('Share', identifier=i, value=Seq([chunk('S', y)]))
# ---- decoding of arbitrary bytes by the group the caller supplies (uninterpreted, inverse of its encoding)
from models import dec_chunk
def dec(c, ty, w):
    r = dec_chunk(c.ex, c.st, 'enc.%s:u8' % ty, num(SIZES[ty]), c.D(w), 'F')
    if isinstance(r, IteV): return r.c, r.a.fs[0]
    return TRUE, r.fs[0]

def xs(c, sh, k): return c.f(c.at(sh, k), 'identifier')
def lagrange(c, sh, ty):
    n = c.len(sh)
    def basis(i):
        j = fresh_var('I', 'j')
        return rprod(j, and_(le(ZERO, j), lt(j, n), not_(eq(i, j))), rmul(i2f(xs(c, sh, j)), rinv(rsub(i2f(xs(c, sh, j)), i2f(xs(c, sh, i))))))
    return c.sum(0, n, lambda i: rmul(dec(c, ty, c.f(c.at(sh, i), 'value'))[1], basis(i)))
def sh_ok(c, sh, ty, k):
    d, y = dec(c, ty, c.f(c.at(sh, k), 'value'))
    j = fresh_var('I', 'j')
    return and_(not_(eq(xs(c, sh, k), ZERO)), d, nz(y), forall(j, and_(le(ZERO, j), lt(j, k)), not_(eq(xs(c, sh, j), xs(c, sh, k)))))
def comb(c, s, sh):
    good = and_(le(c.f(s, 'threshold'), c.len(sh)), c.all(0, c.len(sh), lambda k: sh_ok(c, sh, 'R', k)))
    c.ok(good, c.under(good, lambda c: lagrange(c, sh, 'R'))); c.err(not_(good))
@con('Scheme::combine_shares', 'S01', n='shamir')
def _(c, s, sh): wf(c, s); comb(c, s, sh)
def opt(c, o):
    """(is Some, value) of an optional generator"""
    return isvar(c, o, 'Some'), (payload(c, o, lambda v: ring(c, v.fs[0]) if v.fs else None) or R0)
def verifier(c, kind, t, coef, **gs):
    return c.mk(kind, commitments=c.seq((0, t, lambda k: c.mk('ShareVerifier', value=coef(k), phantom=ANY))), **gs)
@con('Scheme::split_secret', 'S02', n='feldman')
def _(c, s, rng, x, g):
    wf(c, s); t = c.f(s, 'threshold'); n = c.f(s, 'limit'); v = ring(c, x); a = c.witfn('a')
    some, given = opt(c, g)
    w = c.wit('g', nonzero=True, bind=lambda ex, st, r: ring(c, ex.getf(st, r.fs[0].fs[0], 'g')))
    for cond, gg in ((some, given), (not_(some), w)):
        coef = lambda k: radd(rmul(ind(eq(k, ZERO)), rmul(gg, v)), rmul(ind(not_(eq(k, ZERO))), rmul(gg, a(k))))
        c.ok(and_(nz(v), cond), Tup([verifier(c, 'FeldmanVerifier', t, coef, g=gg), c.seq((0, n, lambda i: share(c, iadd(i, num(1)), poly(c, v, a, t, iadd(i, num(1))))))]), label='Ok generator %s' % ('given' if cond is some else 'drawn'))
    c.err(not_(nz(v)))
def comms(c, vf, x):
    cs = c.f(vf, 'commitments')
    return c.sum(0, c.len(cs), lambda k: rmul(R(c, c.at(cs, k), 'value'), rpow(x, k)))
@con('Scheme::verify_share', 'S02', n='feldman')
def _(c, s, sh, vf):
    wf(c, s); d, y = dec(c, 'S', c.f(sh, 'value')); x = i2f(c.f(sh, 'identifier'))
    fit = le(c.f(s, 'threshold'), c.len(c.f(vf, 'commitments')))
    good = and_(fit, d, nz(y), feq0(rsub(rmul(R(c, vf, 'g'), y), comms(c, vf, x))))
    c.ok(good, UNITV); c.err(not_(good))
@con('Scheme::split_secret', 'S02', n='pedersen')
def _(c, s, rng, x, g, h):
    wf(c, s); t = c.f(s, 'threshold'); n = c.f(s, 'limit'); v = ring(c, x); a = c.witfn('a'); b = c.witfn('b')
    pick = lambda f: lambda ex, st, r: f(ex, st, r.fs[0])
    wg = c.wit('g', nonzero=True, bind=pick(lambda ex, st, r: ring(c, ex.getf(st, ex.getf(st, r, 'verifier'), 'g'))))
    wh = c.wit('h', nonzero=True, bind=pick(lambda ex, st, r: ring(c, ex.getf(st, ex.getf(st, r, 'verifier'), 'h'))))
    bl = c.wit('blinding', nonzero=True, bind=pick(lambda ex, st, r: ring(c, ex.getf(st, r, 'blinding'))))
    sg, gg = opt(c, g); sh_, hh = opt(c, h)
    for cg, G in ((sg, gg), (not_(sg), wg)):
        for ch, H in ((sh_, hh), (not_(sh_), wh)):
            coef = lambda k: radd(rmul(ind(eq(k, ZERO)), radd(rmul(G, v), rmul(H, bl))), rmul(ind(not_(eq(k, ZERO))), radd(rmul(G, a(k)), rmul(H, b(k)))))
            mk = lambda z, f: c.seq((0, n, lambda i: share(c, iadd(i, num(1)), poly(c, z, f, t, iadd(i, num(1))))))
            c.ok(and_(nz(v), cg, ch), c.mk('PedersenVssResult', blinding=bl, blinding_shares=mk(bl, b), secret_shares=mk(v, a), verifier=verifier(c, 'PedersenVerifier', t, coef, g=G, h=H)),
                 label='Ok g %s h %s' % ('given' if cg is sg else 'drawn', 'given' if ch is sh_ else 'drawn'))
    c.err(not_(nz(v)))
@con('Scheme::verify_share', 'S02', n='pedersen')
def _(c, s, sh, bs, vf):
    wf(c, s); d, y = dec(c, 'S', c.f(sh, 'value')); d2, z = dec(c, 'S', c.f(bs, 'value')); x = i2f(c.f(sh, 'identifier'))
    fit = le(c.f(s, 'threshold'), c.len(c.f(vf, 'commitments')))
    good = and_(fit, eq(c.f(sh, 'identifier'), c.f(bs, 'identifier')), d, nz(y), d2, nz(z), feq0(rsub(radd(rmul(R(c, vf, 'g'), y), rmul(R(c, vf, 'h'), z)), comms(c, vf, x))))
    c.ok(good, UNITV); c.err(not_(good))
for n in ('feldman', 'pedersen'):
    @con('Scheme::combine_shares', 'S01', n=n)
    def _(c, s, sh): wf(c, s); comb(c, s, sh)

# ---------------------------------------------------------------- lemmas
GEN = {}
def scheme(l, st):
    s = l.sym('Scheme', 's'); c = l.spec(st); wf(c, s); return s
def symscheme(l, kind): return l.sym('ursa_sharing::%s::Scheme' % kind, 's')
def wfst(l, st, s):
    c = l.spec(st); t, n = c.f(s, 'threshold'), c.f(s, 'limit')
    st.assume(le(num(2), t), le(t, n), lt(n, num(2 ** 32))); return t, n
def honest_feldman(l, g):
    st = l.st; s = symscheme(l, 'feldman'); t, n = wfst(l, st, s); x = fsym('x'); st.assume(nz(x)); k = sym('k', 'I'); st.assume(le(ZERO, k), lt(k, n))
    rng = l.sym('Rng', 'rng')
    for s2, r in l.must(st, 'Scheme::split_secret', s, rng, x, g(l), n='feldman', what='split succeeds', tysub={}):
        vf, shs = r.fs; c = l.spec(s2); sh = c.at(shs, k); s2.assume(nz(dec(c, 'S', c.f(sh, 'value'))[1]))
        for s3, _ in l.must(s2, 'Scheme::verify_share', s, sh, vf, n='feldman', what='every share is accepted'): pass
@lem('every Feldman share is accepted by the verifier output with it (given generator)', ('S02',), 100)
def _(l): honest_feldman(l, lambda l: opt_some(l, fsym('g')))
@lem('every Feldman share is accepted by the verifier output with it (drawn generator)', ('S02',), 100)
def _(l): honest_feldman(l, lambda l: Adt('core::option::Option', 0, 'None', []))
def opt_some(l, v): return Adt('core::option::Option', 1, 'Some', [v])
def pedersen(gg, hh):
    @lem('every Pedersen share is accepted by the verifier output with it (g %s, h %s)' % ('given' if gg else 'drawn', 'given' if hh else 'drawn'), ('S02',), 150)
    def _(l):
        st = l.st; s = symscheme(l, 'pedersen'); t, n = wfst(l, st, s); x = fsym('x'); st.assume(nz(x)); k = sym('k', 'I'); st.assume(le(ZERO, k), lt(k, n))
        o = lambda f, nm: opt_some(l, fsym(nm)) if f else Adt('core::option::Option', 0, 'None', [])
        for s2, r in l.must(st, 'Scheme::split_secret', s, l.sym('Rng', 'rng'), x, o(gg, 'g'), o(hh, 'h'), n='pedersen', what='split succeeds'):
            c = l.spec(s2); sh = c.at(c.f(r, 'secret_shares'), k); bs = c.at(c.f(r, 'blinding_shares'), k)
            s2.assume(nz(dec(c, 'S', c.f(sh, 'value'))[1]), nz(dec(c, 'S', c.f(bs, 'value'))[1]))
            l.holds(s2, and_(eq(c.len(c.f(r, 'secret_shares')), n), eq(c.len(c.f(r, 'blinding_shares')), n)), 'n shares')
            for s3, _ in l.must(s2, 'Scheme::verify_share', s, sh, bs, c.f(r, 'verifier'), n='pedersen', what='every share is accepted'): pass
for gg in (True, False):
    for hh in (True, False): pedersen(gg, hh)
@lem('Share encoding round-trips', ('S03',))
def _(l):
    st = l.st; v = l.sym('Share', 'v')
    for s2, b in l.must(st, 'Share::to_bytes', v, what='encode'):
        c = l.spec(s2); l.holds(s2, eq(c.len(b), iadd(num(4), c.len(c.f(v, 'value')))), 'length')
        for s3, w in l.must(s2, 'Share as TryFrom::try_from', b, what='decode'): l.eq(s3, w, v, 'decoded equals original')
for K in ('FeldmanVerifier', 'PedersenVerifier'):
    @lem('%s encoding round-trips' % K, ('S03',), 90)
    def _(l, K=K):
        st = l.st; v = l.sym(K, 'v'); c = l.spec(st); n = c.len(c.f(v, 'commitments')); st.assume(le(ONE, n), lt(n, num(2 ** 32)))
        for s2, b in l.must(st, K + '::to_bytes', v, what='encode'):
            for s3, w in l.must(s2, K + ' as TryFrom::try_from', b, what='decode'): l.eq(s3, w, v, 'decoded equals original')
# decoding never panics, whatever the bytes; it accepts exactly the well-formed lengths
def total(K, what):
    @lem('%s decoding of any byte string returns' % K, ('S03',), 90)
    def _(l):
        st = l.st; b = l.sym('&[u8]', 'b'); c = l.spec(st); n = c.len(b); st.assume(lt(n, num(2 ** 62))); bad = []; t0 = time.time(); some = False
        for s2, o in l.run(st, K + ' as TryFrom::try_from', b):
            if contradiction(s2.pc): continue
            if o[0] == 'panic': bad.append('panics (%s) under %s' % (o[1], short(s2.pc, 3000))); continue
            for s3, v in models.cases(l.ex, s2, o[1]):
                if v.vn == 'Ok': some = True; what(l, s3, n, v.fs[0], b)
                elif K == 'Share': l.holds(s3, lt(n, num(4)), 'rejected only when shorter than 4 bytes')
        l.res.add('%s decoding#no panic' % K, 'failed' if bad else 'proved' if some else 'undecided', '\n'.join(bad), time.time() - t0)
def sh_len(l, st, n, v, b):
    c = l.spec(st); l.holds(st, le(num(4), n), 'accepted only with at least 4 bytes'); l.holds(st, eq(iadd(num(4), c.len(c.f(v, 'value'))), n), 'the value is the rest of the bytes')
def vf_len(g):
    def f(l, st, n, v, b):
        c = l.spec(st); l.holds(st, eq(iadd(num(g * SIZES['R'] + 4), imul(num(SIZES['R']), c.len(c.f(v, 'commitments')))), n), 'accepted only when every byte belongs to a commitment')
    return f
import time
total('Share', sh_len); total('FeldmanVerifier', vf_len(1)); total('PedersenVerifier', vf_len(2))
# any selection of at least t shares: the value combine_shares returns is the sum of Lean's theorem `recombine` (lean/Lagrange.lean)
def selection(l, kind, field):
    st = l.st; s = symscheme(l, kind); t, n = wfst(l, st, s); x = fsym('x'); st.assume(nz(x)); m = sym('m', 'I'); g = R1 if field else fsym('g')
    st.assume(le(t, m), le(m, n)); k, j = fresh_var('I', 'k'), fresh_var('I', 'j'); ix = lambda k: app('sel', (k,), 'I'); inr = lambda k: and_(le(ZERO, k), lt(k, m)); st.assume(nz(g))
    st.assume(forall(k, inr(k), and_(le(ZERO, ix(k)), lt(ix(k), n))), forall(k, inr(k), forall(j, and_(le(ZERO, j), lt(j, k)), not_(eq(ix(j), ix(k))))))
    none = Adt('core::option::Option', 0, 'None', [])
    args = {'shamir': [], 'feldman': [none], 'pedersen': [none, none]}[kind]
    for s2, r in l.must(st, 'Scheme::split_secret', s, l.sym('Rng', 'rng'), x, *args, n=kind, what='split succeeds'):
        c = l.spec(s2); shs = r if kind == 'shamir' else r.fs[1] if kind == 'feldman' else c.f(r, 'secret_shares')
        l.holds(s2, eq(c.len(shs), n), 'n shares')
        q = sym('q', 'I'); s3 = s2.fork().assume(le(ZERO, q), lt(q, n)); c3 = l.spec(s3)
        l.holds(s3, eq(c3.f(c3.at(shs, q), 'identifier'), iadd(q, ONE)), 'the identifiers are 1..n')
        ys = lambda c, k: rmul(g, dec(c, 'S', c.f(c.at(shs, ix(k)), 'value'))[1]); X = lambda k: iadd(ix(k), ONE)
        def mk(i):
            c.st = s2.fork().assume(inr(i), and_(le(ZERO, ix(i)), lt(ix(i), n))); y = ys(c, i); c.st = s2
            return c.mk('Share', identifier=X(i), value=Seq([chunk('R', y)]))
        sel = c.seq((0, m, mk)); i = fresh_var('I', 'i'); c.st = s2.fork().assume(inr(i), and_(le(ZERO, ix(i)), lt(ix(i), n))); yi = ys(c, i); c.st = s2
        s2.assume(forall(i, inr(i), nz(yi)))           # honest shares are non-zero but for a negligible fraction
        def basis(i):
            j = fresh_var('I', 'j'); return rprod(j, and_(inr(j), not_(eq(i, j))), rmul(i2f(X(j)), rinv(rsub(i2f(X(j)), i2f(X(i))))))
        a = next(nm for nm in rnd_names([yi])); 
        pol = lambda k: rmul(g, radd(x, c.sum(1, t, lambda e: rmul(fapp(a, (e,)), rpow(i2f(X(k)), e)))))
        for s4, w in l.must(s2, 'Scheme::combine_shares', s, sel, n=kind, what='at least t distinct shares are combined'):
            c = l.spec(s4); l.eq(s4, w, c.sum(0, m, lambda k: rmul(pol(k), basis(k))), 'the result is the sum of p(x_i) times the Lagrange basis at 0, p of degree below t with p(0) the secret')
def rnd_names(pc):
    out = []; seen = set()
    def go(t):
        if t in seen: return
        seen.add(t)
        if t.op == 'app' and str(t.args[0]).startswith('rnd') and t.args[0] not in out: out.append(t.args[0])
        for x in args_terms(t): go(x)
    for x in pc: go(x)
    return out
for kind in ('shamir', 'feldman', 'pedersen'):
    for field in (True, False):
        lem('any t or more %s shares recombine to the secret as %s' % (kind, 'a field element' if field else 'a group element'), ('S01',), 120)(lambda l, kind=kind, field=field: selection(l, kind, field))
