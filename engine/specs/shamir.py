"""Contracts for libursa::sharing::shamir (U01): sharing of byte strings over a prime field given as a BigNumber."""
from contracts import *
from models_bbs import int_to_ring
from models_shamir import ShamirModels, lt2, bn_from, bnbytes
CRATES = ['ursa']; CRATE = 'ursa'; MODELS = ShamirModels
C = {}; LEM = []; TAGS = {}
EXT = [(('U01',), 'Lagrange interpolation at zero with the coefficients of combine_shares (theorem recombine, Lean and Mathlib)', 'Lagrange.lean')]
U = ('U01',)
def con(ident, n=0, **opts):
    def d(f): C['%s#%s' % (ident, n)] = Contract('ursa', ident, f, n, opts); TAGS['%s#%s' % (ident, n)] = U; return f
    return d
def lem(name, props=U, limit=120):
    def d(f): LEM.append((props, Lemma('ursa', name, f, limit))); return f
    return d
nz = lambda x: not_(feq0(x))
i2f = int_to_ring
U8 = 'std::vec::Vec<u8>'
def poly(c, v, a, t, x): return radd(v, c.sum(1, t, lambda k: rmul(a(k), rpow(i2f(x), k))))
@con('sharing::shamir::split_secret', types={0: U8}, tysub={'B': parse_ty(U8)})
def _(c, w, t, n, field):
    f = ring(c, field); v = bn_from(c.D(w)); a = c.witfn('a')
    good = and_(le(num(2), t), le(t, n), le(ONE, c.len(w)), not_(lt2(f, i2f(num(2)))), lt2(i2f(n), f), lt2(v, f))
    c.ok(good, c.seq((0, n, lambda i: c.mk('Share', identifier=iadd(i, ONE), value=poly(c, v, a, t, iadd(i, ONE))))))
    c.err(not_(good))
def xs(c, sh, k): return c.f(c.at(sh, k), 'identifier')
def ys(c, sh, k): return ring(c, c.f(c.at(sh, k), 'value'))
def lagrange(c, sh):
    n = c.len(sh)
    def basis(i):
        j = fresh_var('I', 'j')
        return rprod(j, and_(le(ZERO, j), lt(j, n), not_(eq(i, j))), rmul(rneg(i2f(xs(c, sh, j))), rinv(rsub(i2f(xs(c, sh, i)), i2f(xs(c, sh, j))))))
    return c.sum(0, n, lambda i: rmul(ys(c, sh, i), basis(i)))
def sh_ok(c, sh, k):
    j = fresh_var('I', 'j')
    return and_(nz(ys(c, sh, k)), not_(eq(xs(c, sh, k), ZERO)), forall(j, and_(le(ZERO, j), lt(j, k)), not_(eq(xs(c, sh, j), xs(c, sh, k)))))
SHV = 'std::vec::Vec<sharing::shamir::Share>'
@con('sharing::shamir::combine_shares', types={0: SHV}, tysub={'B': parse_ty(SHV)})
def _(c, sh, field):
    f = ring(c, field)
    good = and_(le(num(2), c.len(sh)), not_(lt2(f, i2f(num(2)))), c.all(0, c.len(sh), lambda k: sh_ok(c, sh, k)))
    c.ok(good, c.under(good, lambda c: Seq([bnbytes(lagrange(c, sh))]))); c.err(not_(good))
@con('Share::to_bytes', n='sharing')
def _(c, s): c.ret(TRUE, Seq([bnbytes(ring(c, c.f(s, 'value'))), One(c.f(s, 'identifier'))]))
@con('Share::from_bytes', n='sharing', types={0: U8}, tysub={'B': parse_ty(U8)})
def _(c, w, field):
    n = c.len(w); g = le(ONE, n)
    c.ok(g, c.under(g, lambda c: c.mk('Share', identifier=c.ex.seq_get(c.st, c.D(w), isub(n, ONE)), value=bn_from(c.ex.seq_slice(c.st, c.D(w), ZERO, isub(n, ONE)))))); c.err(not_(g))
@lem('an encoded share decodes to the share')
def _(l):
    st = l.st; s = l.sym('sharing::shamir::Share', 's'); f = l.F('field'); c = l.spec(st)
    for s2, w in l.must(st, 'Share::to_bytes', s, what='encode', n='sharing'):
        for s3, y in l.must(s2, 'Share::from_bytes', w, f, what='decode', n='sharing', tysub={'B': parse_ty(U8)}): l.eq(s3, y, s, 'decoded equals original')
@lem('any t or more shares of a secret recombine to the Lagrange sum at zero of its polynomial')
def _(l):
    st = l.st; field = l.F('field'); w = l.sym(U8, 'secret'); t, n, m = sym('t', 'I'), sym('n', 'I'), sym('m', 'I'); c = l.spec(st); x = bn_from(c.D(w))
    st.assume(le(num(2), t), le(t, n), le(n, num(255)), le(ONE, c.len(w)), not_(lt2(field, i2f(num(2)))), lt2(i2f(n), field), lt2(x, field), le(t, m), le(m, n))
    k, j = fresh_var('I', 'k'), fresh_var('I', 'j'); ix = lambda k: app('sel', (k,), 'I'); inr = lambda k: and_(le(ZERO, k), lt(k, m))
    st.assume(forall(k, inr(k), and_(le(ZERO, ix(k)), lt(ix(k), n))), forall(k, inr(k), forall(j, and_(le(ZERO, j), lt(j, k)), not_(eq(ix(j), ix(k))))))
    for s2, shs in l.must(st, 'sharing::shamir::split_secret', w, t, n, field, what='split succeeds', tysub={'B': parse_ty(U8)}):
        c = l.spec(s2); l.holds(s2, eq(c.len(shs), n), 'n shares')
        q = sym('q', 'I'); s3 = s2.fork().assume(le(ZERO, q), lt(q, n)); c3 = l.spec(s3)
        l.holds(s3, eq(c3.f(c3.at(shs, q), 'identifier'), iadd(q, ONE)), 'the identifiers are 1..n')
        X = lambda k: iadd(ix(k), ONE)
        def y(i):
            st0 = c.st; c.st = s2.fork().assume(inr(i), le(ZERO, ix(i)), lt(ix(i), n))
            try: return ring(c, c.f(c.at(shs, ix(i)), 'value'))
            finally: c.st = st0
        sel = c.seq((0, m, lambda i: c.mk('Share', identifier=X(i), value=y(i))))
        i = fresh_var('I', 'i'); yi = y(i); s2.assume(forall(i, inr(i), nz(yi)))      # honest shares are non-zero but for a negligible fraction
        def basis(i):
            j = fresh_var('I', 'j'); return rprod(j, and_(inr(j), not_(eq(i, j))), rmul(i2f(X(j)), rinv(rsub(i2f(X(j)), i2f(X(i))))))
        a = rnd_names([yi])[0]
        pol = lambda k: radd(x, c.sum(1, t, lambda e: rmul(fapp(a, (e,)), rpow(i2f(X(k)), e))))
        for s4, r in l.must(s2, 'sharing::shamir::combine_shares', sel, field, what='at least t distinct shares are combined', tysub={'B': parse_ty(SHV)}):
            c = l.spec(s4); l.eq(s4, r, Seq([bnbytes(c.sum(0, m, lambda k: rmul(pol(k), basis(k))))]), 'the bytes of the sum of p(x_i) times the Lagrange basis at 0, p of degree below t with p(0) the secret')
from specs.sharing import rnd_names
