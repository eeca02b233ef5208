"""Contracts for libursa::pair (U03): the wrapper types are the scalar field, the two groups and the target group of AMCL's BN254."""
from contracts import *
from models_pair import PairModels, chunk
from execu import first_fail
from models_pair import int_to_ring, raw
CRATES = ['ursa']; CRATE = 'ursa'; MODELS = PairModels
C = {}; LEM = []; TAGS = {}
U = ('U03',)
def con(ident, n='pair', **opts):
    def d(f): C['%s#%s' % (ident, n)] = Contract('ursa', ident, f, n, opts); TAGS['%s#%s' % (ident, n)] = U; return f
    return d
def lem(name, props=U, limit=60):
    def d(f): LEM.append((props, Lemma('ursa', name, f, limit))); return f
    return d
TY = {'PointG1': ('point', 'ECP', 128), 'PointG2': ('point', 'ECP2', 128), 'GroupOrderElement': ('bn', 'BIG', 32), 'Pair': ('pair', 'FP12', 512)}
def V(c, x, t): return ring(c, c.f(x, TY[t][0]))
def mk(c, t, v): return c.mk('pair::' + t, **{TY[t][0]: v})
nz = lambda x: not_(feq0(x))
def binary(t, name, op, t2=None, res=None):
    @con('%s::%s' % (t, name))
    def _(c, x, y): c.ok(TRUE, mk(c, res or t, op(V(c, x, t), V(c, y, t2 or t))))
def unary(t, name, op):
    @con('%s::%s' % (t, name))
    def _(c, x): c.ok(TRUE, mk(c, t, op(V(c, x, t))))
for t in ('PointG1', 'PointG2'):
    binary(t, 'add', radd); binary(t, 'sub', rsub); unary(t, 'neg', rneg); binary(t, 'mul', rmul, 'GroupOrderElement')
    def _z(t):
        @con(t + '::new_inf')
        def _(c): c.ok(TRUE, mk(c, t, R0))
        @con(t + '::new', check_only=True)
        def _(c): r = c.wit('r'); c.ok(TRUE, mk(c, t, r))
    _z(t)
@con('PointG1::is_inf')
def _(c, x): c.ok(TRUE, feq0(V(c, x, 'PointG1')))
G = 'GroupOrderElement'
binary(G, 'add_mod', radd); binary(G, 'sub_mod', rsub); binary(G, 'mul_mod', rmul); unary(G, 'mod_neg', rneg)
binary(G, 'pow_mod', lambda x, e: fapp('goe.pow', (x, e)))
@con(G + '::inverse')
def _(c, x): v = V(c, x, G); c.req(nz(v)); c.ok(TRUE, mk(c, G, rinv(v)))
@con(G + '::new_from_seed')
def _(c, s):
    g = eq(c.len(s), num(32)); c.ok(g, mk(c, G, fapp('goe.seed', (valterm(c.D(s)),)))); c.err(not_(g))
binary('Pair', 'mul', radd); binary('Pair', 'pow', rmul, G); unary('Pair', 'inverse', rneg)
@con('Pair::is_unity')
def _(c, x): c.ok(TRUE, feq0(V(c, x, 'Pair')))
@con('Pair::pair')
def _(c, p, q): c.ok(TRUE, mk(c, 'Pair', rmul(V(c, p, 'PointG1'), V(c, q, 'PointG2'))))
@con('Pair::pair2')
def _(c, p, q, r, s): c.ok(TRUE, mk(c, 'Pair', radd(rmul(V(c, p, 'PointG1'), V(c, q, 'PointG2')), rmul(V(c, r, 'PointG1'), V(c, s, 'PointG2')))))
for t in TY:
    def _eq(t):
        @con('%s as PartialEq::eq' % t)
        def _(c, x, y): c.ret(TRUE, feq0(rsub(V(c, x, t), V(c, y, t))))
    _eq(t)
def rt(t, to, frm):
    @lem('%s: %s gives the value %s encoded' % (t, frm, to))
    def _(l):
        st = l.st; c = l.spec(st); x = l.sym('pair::' + t, 'x')
        for s2, w in l.must(st, '%s::%s' % (t, to), x, what=to, n='pair'):
            for s3, y in l.must(s2, '%s::%s' % (t, frm), w, what=frm, n='pair'): l.eq(s3, y, x, 'decoded equals original')
def serde(t):
    @lem('%s: deserializing gives the value serialized' % t)
    def _(l):
        st = l.st; x = l.sym('pair::' + t, 'x')
        for s2, w in l.must(st, t + ' as Serialize::serialize', x, Obj('serializer'), what='serialize', n='pair'):
            for s3, y in l.must(s2, t + ' as Deserialize::deserialize', Obj('deserializer', w=w), what='deserialize', n='pair'): l.eq(s3, y, x, 'decoded equals original')
for t in TY:
    serde(t)
    rt(t, 'to_string', 'from_string')
    if t != 'Pair': rt(t, 'to_bytes', 'from_bytes')
    if t in ('PointG1', 'PointG2'):
        def _len(t):
            @con(t + '::from_bytes', check_only=True)
            def _(c, b): g = eq(c.len(b), num(TY[t][2])); c.free(g); c.err(not_(g))
        _len(t)
def padded(c, b): return c.seq((0, isub(num(32), c.len(b)), lambda k: ZERO), c.D(b))
@con(G + '::from_bytes', check_only=True)
def _(c, b):
    # the bytes, read as one big-endian number whatever their length
    g = le(c.len(b), num(32)); c.ok(g, mk(c, G, raw(fapp('dec.BIG', (valterm(padded(c, b)),))))); c.err(not_(g))
@con('PointG1::from_hash', check_only=True)
def _(c, b):
    # the point of the first x coordinate at or above the hash that has one, so never the identity
    for g, w in ((eq(c.len(b), num(32)), c.D(b)), (lt(c.len(b), num(32)), padded(c, b))):
        h = fapp('dec.BIG', (valterm(w),)); at = lambda i: fapp('curve.point', (radd(h, int_to_ring(i)),))
        k = fresh_var('I', 'k'); c.ok(g, mk(c, 'PointG1', at(first_fail(k, feq0(at(k))))))
    c.err(lt(num(32), c.len(b)))
@lem('PointG1: a hash is never taken to the identity')
def _(l):
    c = l.spec(l.st); h = l.sym('&[u8]', 'h'); l.st.assume(le(c.len(h), num(32)))
    for s2, p in l.must(l.st, 'PointG1::from_hash', h, what='from_hash', n='pair'):
        for s3, z in l.must(s2, 'PointG1::is_inf', p, what='is_inf', n='pair'): l.holds(s3, not_(z), 'the point is not the identity')
@lem('the pairing is bilinear and multiplicative')
def _(l):
    st = l.st; c = l.spec(st)
    p, q = l.sym('pair::PointG1', 'p'), l.sym('pair::PointG2', 'q'); p2 = l.sym('pair::PointG1', 'p2'); a, b = l.sym('pair::' + G, 'a'), l.sym('pair::' + G, 'b')
    M = lambda st, i, *x: l.must(st, i, *x, what=i, n='pair')
    for s1, pa in M(st, 'PointG1::mul', p, a):
        for s2, qb in M(s1, 'PointG2::mul', q, b):
            for s3, e1 in M(s2, 'Pair::pair', pa, qb):
                for s4, e0 in M(s3, 'Pair::pair', p, q):
                    for s5, ab in M(s4, G + '::mul_mod', a, b):
                        for s6, e2 in M(s5, 'Pair::pow', e0, ab): l.eq(s6, e1, e2, 'e(aP, bQ) = e(P, Q)^(ab)')
    for s1, ps in M(st, 'PointG1::add', p, p2):
        for s2, e1 in M(s1, 'Pair::pair', ps, q):
            for s3, x in M(s2, 'Pair::pair', p, q):
                for s4, y in M(s3, 'Pair::pair', p2, q):
                    for s5, e2 in M(s4, 'Pair::mul', x, y): l.eq(s5, e1, e2, 'e(P + P2, Q) = e(P, Q) e(P2, Q)')
                for s4, y in M(s3, 'Pair::pair2', p, q, p2, q): l.eq(s4, e1, y, 'pair2 is the product of the pairings')
    for s1, x in M(st, 'Pair::pair', p, q):
        for s2, i in M(s1, 'Pair::inverse', x):
            for s3, y in M(s2, 'Pair::mul', x, i):
                for s4, u in M(s3, 'Pair::is_unity', y): l.holds(s4, u, 'x x^-1 is one')
