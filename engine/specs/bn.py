"""Contracts for libursa::bn::BigNumber (U04): every wrapper computes the integer operation it is named for."""
from contracts import *
from models_cl import concat_all
from models_bn import *
from models_bn import BNModels, neg, bnabs, mod, quo, pexp, pinv, unit, setbit, lt_
CRATES = ['ursa']; CRATE = 'ursa'; MODELS = BNModels
C = {}; LEM = []; TAGS = {}
U = ('U04',)
def con(ident, n=0, **opts):
    def d(f): C['%s#%s' % (ident, n)] = Contract('ursa', ident, f, n, dict(check_only=True, **opts)); TAGS['%s#%s' % (ident, n)] = U; return f
    return d
def V(c, x): return ring(c, c.f(x, 'openssl_bn'))
def B(c, x): return c.mk('BigNumber', openssl_bn=x)
def un(name, f):
    @con('BigNumber::' + name)
    def _(c, x, *a): c.ok(TRUE, B(c, f(V(c, x))))
def bi(name, f, good=None):
    @con('BigNumber::' + name)
    def _(c, x, y, *a):
        x, y = V(c, x), V(c, y); g = TRUE if good is None else good(x, y); c.ok(g, B(c, f(x, y)))
        if good is not None: c.err(not_(g))
def tri(name, f, good=None):
    @con('BigNumber::' + name)
    def _(c, x, y, n, *a):
        x, y, n = V(c, x), V(c, y), V(c, n); g = TRUE if good is None else good(x, y, n); c.ok(g, B(c, f(x, y, n)))
        if good is not None: c.err(not_(g))
def wd(name, f, good=None):
    @con('BigNumber::' + name)
    def _(c, x, w):
        v, w = V(c, x), c.D(w); g = TRUE if good is None else good(w); c.ok(g, ANY, writes={0: B(c, f(v, w))})
        if good is not None: c.err(not_(g))
un('increment', lambda x: radd(x, rnum(1))); un('decrement', lambda x: radd(x, rnum(-1))); un('lshift1', lambda x: rmul(rnum(2), x)); un('rshift1', lambda x: fapp('bn.shr', (x, num(1))))
un('sqr', lambda x: rmul(x, x)); un('try_clone', lambda x: x)
bi('add', radd); bi('sub', rsub); bi('mul', rmul); bi('div', quo, lambda x, y: not_(feq0(y))); bi('gcd', lambda x, y: fapp('bn.gcd', (x, y)))
bi('modulus', mod); bi('exp', lambda x, e: fapp('bn.pow', (x, e))); bi('inverse', pinv, unit)
tri('mod_mul', lambda x, y, n: mod(rmul(x, y), n)); tri('mod_sub', lambda x, y, n: mod(rsub(x, y), n))
tri('mod_div', lambda x, y, n: mod(rmul(x, pinv(y, n)), n), lambda x, y, n: unit(y, n))
wd('add_word', lambda x, w: radd(x, int_to_ring(w))); wd('sub_word', lambda x, w: rsub(x, int_to_ring(w))); wd('mul_word', lambda x, w: rmul(x, int_to_ring(w)))
wd('div_word', lambda x, w: quo(x, int_to_ring(w)), lambda w: not_(eq(w, ZERO))); wd('set_bit', setbit)
@con('BigNumber::mod_exp')
def _(c, x, e, n, *a):
    x, e, n = V(c, x), V(c, e), V(c, n); ng = neg(e)
    c.ok(not_(ng), B(c, pexp(x, e, n)), label='non-negative exponent'); c.ok(and_(ng, unit(x, n)), B(c, pexp(pinv(x, n), rneg(e), n)), label='negative exponent'); c.err(and_(ng, not_(unit(x, n))))
@con('BigNumber::rshift')
def _(c, x, k): c.req(le(c.D(k), num(2 ** 31 - 1))); c.ok(TRUE, B(c, fapp('bn.shr', (V(c, x), c.D(k)))))
@con('BigNumber::set_negative')
def _(c, x, b): x = V(c, x); c.ok(TRUE, B(c, ite(c.D(b), rneg(bnabs(x)), bnabs(x))))
@con('BigNumber::is_negative')
def _(c, x): c.ret(TRUE, neg(V(c, x)))
@con('BigNumber::num_bits')
def _(c, x): c.ok(TRUE, app('bn.bits', (V(c, x),), 'I'))
@con('BigNumber::is_bit_set')
def _(c, x, i): c.ok(TRUE, app('bn.bit', (V(c, x), c.D(i)), 'B'))
def prime(x): return app('bn.prime', (x,), 'B')
@con('BigNumber::is_prime')
def _(c, x, *a): c.ok(TRUE, prime(V(c, x)))
@con('BigNumber::is_safe_prime')
def _(c, x, *a):
    x = V(c, x); c.ok(TRUE, and_(or_(feq0(rsub(mod(x, rnum(3)), rnum(2))), feq0(rsub(x, rnum(7)))), prime(x), prime(fapp('bn.shr', (x, num(1))))))
@con('BigNumber::new')
def _(c): c.ok(TRUE, B(c, R0))
@con('BigNumber::from_u32')
def _(c, n): c.req(and_(le(ZERO, c.D(n)), le(c.D(n), num(2 ** 32 - 1)))); c.ok(TRUE, B(c, int_to_ring(c.D(n))))
@con('BigNumber::to_bytes')
def _(c, x): x = V(c, x); c.ok(TRUE, Seq([bnbytes(absatom(x))]))
@con('BigNumber::from_bytes')
def _(c, w): c.ok(TRUE, B(c, bn_from(c.D(w))))
for k in ('dec', 'hex'):
    def _go(k):
        @con('BigNumber::to_' + k)
        def _(c, x): c.ok(TRUE, app('bn.' + k, (V(c, x),), 'S'))
        @con('BigNumber::from_' + k)
        def _(c, t): t = c.D(t); g = app('bn.is' + k, (t,), 'B'); c.ok(g, B(c, fapp('bn.of' + k, (t,)))); c.err(not_(g))
    _go(k)
@con('BigNumber as PartialEq::eq')
def _(c, x, y): c.ret(TRUE, feq0(rsub(V(c, x), V(c, y))))
def _ord(name, f):
    @con('BigNumber as ' + name)
    def _(c, x, y):
        d = rsub(V(c, x), V(c, y)); o = lambda i, n: f(Adt('std::cmp::Ordering', i, n, [])); e = feq0(d); l = app('bn.neg', (d,), 'B')
        c.ret(e, o(1, 'Equal')); c.ret(and_(not_(e), l), o(0, 'Less')); c.ret(and_(not_(e), not_(l)), o(2, 'Greater'))
_ord('Ord::cmp', lambda v: v); _ord('PartialOrd::partial_cmp', lambda v: some(v))
@con('BigNumber::hash')
def _(c, w): c.ok(TRUE, sha(c.D(w)))
@con('BigNumber::hash_array')
def _(c, w): c.ok(TRUE, sha(concat_all(c.ex, c.st, c.D(w))))
@con('BigNumber::rand_range')
def _(c, n): v = c.wit('v', bind=lambda ex, st, v: ex.getf(st, v.fs[0], 'openssl_bn')); c.fact(app('bn.below', (v, V(c, n)), 'B')); c.ok(TRUE, B(c, v))
def lem(name, props=U, limit=60):
    def d(f): LEM.append((props, Lemma('ursa', name, f, limit))); return f
    return d
def rt(l, to, frm, what, nonneg):
    st = l.st; x = l.sym('BigNumber', 'x'); c = l.spec(st)
    if nonneg: st.assume(not_(app('bn.neg', (V(c, x),), 'B')))
    for s2, t in l.must(st, 'BigNumber::' + to, x, what='%s gives a text' % to):
        for s3, y in l.must(s2, 'BigNumber::' + frm, t, what='%s reads it' % frm):
            c3 = l.spec(s3); a, b = V(c3, y), V(c3, x)
            if to == 'to_bytes': b = bnabs(b); a = subst_abs(a)
            l.eq(s3, a, b, what)
def subst_abs(a):
    y = absof(a); return a if y is None else bnabs(a)
@lem('decimal text of a number reads back as the number')
def _(l): rt(l, 'to_dec', 'from_dec', 'the same number', False)
@lem('deserializing gives the number serialized')
def _(l):
    st = l.st; x = l.sym('BigNumber', 'x')
    for s2, w in l.must(st, 'BigNumber as Serialize::serialize', x, Obj('serializer'), what='serialize'):
        for s3, y in l.must(s2, 'BigNumber as Deserialize::deserialize', Obj('deserializer', w=w), what='deserialize'): c3 = l.spec(s3); l.eq(s3, V(c3, y), V(c3, x), 'the same number')
@lem('hexadecimal text of a number reads back as the number')
def _(l): rt(l, 'to_hex', 'from_hex', 'the same number', False)
@lem('bytes of a non-negative number read back as the number')
def _(l): rt(l, 'to_bytes', 'from_bytes', 'the same number', True)
