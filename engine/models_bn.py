"""Models of the OpenSSL bindings used by libursa::bn (trusted base): big numbers are exact integers in the ring F."""
from models import *
import models, execu
from models_bbs import F, int_to_ring
from models_cl import bnbytes, bn_from, sha
BN = {}
def absof(x):
    """y when x is the atom |y|"""
    ms = mons(x)
    if len(ms) == 1 and list(ms.values()) == [1]:
        m = list(ms)[0]
        if len(m) == 1:
            t = m[0][0] if isinstance(m[0], tuple) else m[0]
            if isinstance(t, T) and t.op == 'app' and t.args[0] == 'bn.abs': return t.args[1]
    return None
def neg(x): return FALSE if absof(x) is not None else app('bn.neg', (x,), 'B')
def absatom(x): return x if absof(x) is not None else fapp('bn.abs', (x,))
def bnabs(x):
    y = absof(x)
    return ite(app('bn.neg', (x if y is None else y,), 'B'), rneg(x if y is None else y), x if y is None else y)
def mod(x, n): return fapp('bn.mod', (x, n))
def quo(x, y): return fapp('bn.quo', (x, y))
def pexp(x, e, n): return fapp('bn.powmod', (mod(x, n), e, n))
def pinv(x, n): return fapp('bn.invmod', (x, n))
def unit(x, n): return app('bn.unit', (x, n), 'B')
def I(ex, st, v): return int_to_ring(D(ex, st, v))
def fallible(ex, st, good, f):
    """the model's own failure condition: an error exactly when good does not hold"""
    return [(s2, ok(f(s2)) if z else err(ERRV)) for s2, z in ex.branch(st, good)]
def set0(f, good=None):
    """BigNumRef::op(&mut self, operands...): self becomes f(operands)"""
    def g(ex, fr, st, c, a):
        xs = [F(ex, st, v) if not isctx(ex, st, v) else None for v in a[1:]]; xs = [x for x in xs if x is not None]
        def go(s2): setref(ex, s2, a[0], f(*xs)); return UNITV
        if good is None: return ok(go(st))
        return fallible(ex, st, good(*xs), go)
    return g
def isctx(ex, st, v): return isinstance(D(ex, st, v), Obj)
R_ = 'BigNumRef::'
for nm, f in (('add', radd), ('sub', lambda x, y: radd(x, rneg(y))), ('sqr', lambda x: rmul(x, x)), ('mul', rmul), ('checked_add', radd), ('checked_sub', rsub), ('checked_mul', rmul)): BN[R_ + nm] = set0(f)
BN[R_ + 'mod_mul'] = set0(lambda x, y, n: mod(rmul(x, y), n)); BN[R_ + 'mod_sub'] = set0(lambda x, y, n: mod(rsub(x, y), n)); BN[R_ + 'mod_add'] = set0(lambda x, y, n: mod(radd(x, y), n)); BN[R_ + 'mod_sqr'] = set0(lambda x, n: mod(rmul(x, x), n))
BN[R_ + 'nnmod'] = set0(mod)
BN[R_ + 'mod_exp'] = set0(pexp)
BN[R_ + 'checked_div'] = set0(quo, lambda x, y: not_(feq0(y))); BN[R_ + 'gcd'] = set0(lambda x, y: fapp('bn.gcd', (x, y)))
BN[R_ + 'exp'] = set0(lambda x, e: fapp('bn.pow', (x, e)))
BN[R_ + 'mod_inverse'] = set0(pinv, unit)
BN[R_ + 'lshift1'] = set0(lambda x: rmul(rnum(2), x)); BN[R_ + 'rshift1'] = set0(lambda x: fapp('bn.shr', (x, num(1))))
def word(f):
    def g(ex, fr, st, c, a): x = F(ex, st, a[0]); setref(ex, st, a[0], f(x, D(ex, st, a[1]))); return ok(UNITV)
    return g
BN[R_ + 'add_word'] = word(lambda x, w: radd(x, int_to_ring(w))); BN[R_ + 'sub_word'] = word(lambda x, w: rsub(x, int_to_ring(w))); BN[R_ + 'mul_word'] = word(lambda x, w: rmul(x, int_to_ring(w)))
def _divw(ex, fr, st, c, a):
    x, w = F(ex, st, a[0]), D(ex, st, a[1])
    def go(s2): setref(ex, s2, a[0], quo(x, int_to_ring(w))); return fresh_var('I', 'rem')
    return fallible(ex, st, not_(eq(w, ZERO)), go)
BN[R_ + 'div_word'] = _divw
def setbit(x, i): return fapp('bn.setbit', (x, i))
BN[R_ + 'set_bit'] = word(setbit)
BN[R_ + 'rshift'] = lambda ex, fr, st, c, a: (setref(ex, st, a[0], fapp('bn.shr', (F(ex, st, a[1]), D(ex, st, a[2])))), ok(UNITV))[1]
BN[R_ + 'lshift'] = lambda ex, fr, st, c, a: (setref(ex, st, a[0], fapp('bn.shl', (F(ex, st, a[1]), D(ex, st, a[2])))), ok(UNITV))[1]
def _setneg(ex, fr, st, c, a):
    setref(ex, st, a[0], _neg_to(F(ex, st, a[0]), D(ex, st, a[1]))); return UNITV
BN[R_ + 'set_negative'] = _setneg

BN[R_ + 'is_negative'] = lambda ex, fr, st, c, a: neg(F(ex, st, a[0]))
BN[R_ + 'num_bits'] = lambda ex, fr, st, c, a: app('bn.bits', (F(ex, st, a[0]),), 'I')
BN[R_ + 'is_bit_set'] = lambda ex, fr, st, c, a: app('bn.bit', (F(ex, st, a[0]), D(ex, st, a[1])), 'B')
def _neg_to(x, b): return ite(b, rneg(bnabs(x)), bnabs(x))
BN[R_ + 'to_vec'] = lambda ex, fr, st, c, a: Seq([bnbytes(absatom(F(ex, st, a[0])))])
BN['BigNum::from_slice'] = lambda ex, fr, st, c, a: [(s2, ok(bn_from(w))) for s2, w in cases(ex, st, D(ex, st, a[0]))]
BN['BigNum::from_u32'] = lambda ex, fr, st, c, a: ok(int_to_ring(D(ex, st, a[0])))
BN['BigNum::new'] = lambda ex, fr, st, c, a: ok(R0)
BN['BigNumContext::new'] = lambda ex, fr, st, c, a: ok(Obj('bnctx'))
BN[R_ + 'to_owned'] = lambda ex, fr, st, c, a: ok(F(ex, st, a[0]))
def text(kind):
    def to(ex, fr, st, c, a): return ok(app('bn.%s' % kind, (F(ex, st, a[0]),), 'S'))
    def fr_(ex, fr, st, c, a):
        s = D(ex, st, a[0]); t = s
        if isinstance(t, T) and t.op == 'app' and t.args[0] == 'bn.%s' % kind: return ok(t.args[1])
        good = app('bn.is%s' % kind, (s,), 'B')
        return fallible(ex, st, good, lambda s2: fapp('bn.of%s' % kind, (s,)))
    return to, fr_
BN[R_ + 'to_dec_str'], BN['BigNum::from_dec_str'] = text('dec'); BN[R_ + 'to_hex_str'], BN['BigNum::from_hex_str'] = text('hex')
BN['OpensslString::Deref::deref'] = BN['OpensslString::deref'] = BN['OpensslString::to_string'] = lambda ex, fr, st, c, a: D(ex, st, a[0])
BN['BigNum::Deref::deref'] = BN['BigNum::DerefMut::deref_mut'] = BN['BigNum::deref'] = BN['BigNum::deref_mut'] = lambda ex, fr, st, c, a: a[0]
BN[R_ + 'is_prime'] = lambda ex, fr, st, c, a: ok(app('bn.prime', (F(ex, st, a[0]),), 'B'))
BN['IntTraits::log2'] = lambda ex, fr, st, c, a: fresh_var('I', 'log2')
def lt_(x, y): return app('bn.neg', (rsub(x, y),), 'B')
BN['BigNum::PartialEq::eq'] = BN['BigNumRef::PartialEq::eq'] = lambda ex, fr, st, c, a: feq0(rsub(F(ex, st, a[0]), F(ex, st, a[1])))
BN['BigNum::Ord::cmp'] = BN['BigNumRef::Ord::cmp'] = BN['BigNum::cmp'] = BN['BigNumRef::cmp'] = lambda ex, fr, st, c, a: _cmp(ex, st, F(ex, st, a[0]), F(ex, st, a[1]))
def _cmp(ex, st, x, y):
    out = []
    for s2, z in ex.branch(st, feq0(rsub(x, y))):
        if z: out.append((s2, Adt('std::cmp::Ordering', 1, 'Equal', []))); continue
        for s3, l in ex.branch(s2, lt_(x, y)): out.append((s3, Adt('std::cmp::Ordering', 0, 'Less', []) if l else Adt('std::cmp::Ordering', 2, 'Greater', [])))
    return out
def _rr(ex, fr, st, c, a):
    v = ex.fresh('rnd.nz.below', 'F'); setref(ex, st, a[1], v); st.assume(app('bn.below', (v, F(ex, st, a[0])), 'B')); return ok(UNITV)
BN[R_ + 'rand_range'] = _rr
BN['MessageDigest::sha256'] = lambda ex, fr, st, c, a: Obj('md', name='sha256')
BN['Hasher::new'] = lambda ex, fr, st, c, a: ok(Obj('hasher', data=Seq([])))
def _upd(ex, fr, st, c, a):
    out = []
    for s2, w in cases(ex, st, D(ex, st, a[1])):
        h = D(ex, s2, a[0]); setref(ex, s2, a[0], Obj('hasher', data=Seq(h.data.segs + w.segs))); out.append((s2, ok(UNITV)))
    return out
BN['Hasher::update'] = _upd
BN['Hasher::finish'] = lambda ex, fr, st, c, a: ok(sha(D(ex, st, a[0]).data))
BN['hash::hash'] = BN['openssl::hash::hash'] = lambda ex, fr, st, c, a: [(s2, ok(sha(w))) for s2, w in cases(ex, st, D(ex, st, a[1]))]
for k in ('Level::PartialOrd::le', 'Level::le', 'Level::PartialOrd::lt', 'LevelFilter::le'): BN[k] = lambda ex, fr, st, c, a: FALSE
class BNModels(Models):
    RING = {'BigNum', 'BigNumRef'}
    externals = Models.externals | {'openssl', 'log', 'rand', 'int_traits'}
    def __init__(s): super().__init__(); s.tables = [STD, BN]
