"""Models of the traits ursa_sharing is generic over (trusted base): Field and Group<Field>.
S is any field; R is any group S acts on; R's elements are represented by their discrete logarithms in S, so both are
elements of one field F.  Encodings are uninterpreted byte strings of a fixed length per type, decoding inverts them."""
from models import *
import models, execu
from models_bbs import F, int_to_ring
SM = {}
def sm(*keys):
    def d(f):
        for k in keys: SM[k] = f
        return f
    return d
def tyof(ex, fr, c):
    return tyname(strip_refs(ex.subty(fr, c.self_ty)))
SIZES = {'S': 32, 'R': 48}
def size(t): return num(SIZES[t])
def set2(f):
    def g(ex, fr, st, c, a): setref(ex, st, a[0], f(F(ex, st, a[0]), F(ex, st, a[1]))); return UNITV
    return g
SM['Group::zero'] = lambda ex, fr, st, c, a: R0
SM['Field::one'] = lambda ex, fr, st, c, a: R1
SM['Group::random'] = lambda ex, fr, st, c, a: ex.fresh('rnd.nz', 'F')
SM['Group::is_zero'] = lambda ex, fr, st, c, a: feq0(F(ex, st, a[0]))
SM['Group::is_valid'] = lambda ex, fr, st, c, a: not_(feq0(F(ex, st, a[0])))
SM['Group::add_assign'] = set2(radd); SM['Group::sub_assign'] = set2(rsub); SM['Group::scalar_mul_assign'] = set2(rmul)
SM['Field::scalar_div_assign'] = set2(lambda x, y: rmul(x, rinv(y)))
def _neg(ex, fr, st, c, a): setref(ex, st, a[0], rneg(F(ex, st, a[0]))); return UNITV
SM['Group::negate'] = _neg
SM['Field::from_usize'] = lambda ex, fr, st, c, a: int_to_ring(D(ex, st, a[0]))
def chunk(ty, x):
    k = fresh_var('I', 'k')
    return Comp(k, and_(le(ZERO, k), lt(k, size(ty))), [One(app('enc.%s:u8' % ty, (x, k), 'I'))])
SM['Group::to_bytes'] = lambda ex, fr, st, c, a: Seq([chunk(tyof(ex, fr, c), F(ex, st, a[0]))])
def _fb(ex, fr, st, c, a):
    ty = tyof(ex, fr, c)
    return [(s, dec_chunk(ex, s, 'enc.%s:u8' % ty, size(ty), w, 'F')) for s, w in cases(ex, st, D(ex, st, a[0]))]
SM['Group::from_bytes'] = _fb
SM['Unsigned::to_usize'] = lambda ex, fr, st, c, a: size('R')
class SharingModels(Models):
    RING = {'S', 'R'}
    externals = Models.externals | {'generic_array', 'rand', 'zeroize'}
    def __init__(s):
        super().__init__(); s.tables = [STD, SM]
