"""Models for libursa::sharing::shamir: BigNumber (contracts U04) over one prime modulus.
A plain ring value is a number known by its residue modulo that prime (results of the modular operations are the canonical
residue); Obj('bnraw') is an integer whose residue is known but which may exceed the modulus: it must be reduced before it
is compared, encoded or put in a share."""
from models_cl import *
from models_cl import CL, OV, CLModels, bn_from, bnbytes
SH = {}
def val(ex, st, x):
    x = D(ex, st, x)
    return x.f if isinstance(x, Obj) and x.kind == 'bnraw' else F(ex, st, x)
def canon(ex, st, x):
    x = D(ex, st, x)
    return ex.fresh('bad', 'F') if isinstance(x, Obj) and x.kind == 'bnraw' else F(ex, st, x)
def prime(ex, st, n):
    """every modular operation must use the one modulus in scope"""
    n = F(ex, st, n); m = ex.models.modulus_atom
    if m is None: ex.models.modulus_atom = n
    elif m is not n: raise Unsupported('a second modulus')
def rawop(f): return lambda ex, fr, st, c, a: ok(Obj('bnraw', f=f(val(ex, st, a[0]), val(ex, st, a[1]))))
def modop(f):
    def g(ex, fr, st, c, a): prime(ex, st, a[2]); return ok(f(val(ex, st, a[0]), val(ex, st, a[1])))
    return g
B = 'BigNumber::'
SH[B + 'add'] = rawop(radd); SH[B + 'sub'] = rawop(rsub); SH[B + 'mul'] = rawop(rmul)
SH[B + 'mod_sub'] = modop(rsub); SH[B + 'mod_mul'] = modop(rmul); SH[B + 'mod_div'] = modop(lambda x, y: rmul(x, rinv(y)))
def _mod(ex, fr, st, c, a): prime(ex, st, a[1]); return ok(val(ex, st, a[0]))
SH[B + 'modulus'] = _mod
def _inv(ex, fr, st, c, a): prime(ex, st, a[1]); return ok(rinv(val(ex, st, a[0])))
SH[B + 'inverse'] = _inv
SH[B + 'rand_range'] = lambda ex, fr, st, c, a: ok(ex.fresh('rnd.nz', 'F'))
SH[B + 'is_negative'] = lambda ex, fr, st, c, a: FALSE
def _fb(ex, fr, st, c, a):
    out = []
    for s2, w in cases(ex, st, D(ex, st, a[0])):
        if isinstance(w, Seq) and len(w.segs) == 1 and isinstance(w.segs[0], One): out.append((s2, ok(int_to_ring(w.segs[0].v))))
        else: out.append((s2, ok(bn_from(w))))
    return out
SH[B + 'from_bytes'] = _fb
SH[B + 'to_bytes'] = lambda ex, fr, st, c, a: ok(Seq([bnbytes(canon(ex, st, a[0]))]))
SH[B + 'try_clone'] = lambda ex, fr, st, c, a: ok(D(ex, st, a[0]))
SH['BigNumber as PartialEq::eq'] = SH['BigNumber::PartialEq::eq'] = lambda ex, fr, st, c, a: feq0(rsub(canon(ex, st, a[0]), canon(ex, st, a[1])))
SH['BigNumber as PartialEq::ne'] = SH['BigNumber::PartialEq::ne'] = lambda ex, fr, st, c, a: not_(feq0(rsub(canon(ex, st, a[0]), canon(ex, st, a[1]))))
def lt2(x, y): return app('bn.lt', (x, y), 'B')
for nm, f in (('lt', lambda x, y: lt2(x, y)), ('gt', lambda x, y: lt2(y, x)), ('le', lambda x, y: not_(lt2(y, x))), ('ge', lambda x, y: not_(lt2(x, y)))):
    SH['BigNumber::PartialOrd::' + nm] = SH['BigNumber::' + nm] = lambda ex, fr, st, c, a, f=f: f(canon(ex, st, a[0]), canon(ex, st, a[1]))
class ShamirModels(CLModels):
    def __init__(s): super().__init__(); s.modulus_atom = None; s.overrides = {**OV, **SH}; s.tables = [STD, CL, SH]
