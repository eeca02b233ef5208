"""Models for Camenisch-Shoup verifiable encryption in zmix: the big numbers of libursa modulo N = n^2 (models_cl), with the
number theory of the Paillier group as simplifications that hold for every N = n^2 once a lemma has declared the key (ex.cs).
Each one is a theorem of lean/Paillier.lean: see there."""
from models_cl import *
import models_cl
CS = {}
def drop(x, n):
    """x with the monomials divisible by the atom n removed: the same residue modulo n"""
    a = single(n)
    if a is None: return x
    return mkpoly({m: c for m, c in mons(x).items() if not any(t is a and isinstance(e, int) and e >= 1 for t, e in m)})
def single(n):
    ms = mons(n)
    if len(ms) == 1 and list(ms.values()) == [1]:
        m = list(ms)[0]
        if len(m) == 1 and m[0][1] == 1: return m[0][0]
    return None
def quot(x, n):
    """the exact quotient x / n when every monomial of x has the atom n as a factor, or None"""
    a = single(n); d = {}
    if a is None or not mons(x): return None
    for m, c in mons(x).items():
        e = dict(m).get(a)
        if not isinstance(e, int) or e < 1: return None
        d[tuple((t, k if t is not a else k - 1) for t, k in m if t is not a or k > 1)] = c
    return mkpoly(d)
def key(ex, N):
    k = getattr(ex, 'cs', None)
    return k if k is not None and N is k['N'] else None
def plain(ex, x):
    """M when x is 1 + M n with M declared to lie in 0..n"""
    k = getattr(ex, 'cs', None)
    if k is None: return None
    q = quot(rsub(x, R1), k['n'])
    return q if q is not None and k['small'](q) else None
def EN(ex, N, L):
    """(1+n)^(M t) mod n^2 = 1 + M n when t = 1 mod n and 0 <= M < n"""
    k = key(ex, N)
    if k is not None:
        h = lg(N, radd(k['n'], R1)); q = quot(L, h)
        if q is not None:
            q = quot(q, k['t'])
            if q is not None and k['small'](q): return radd(R1, rmul(q, k['n']))
    return E(N, L)
def negated(x, N):
    """L when x is N - E(N, L)"""
    y = rsub(N, x); ms = mons(y)
    if len(ms) == 1 and list(ms.values()) == [1] and single(y) is not None: return eapp(y, N)
    return None
def even(e): return all(isinstance(c, int) and c % 2 == 0 for c in mons(e).values())
def cs_exp(ex, b, e, N):
    L = negated(b, N)
    if L is not None and even(e): return E(N, rmul(L, e))          # (N - a)^(2x) = a^(2x) mod N
    return EN(ex, N, rmul(lg(N, b), e))
def cs_mod(ex, x, N):
    k = getattr(ex, 'cs', None)
    if k is not None and N is k['N'] and plain(ex, x) is not None: return x      # 1 + M n < n^2
    if negated(x, N) is not None: return x                                        # 0 < a < N
    return modulus(drop(x, N), N) if single(N) is not None else modulus(x, N)
def cs_div(x, n):
    q = quot(x, n)
    return q if q is not None else fapp('bn.div', (x, n))
def cs_mul(ex, a, b, N, st):
    k = key(ex, N)
    if k is not None and k['product'](st, a, b): return rmul(a, b)              # 0 <= a b < N
    return mod_mul(a, b, N)
def cs_inv(a, n): return mod_inv(a, n)
B = 'BigNumber::'
CS[B + 'mod_exp'] = lambda ex, fr, st, c, a: ok(cs_exp(ex, F(ex, st, a[0]), F(ex, st, a[1]), F(ex, st, a[2])))
CS[B + 'modulus'] = lambda ex, fr, st, c, a: ok(cs_mod(ex, F(ex, st, a[0]), F(ex, st, a[1])))
CS[B + 'div'] = lambda ex, fr, st, c, a: ok(cs_div(F(ex, st, a[0]), F(ex, st, a[1])))
CS[B + 'mod_mul'] = lambda ex, fr, st, c, a: ok(cs_mul(ex, F(ex, st, a[0]), F(ex, st, a[1]), F(ex, st, a[2]), st))
def _rr(ex, fr, st, c, a):
    x = ex.fresh('rnd.nz.bn', 'F'); st.assume(app('bn.below', (x, F(ex, st, a[0])), 'B')); return ok(x)
CS[B + 'rand_range'] = _rr
class CSModels(CLModels):
    externals = CLModels.externals
    def __init__(s):
        super().__init__(); s.overrides = dict(OV); s.overrides.update(CS)
