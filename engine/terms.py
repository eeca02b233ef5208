"""Hash-consed terms: integers (I), booleans (B), ring elements (F), uninterpreted values (S).

Ring elements are polynomials with integer coefficients over atoms, with binders
`sum` and `prod`; everything is kept in a canonical form so that two equal
polynomials are the same object.  Bound variables are named canonically by depth.
"""
import itertools
from fractions import Fraction

class T:
    __slots__ = ('op', 'args', 'sort', 'id', 'h', '_fv', '_depth', '__weakref__')
    tab = {}
    cnt = itertools.count()
    def __new__(cls, op, args, sort):
        k = (op, args, sort)
        t = cls.tab.get(k)
        if t is None:
            t = object.__new__(cls)
            t.op = op; t.args = args; t.sort = sort; t.id = next(cls.cnt); t.h = hash(k); t._fv = None; t._depth = None
            cls.tab[k] = t
        return t
    def __hash__(s): return s.h
    def __eq__(s, o): return s is o
    def __ne__(s, o): return s is not o
    def __repr__(s): return show(s)
    # convenience operators (ring or int by sort)
    def __add__(s, o): o = lift(o, s.sort); return radd(s, o) if s.sort == 'F' else iadd(s, o)
    def __radd__(s, o): return s + o
    def __sub__(s, o): o = lift(o, s.sort); return rsub(s, o) if s.sort == 'F' else isub(s, o)
    def __rsub__(s, o): return lift(o, s.sort) - s
    def __mul__(s, o): o = lift(o, s.sort); return rmul(s, o) if s.sort == 'F' else imul(s, o)
    def __rmul__(s, o): return s * o
    def __neg__(s): return rneg(s) if s.sort == 'F' else isub(num(0), s)
    def __truediv__(s, o): return rmul(s, rinv(lift(o, 'F')))

def lift(o, sort):
    if isinstance(o, T): return o
    if sort == 'F': return rnum(o)
    return num(o)

def args_terms(t):
    """immediate T children (through nested tuples)"""
    out = []
    def go(x):
        if isinstance(x, T): out.append(x)
        elif isinstance(x, tuple):
            for y in x: go(y)
    go(t.args)
    return out

def fv(t):
    """free bound-variables/symbols of op 'var'"""
    r = t._fv
    if r is not None: return r
    if t.op == 'var': r = frozenset([t])
    else:
        r = frozenset().union(*[fv(x) for x in args_terms(t)]) if t.args else frozenset()
        if t.op in BINDERS: r = r - {t.args[0]}
    t._fv = r
    return r

BINDERS = {'sum', 'prod', 'forall', 'exists', 'count', 'lam'}

def depth(t):
    """binder depth"""
    d = t._depth
    if d is None:
        d = max([depth(x) for x in args_terms(t)] or [0])
        if t.op in BINDERS: d = max(d, int(t.args[0].args[0][1:].split(':')[0]) if t.args[0].args[0].startswith('%') else 0)
        t._depth = d
    return d

_fresh = itertools.count(1)
def fresh_var(sort='I', hint='v'):
    return T('var', ('%s!%d' % (hint, next(_fresh)), ), sort)
def bvar(d, sort): return T('var', ('%%%d:%s' % (d, sort),), sort)

# ---------------------------------------------------------------- ints
def num(n): return T('num', (int(n),), 'I')
ZERO = num(0); ONE = num(1)
TRUE = T('true', (), 'B'); FALSE = T('false', (), 'B')
def sym(name, sort): return T('sym', (name,), sort)
def app(name, args, sort): return T('app', (name,) + tuple(args), sort) if args else sym(name, sort)

def _i(x): return num(x) if isinstance(x, int) else x
def lin(t):
    """int term -> (const, {atom: coeff})"""
    if t.op == 'num': return t.args[0], {}
    if t.op == 'lin': return t.args[0], dict(t.args[1])
    return 0, {t: 1}
def mklin(c, d):
    d = {a: k for a, k in d.items() if k}
    if not d: return num(c)
    if c == 0 and len(d) == 1:
        (a, k), = d.items()
        if k == 1: return a
    return T('lin', (c, tuple(sorted(d.items(), key=lambda x: x[0].id))), 'I')
def iadd(a, b):
    a = _i(a); b = _i(b)
    c, d = lin(a); c2, d2 = lin(b)
    for x, k in d2.items(): d[x] = d.get(x, 0) + k
    return mklin(c + c2, d)
def iscale(a, k):
    c, d = lin(a); return mklin(c * k, {x: y * k for x, y in d.items()})
def isub(a, b): return iadd(_i(a), iscale(_i(b), -1))
def imul(a, b):
    a = _i(a); b = _i(b)
    ca, da = lin(a); cb, db = lin(b)
    if not da: return iscale(b, ca)
    if not db: return iscale(a, cb)
    # distribute products of atoms
    out = num(ca * cb)
    out = iadd(out, iscale(mklin(0, db), ca)); out = iadd(out, iscale(mklin(0, da), cb))
    for x, kx in da.items():
        for y, ky in db.items():
            fs = sorted((x.args if x.op == 'imul' else (x,)) + (y.args if y.op == 'imul' else (y,)), key=lambda z: z.id)
            out = iadd(out, iscale(T('imul', tuple(fs), 'I'), kx * ky))
    return out
def idiv(a, b):   # floor for non-negative
    if a.op == 'num' and b.op == 'num' and b.args[0] > 0 and a.args[0] >= 0: return num(a.args[0] // b.args[0])
    if b is ONE: return a
    if b.op == 'num' and b.args[0] > 0:
        k, d = lin(a); n = b.args[0]
        if d and all(c % n == 0 for c in d.values()): return iadd(mklin(0, {x: c // n for x, c in d.items()}), num(k // n))
    return T('div', (a, b), 'I')
def imod(a, b):
    if a.op == 'num' and b.op == 'num' and b.args[0] > 0 : return num(a.args[0] % b.args[0])
    if b is ONE: return ZERO
    if b.op == 'num' and b.args[0] > 0:
        k, d = lin(a); n = b.args[0]
        if d and all(c % n == 0 for c in d.values()): return num(k % n)
    return T('mod', (a, b), 'I')
def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    s = a.sort
    if s == 'F':
        i = ind(c)
        return radd(rmul(i, a), rmul(rsub(R1, i), b))
    if s == 'B':
        return and_(or_(not_(c), a), or_(c, b))
    if c.op == 'not': return T('ite', (c.args[0], b, a), s)
    return T('ite', (c, a, b), s)

# ---------------------------------------------------------------- bools
def and_(*xs):
    out = []
    seen = set()
    for x in flatten('and', xs):
        if x is TRUE or x in seen: continue
        if x is FALSE: return FALSE
        seen.add(x); out.append(x)
    for x in out:
        if not_(x) in seen: return FALSE
    # x and not(x and y)  =  x and not y
    for i, x in enumerate(out):
        if x.op == 'not' and x.args[0].op == 'and' and any(y in seen for y in x.args[0].args):
            return and_(*(out[:i] + out[i+1:] + [not_(and_(*[y for y in x.args[0].args if y not in seen]))]))
        if x.op == 'or':
            if any(y in seen for y in x.args): return and_(*(out[:i] + out[i+1:]))
            ys = [y for y in x.args if not_(y) not in seen]
            if len(ys) < len(x.args): return and_(*(out[:i] + out[i+1:] + [or_(*ys)]))
    if not out: return TRUE
    if len(out) == 1: return out[0]
    d = {}
    for x in out:
        e = x.op == 'ieq' and disc_eq(x)
        if e:
            if e[0] in d: return FALSE
            d[e[0]] = e[1]
    if d:
        ys = [y if y.op == 'ieq' and disc_eq(y) else subst(y, d) for y in out]
        if any(y is not x for x, y in zip(out, ys)): return and_(*ys)
    return T('and', tuple(sorted(out, key=lambda z: z.id)), 'B')
def or_(*xs):
    out = []; seen = set()
    for x in flatten('or', xs):
        if x is FALSE or x in seen: continue
        if x is TRUE: return TRUE
        seen.add(x); out.append(x)
    for x in out:
        if not_(x) in seen: return TRUE
    # (s and x) or (s and not x) = s
    ands = [x for x in out if x.op == 'and']
    for i, x in enumerate(ands):
        for y in ands[i + 1:]:
            if len(x.args) == len(y.args):
                dx = [z for z in x.args if z not in y.args]; dy = [z for z in y.args if z not in x.args]
                if len(dx) == 1 and dx[0] is not_(dy[0]):
                    return or_(*([z for z in out if z is not x and z is not y] + [and_(*[z for z in x.args if z is not dx[0]])]))
    # x or not(x and y) = true;  not x or not(x and y) = not(x and y)
    for x in out:
        if x.op == 'not' and x.args[0].op == 'and':
            for y in x.args[0].args:
                if y in seen: return TRUE
                if not_(y) in seen and len(out) > 1: return or_(*[z for z in out if z is not not_(y)])
    if not out: return FALSE
    if len(out) == 1: return out[0]
    return T('or', tuple(sorted(out, key=lambda z: z.id)), 'B')
def flatten(op, xs):
    for x in xs:
        if isinstance(x, (list, tuple)):
            for y in flatten(op, x): yield y
        elif x.op == op:
            for y in x.args: yield y
        else: yield x
def not_(x):
    if x is TRUE: return FALSE
    if x is FALSE: return TRUE
    if x.op == 'not': return x.args[0]
    if x.op == 'le':   # a<=0  -> 1-a<=0
        return le0(isub(ONE, x.args[0]))
    if x.op == 'and' and all(y.op == 'not' for y in x.args): return or_(*[y.args[0] for y in x.args])
    return T('not', (x,), 'B')
def implies(a, b): return or_(not_(a), b)
def conj(x): return list(x.args) if x.op == 'and' else ([] if x is TRUE else [x])
def le0(t):
    """t <= 0 over ints, normalised"""
    if t.op == 'num': return TRUE if t.args[0] <= 0 else FALSE
    c, d = lin(t)
    from math import gcd
    g = 0
    for k in d.values(): g = gcd(g, abs(k))
    if g > 1:
        # sum g*x + c <= 0  <=>  sum x <= floor(-c/g)
        d = {a: k // g for a, k in d.items()}; c = -((-c) // g)
    if len(d) == 1 and c in (0, 1):
        (x, k), = d.items()
        if x.op == 'count' and x.args[0].sort == 'S' and (k, c) in ((-1, 1), (1, 0)):
            r = forall(x.args[0], TRUE, not_(x.args[1])); return r if c == 0 else not_(r)
    return T('le', (mklin(c, d),), 'B')
def le(a, b): return le0(isub(a, b))
def lt(a, b): return le0(iadd(isub(a, b), ONE))
def ge(a, b): return le(b, a)
def gt(a, b): return lt(b, a)
def eq(a, b):
    if isinstance(a, int): a = lift(a, b.sort)
    if isinstance(b, int): b = lift(b, a.sort)
    if a is b: return TRUE
    if a.sort == 'F': return feq(a, b)
    if a.sort == 'B':
        if a is TRUE: return b
        if b is TRUE: return a
        if a is FALSE: return not_(b)
        if b is FALSE: return not_(a)
        return or_(and_(a, b), and_(not_(a), not_(b)))
    if a.sort == 'I':
        d = isub(a, b)
        if d.op == 'num': return TRUE if d.args[0] == 0 else FALSE
        c, m = lin(d)
        if len(m) == 1:
            (x, k), = m.items()
            if x.op == 'count' and c == 0 and x.args[0].sort == 'S': return forall(x.args[0], TRUE, not_(x.args[1]))      # an empty set of keys
            if x.op == 'ite' and (x.args[1].op == 'num' or x.args[2].op == 'num'):
                p, q = iadd(iscale(x.args[1], k), num(c)), iadd(iscale(x.args[2], k), num(c))
                p = eq(p, ZERO); q = eq(q, ZERO)
                return or_(and_(x.args[0], p), and_(not_(x.args[0]), q))
        f = sorted(m.items(), key=lambda x: x[0].id)[0][1]
        if f < 0: d = iscale(d, -1)
        return T('ieq', (d,), 'B')
    if a.op == 'str' and b.op == 'str': return FALSE
    x, y = sorted((a, b), key=lambda z: z.id)
    return T('seq', (x, y), 'B')
def ne(a, b): return not_(eq(a, b))
def feq(a, b):
    d = rsub(a, b)
    return feq0(d)
NZ = ('rnd.nz.', 'gen')      # names of values known to be non-zero
def feq0(d):
    c = rconst(d)
    if c is not None: return TRUE if c == 0 else FALSE
    ms = mons(d)
    if len(ms) == 1:
        (m, k), = ms.items()
        # a product of atoms is zero iff one is (integral domain); inverse powers dropped
        ats = []
        if abs(k) != 1: pass
        for a, e in m:
            if e > 0: ats.append(a)
        ats = [a for a in ats if not (a.op in ('sym', 'app') and isinstance(a.args[0], str) and (a.args[0].startswith(NZ) or a.args[0] == 'E'))]
        if not ats: return FALSE
        if len(ats) > 1:
            return or_(*[feq0(fromatom(a)) for a in ats])
        if ats[0].op == 'ind': return not_(ats[0].args[0])
        return T('feq0', (fromatom(ats[0]),), 'B')
    # strip common single-atom negative powers: multiply through
    negs = {}
    for m in ms:
        for a, e in m:
            if e < 0: negs[a] = min(negs.get(a, 0), e)
    if negs:
        mult = {tuple(sorted(((a, -e) for a, e in negs.items()), key=lambda x: x[0].id)): 1}
        return feq0(rmul(d, mkpoly(mult)))
    # sign normalise
    first = d.args[0][0]
    if first[1] < 0: d = rneg(d)
    return T('feq0', (d,), 'B')

def quant(op, v, body, rng=TRUE):
    """forall v. rng => body   /  exists v. rng and body"""
    if op == 'forall':
        b = implies(rng, body)
        if b is TRUE: return TRUE
    else:
        b = and_(rng, body)
        if b is FALSE: return FALSE
    if v not in fv(b): return b if op == 'forall' else b
    nv = bvar(depth(b) + 1, v.sort)
    return T(op, (nv, subst(b, {v: nv})), 'B')
def forall(v, rng, body):
    if body.op == 'and': return and_(*[forall(v, rng, b) for b in body.args])
    return quant('forall', v, body, rng)
def exists(v, rng, body): return not_(quant('forall', v, not_(body), rng))

# ---------------------------------------------------------------- ring
# poly: T('poly', (((mono, coeff), ...),), 'F'); mono: tuple of (atom, exp) sorted by atom id
def mkpoly(d):
    items = tuple(sorted(((m, c) for m, c in d.items() if c != 0), key=lambda x: (len(x[0]), tuple((a.id, e) for a, e in x[0]))))
    return T('poly', (items,), 'F')
def mons(p):
    if p.op == 'poly': return dict(p.args[0])
    if p.op == 'num': return {(): p.args[0]} if p.args[0] else {}
    return {((p, 1),): 1}
def rnum(n):
    return mkpoly({(): n} if n else {})
R0 = rnum(0); R1 = rnum(1)
def rconst(p):
    if p.op == 'poly':
        if not p.args[0]: return 0
        if len(p.args[0]) == 1 and p.args[0][0][0] == (): return p.args[0][0][1]
    return None
def fromatom(a):
    if a.op == 'poly': return a
    return mkpoly({((a, 1),): 1})
def fsym(name): return fromatom(sym(name, 'F'))
HOOKS = {}                         # app name -> simplifying constructor
def fapp(name, args):
    h = HOOKS.get(name)
    return h(*args) if h else fromatom(app(name, args, 'F'))
# residues modulo n in multiplicative notation: E(n, L) has formal log L; lg(n, x) is the log of x
def eapp(x, n=None):
    if x.op == 'poly' and len(x.args[0]) == 1:
        m, c = x.args[0][0]
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'app' and m[0][0].args[0] == 'E' and (n is None or m[0][0].args[1] is n): return m[0][0].args[2]
    return None
def lg(n, x):
    n = fromatom(n) if n.op != 'poly' else n
    x = fromatom(x) if x.op != 'poly' else x
    L = eapp(x, n)
    if L is not None: return L
    if x is R1: return R0
    ms = x.args[0]
    if len(ms) == 1 and ms[0][1] == 1 and (len(ms[0][0]) > 1 or ms[0][0][0][1] != 1) and all(isinstance(e, int) for _, e in ms[0][0]):
        t = R0
        for a, e in ms[0][0]: t = radd(t, rmul(rnum(e), lg(n, fromatom(a))))
        return t
    return fromatom(app('lg', (n, x), 'F'))
def E(n, L):
    n = fromatom(n) if n.op != 'poly' else n
    L = fromatom(L) if L.op != 'poly' else L
    return R1 if L is R0 else fromatom(app('E', (n, L), 'F'))
HOOKS['lg'] = lg; HOOKS['E'] = E
def radd(a, b):
    d = dict(mons(a))
    for m, c in mons(b).items(): d[m] = d.get(m, 0) + c
    return mkpoly(d)
def rneg(a): return mkpoly({m: -c for m, c in mons(a).items()})
def rsub(a, b): return radd(a, rneg(b))
def mmul(m1, m2):
    """product of monomials -> list of (mono, coeff) since indicators may merge"""
    d = {}
    inds = []; pows = {}
    for a, e in itertools.chain(m1, m2):
        if a.op == 'ind': inds.append(a.args[0]); continue
        if a.op == 'pow':
            pows.setdefault(a.args[0], []).append(iscale(a.args[1], e)); continue
        d[a] = d.get(a, 0) + e
    for base, es in pows.items():
        tot = ZERO
        for x in es: tot = iadd(tot, x)
        bm = mons(base)
        if len(bm) == 1:
            (m, c), = bm.items()
            if len(m) == 1 and c == 1 and m[0][1] == 1 and m[0][0] in d:
                tot = iadd(tot, num(d.pop(m[0][0])))
        r = rpow(base, tot)
        rm = mons(r)
        if len(rm) != 1:
            d[T('pow', (base, tot), 'F')] = 1; continue      # expanded by rmul
        (m, c), = rm.items()
        for a, e in m: d[a] = d.get(a, 0) + e
    if inds:
        c = and_(*inds)
        if c is FALSE: return None
        if c is not TRUE: d[T('ind', (c,), 'F')] = 1
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: x[0].id))
def rmul(a, b):
    d = {}
    for m1, c1 in mons(a).items():
        for m2, c2 in mons(b).items():
            m = mmul(m1, m2) if (m1 and m2) else (m1 or m2)
            if m is None: continue
            x = [a for a, e in m if a.op == 'pow' and a.args[1].op == 'num']
            if x:
                r = mkpoly({tuple((a, e) for a, e in m if a not in x): c1 * c2})
                for a, e in m:
                    if a in x: r = rmul(r, rpow(rpow(a.args[0], a.args[1]), e))
                for m3, c3 in mons(r).items(): d[m3] = d.get(m3, 0) + c3
                continue
            d[m] = d.get(m, 0) + c1 * c2
    return mkpoly(d)
def rpow_int(a, n):
    r = R1
    for _ in range(n): r = rmul(r, a)
    return r
def rpow(base, e):
    """base^e, e int term"""
    if isinstance(e, int): e = num(e)
    if e.op == 'num':
        n = e.args[0]
        if n >= 0 and n <= 64: return rpow_int(base, n)
        if n < 0 and n > -64: return rpow_int(rinv(base), -n)
    if rconst(base) == 1: return R1
    if rconst(base) == -1:
        c, d = lin(e); e = mklin(c % 2, {a: k % 2 for a, k in d.items() if k % 2})
        if e.op == 'num': return rnum(-1 if e.args[0] else 1)
    # split constant part off so pow(x, k+2) = pow(x,k)*x^2 ... keep merged instead (canonical)
    bm = mons(base)
    if len(bm) == 1:
        (m, c), = bm.items()
        if c == 1 and len(m) > 1:
            r = R1
            for a, x in m:
                r = rmul(r, rpow(fromatom(a), iscale(e, x)))
            return r
        if c == 1 and len(m) == 1 and m[0][0].op == 'pow' :
            return rpow(m[0][0].args[0], imul(m[0][0].args[1], iscale(e, m[0][1])))
    return fromatom(T('pow', (base, e), 'F'))
def rinv(a):
    ms = mons(a)
    if len(ms) == 1:
        (m, c), = ms.items()
        if c in (1, -1):
            r = {tuple((x, -e) for x, e in m): c}
            return mkpoly(r)
    # multi-term: canonical sign
    first = a.args[0][0]
    if first[1] < 0:
        return rneg(mkpoly({((T('pa', (rneg(a),), 'F'), -1),): 1}))
    return mkpoly({((T('pa', (a,), 'F'), -1),): 1})
def ind(c):
    if c is TRUE: return R1
    if c is FALSE: return R0
    if c.op == 'not': return rsub(R1, ind(c.args[0]))
    return fromatom(T('ind', (c,), 'F'))

def dep(t, v): return v in fv(t)

def is_disc(a): return a.op == 'app' and isinstance(a.args[0], str) and a.args[0].endswith('disc:u8')
def disc_eq(c):
    """(tag atom, value) of an equation that fixes a variant tag"""
    k, m = lin(c.args[0])
    if len(m) == 1:
        (a, q), = m.items()
        if q in (1, -1) and is_disc(a): return a, num(-k * q)
def disc_eqs(cond):
    """{tag atom: value} fixed by the conjuncts of cond"""
    return dict(e for e in (disc_eq(c) for c in conj(cond) if c.op == 'ieq') if e)
def disc_or(cond, v):
    for c in conj(cond):
        if c.op == 'or' and dep(c, v):
            for x in c.args:
                if disc_eqs(x): return c, x
    return None
def rsum(v, cond, body):
    """sum over v with cond of body"""
    if cond is FALSE: return R0
    h = disc_or(cond, v)
    if h:
        c, x = h; rest = [y for y in conj(cond) if y is not c]
        a = rsum(v, and_(*rest, x), body)
        return radd(a, rsum(v, and_(*rest, not_(x), or_(*[y for y in c.args if y is not x])), body))
    # pinned variable?
    t = pinned(v, cond)
    if t is not None:
        c2 = subst(cond, {v: t}); b2 = subst(body, {v: t})
        return rmul(ind(c2), b2)
    out = R0
    # split cond into v-independent part
    ci = [c for c in conj(cond) if not dep(c, v)]
    cd = [c for c in conj(cond) if dep(c, v)]
    outer = ind(and_(*ci)) if ci else R1
    cond = and_(*cd)
    for m, c in mons(body).items():
        inner = []; outm = []; extra = []; outp = R1
        for a, e in m:
            if a.op == 'ind' and dep(a, v): extra.append(a.args[0])
            elif a.op == 'pow' and dep(a, v) and not dep(a.args[0], v):
                # pow(x, k+c): pull out constant/independent exponent part
                cc, dd = lin(a.args[1])
                depd = {x: k for x, k in dd.items() if dep(x, v)}
                ind_ = mklin(cc, {x: k for x, k in dd.items() if not dep(x, v)})
                if ind_ is not ZERO:
                    outp = rmul(outp, rpow(a.args[0], iscale(ind_, e)))
                    pd = mons(rpow(a.args[0], iscale(mklin(0, depd), e))); (mm, _), = pd.items(); inner += list(mm)
                else: inner.append((a, e))
            elif dep(a, v): inner.append((a, e))
            else: outm.append((a, e))
        cnd = and_(cond, *extra)
        if cnd is FALSE: continue
        if extra:
            t = pinned(v, cnd)
            if t is not None:
                out = radd(out, rmul(rmul(rmul(outp, mkpoly({tuple(sorted(outm, key=lambda x: x[0].id)): c})), ind(subst(cnd, {v: t}))), subst(mkpoly({tuple(inner): 1}), {v: t})))
                continue
        o = outp
        for a, e in outm: o = rmul(o, mkpoly({((a, e),): 1}))
        rf = reflect(v, cnd, inner)
        if rf is not None:
            out = radd(out, rmul(rmul(o, rnum(c)), rsum(v, subst(cnd, rf), subst(mkpoly({tuple(sorted(inner, key=lambda x: x[0].id)): 1}), rf)))); continue
        s = mksum(v, cnd, mkpoly({tuple(sorted(inner, key=lambda x: x[0].id)): 1}))
        out = radd(out, rmul(rmul(o, rnum(c)), s))
    return rmul(outer, out)

def reflect(v, cond, inner):
    """the index runs backwards in every sequence access: the substitution that reverses it"""
    if v.sort != 'I': return None
    cs = set(); offs = []
    def go(t):
        if not dep(t, v): return
        if t.op in ('app', 'sym'):
            for x in args_terms(t):
                if x.sort == 'I' and dep(x, v):
                    k, d = lin(x); cs.add(d.pop(v, None))
                    if not any(dep(y, v) for y in d): offs.append(mklin(k, d))
        for x in args_terms(t): go(x)
    for a, e in inner: go(a)
    if cs != {-1} or not offs: return None
    return {v: isub(min(offs, key=lambda x: x.id), v)}
def pinned(v, cond):
    lo = set(); hi = set()
    for c in conj(cond):
        if c.op == 'le' and v.sort == 'I':
            k, d = lin(c.args[0])
            if v in d and abs(d[v]) == 1 and not any(dep(a, v) for a in d if a is not v):
                s = d.pop(v)
                (hi if s == 1 else lo).add(iscale(mklin(k, d), -s))
    if lo & hi: return min(lo & hi, key=lambda x: x.id)
    for c in conj(cond):
        if c.op == 'ieq' and v.sort == 'I':
            k, d = lin(c.args[0])
            if v in d and abs(d[v]) == 1 and not any(dep(a, v) for a in d if a is not v):
                s = d.pop(v)
                r = mklin(k, d)
                return iscale(r, -s) if True else None
        if c.op == 'seq':
            a, b = c.args
            if a is v and not dep(b, v): return b
            if b is v and not dep(a, v): return a
    return None

def idx_offsets(t, v, out):
    """constant offsets k such that v + k occurs as an int argument"""
    if not dep(t, v): return
    if t is v: out.add(0); return
    if t.op == 'lin':
        c, d = lin(t)
        if v in d and d[v] == 1 and len([a for a in d if dep(a, v)]) == 1:
            rest = {a: k for a, k in d.items() if a is not v}
            out.add(mklin(c, rest)); return
        out.add(None); return
    if t.op in BINDERS:
        for x in args_terms(t)[1:]: idx_offsets(x, v, out)
        return
    for x in args_terms(t): idx_offsets(x, v, out)

def mksum(v, cond, body):
    # canonical shift of the index
    if v.sort == 'I':
        offs = set(); idx_offsets(body, v, offs)
        offs = {ZERO if o == 0 else o for o in offs}
        if offs and None not in offs:
            if all(o.op == 'num' for o in offs):
                m = min(o.args[0] for o in offs)
                if m: 
                    s = {v: isub(v, num(m))}
                    cond = subst(cond, s); body = subst(body, s)
            elif len(offs) == 1:
                o = next(iter(offs)); s = {v: isub(v, o)}
                cond = subst(cond, s); body = subst(body, s)
    nv = bvar(max(depth(cond), depth(body)) + 1, v.sort)
    return fromatom(T('sum', (nv, subst(cond, {v: nv}), subst(body, {v: nv})), 'F'))

def rprod(v, cond, body):
    if cond is FALSE: return R1
    for m in mons(body):
        for a, e in m:
            if a.op == 'ind' and dep(a, v):
                # split the index set by the indicator's condition
                c = a.args[0]
                def asm(val):
                    out = {}
                    for m2, k2 in mons(body).items():
                        if any(x is a for x, _ in m2):
                            if not val: continue
                            m2 = tuple((x, y) for x, y in m2 if x is not a)
                        out[m2] = out.get(m2, 0) + k2
                    return mkpoly(out)
                return rmul(rprod(v, and_(cond, c), asm(True)), rprod(v, and_(cond, not_(c)), asm(False)))
    t = pinned(v, cond)
    if t is not None:
        c2 = subst(cond, {v: t}); b2 = subst(body, {v: t})
        return ite(c2, b2, R1)
    if rconst(body) == 1: return R1
    ms = mons(body)
    if len(ms) == 1:
        (m, c), = ms.items()
        out = R1
        if c != 1 or not m or len(m) > 1 or m[0][1] != 1:
            if c != 1:
                out = rmul(out, rpow(rnum(c), count(v, cond)))
            for a, e in m:
                out = rmul(out, rpow(rprod(v, cond, fromatom(a)), num(e)))
            return out
        if not dep(body, v): return rpow(body, count(v, cond))
        if m[0][0].op == 'ind': pass
    nv = bvar(max(depth(cond), depth(body)) + 1, v.sort)
    c2 = subst(cond, {v: nv}); b2 = subst(body, {v: nv})
    ms = mons(b2)
    if len(ms) == 1:
        (m, c), = ms.items()
        if c != 1:      # the renaming flipped a sign
            return rmul(rpow(rnum(c), count(v, cond)), rprod(nv, c2, mkpoly({m: 1})))
    elif b2.op == 'poly' and b2.args[0] and b2.args[0][0][1] < 0:
        return rmul(rpow(rnum(-1), count(v, cond)), fromatom(T('prod', (nv, c2, rneg(b2)), 'F')))
    return fromatom(T('prod', (nv, c2, b2), 'F'))

def count(v, cond):
    """number of v with cond (int)"""
    if cond is FALSE: return ZERO
    r = range_of(v, cond)
    if r and not r[2]:
        # pure range lo<=v<hi: length max(0,hi-lo)
        n = isub(r[1], r[0])
        if n.op == 'num': return num(max(0, n.args[0]))
        if is_nonneg(n): return n
        return T('nneg', (n,), 'I')
    t = pinned(v, cond)
    if t is not None: return ite(subst(cond, {v: t}), ONE, ZERO)
    nv = bvar(depth(cond) + 1, v.sort)
    return T('count', (nv, subst(cond, {v: nv})), 'I')

def is_nonneg(t):
    if t.op == 'num': return t.args[0] >= 0
    if t.op in ('nneg', 'count'): return True
    if t.op in ('sym', 'app', 'var'):
        n = t.args[0]
        return n.endswith('.len') or n.endswith((':usize', ':u8', ':u16', ':u32', ':u64', ':u128'))
    if t.op == 'lin': return t.args[0] >= 0 and all(k > 0 and is_nonneg(a) for a, k in t.args[1])
    if t.op == 'imul': return all(is_nonneg(a) for a in t.args)
    if t.op in ('div', 'mod'): return is_nonneg(t.args[0]) and is_nonneg(t.args[1])
    if t.op == 'ite': return is_nonneg(t.args[1]) and is_nonneg(t.args[2])
    return False

def range_of(v, cond):
    """(lo, hi, rest) with lo <= v < hi among conjuncts (single lower and single upper)"""
    lo = []; hi = []; rest = []
    for c in conj(cond):
        if c.op == 'le':
            k, d = lin(c.args[0])
            if v in d and abs(d[v]) == 1 and not any(dep(a, v) for a in d if a is not v):
                s = d.pop(v)
                if s == 1: hi.append(iadd(iscale(mklin(k, d), -1), ONE))   # v + r <= 0 -> v <= -r
                else: lo.append(mklin(k, d))                            # -v + r <= 0 -> v >= r
                continue
        rest.append(c)
    if len(lo) == 1 and len(hi) == 1: return lo[0], hi[0], rest
    return None

# ---------------------------------------------------------------- substitution
_subst_memo = {}
def subst(t, s):
    if not s: return t
    key = frozenset(s.items())
    memo = _subst_memo.setdefault(key, {})
    if len(_subst_memo) > 20000: _subst_memo.clear(); memo = _subst_memo.setdefault(key, {})
    return _subst(t, s, memo)

def _subst(t, s, memo):
    r = memo.get(t)
    if r is not None: return r
    if t in s: r = s[t]
    elif not t.args or t.op in ('num', 'sym', 'var', 'str', 'poly') and t.op != 'poly': r = t
    elif not mentions(t, s): r = t
    else: r = rebuild(t, lambda x: _subst(x, s, memo), s)
    memo[t] = r
    return r

_ment = {}
def atoms_of(t):
    """set of 'var' and 'sym' and 'app' leaves used for quick filtering"""
    r = _ment.get(t)
    if r is None:
        r = set()
        if t.op in ('var', 'sym', 'hole'): r.add(t)
        for x in args_terms(t): r |= atoms_of(x)
        if t.op == 'app': r.add(t)
        r = frozenset(r)
        _ment[t] = r
    return r
def mentions(t, s):
    a = atoms_of(t)
    for x in s:
        if x in a: return True
        if x.op not in ('var', 'sym', 'app', 'hole'): return True
    return False

def rebuild(t, f, s=None):
    op = t.op; A = t.args
    if op == 'poly':
        out = R0
        for m, c in A[0]:
            p = rnum(c)
            for a, e in m:
                fa = f(a)
                fa = fromatom(fa) if fa.sort == 'F' and fa.op != 'poly' else fa
                if e >= 0: p = rmul(p, rpow_int(fa, e))
                else: p = rmul(p, rpow_int(rinv(fa), -e))
            out = radd(out, p)
        return out
    if op in ('sum', 'prod'):
        v, c, b = A
        if s is not None and capture(v, s): v2 = fresh_var(v.sort); c = subst(c, {v: v2}); b = subst(b, {v: v2}); v = v2
        return (rsum if op == 'sum' else rprod)(v, f(c), f(b))
    if op == 'count':
        v, c = A
        if s is not None and capture(v, s): v2 = fresh_var(v.sort); c = subst(c, {v: v2}); v = v2
        return count(v, f(c))
    if op in ('forall', 'exists'):
        v, b = A
        if s is not None and capture(v, s): v2 = fresh_var(v.sort); b = subst(b, {v: v2}); v = v2
        return quant(op, v, f(b))
    if op == 'lin':
        r = num(A[0])
        for a, k in A[1]: r = iadd(r, iscale(f(a), k))
        return r
    if op == 'imul':
        r = ONE
        for a in A: r = imul(r, f(a))
        return r
    if op == 'div': return idiv(f(A[0]), f(A[1]))
    if op == 'mod': return imod(f(A[0]), f(A[1]))
    if op == 'nneg':
        x = f(A[0]); return num(max(0, x.args[0])) if x.op == 'num' else (x if is_nonneg(x) else T('nneg', (x,), 'I'))
    if op == 'ite': return ite(f(A[0]), f(A[1]), f(A[2]))
    if op == 'and': return and_(*[f(x) for x in A])
    if op == 'or': return or_(*[f(x) for x in A])
    if op == 'not': return not_(f(A[0]))
    if op == 'le': return le0(f(A[0]))
    if op == 'ieq': return eq(f(A[0]), ZERO)
    if op == 'feq0': return feq0(f(A[0]))
    if op == 'seq': return eq(f(A[0]), f(A[1]))
    if op == 'ind': return ind(f(A[0]))
    if op == 'pow': return rpow(f(A[0]), f(A[1]))
    if op == 'pa':
        return f(A[0])
    if op == 'lam':
        v, b = A[0], A[1]
        if s is not None and capture(v, s): v2 = fresh_var(v.sort); b = map_tuple(b, lambda x: subst(x, {v: v2})); v = v2
        return mklam(v, map_tuple(b, f))
    if op == 'app' and A[0] in HOOKS: return HOOKS[A[0]](*map_tuple(A[1:], f))
    # generic
    return T(op, map_tuple(A, f), t.sort)

def mklam(v, body):
    """lambda over a (nested tuple of) terms, alpha-canonical"""
    d = max([depth(x) for x in args_terms(T('tup', (body,), 'X'))] or [0]) + 1
    nv = bvar(d, v.sort)
    return T('lam', (nv, map_tuple(body, lambda x: subst(x, {v: nv}))), 'X')

def map_tuple(A, f):
    if isinstance(A, T): return f(A)
    if isinstance(A, tuple): return tuple(map_tuple(x, f) for x in A)
    return A

def capture(v, s):
    return any(v in fv(x) for x in s.values()) or v in s

# ---------------------------------------------------------------- printing
def show(t, d=0):
    if d > 12: return '…'
    op = t.op; A = t.args
    S = lambda x: show(x, d + 1)
    if op in ('sym', 'var'): return str(A[0])
    if op == 'num': return str(A[0])
    if op == 'str': return repr(A[0])
    if op in ('true', 'false'): return op
    if op == 'app': return '%s(%s)' % (A[0], ','.join(S(x) if isinstance(x, T) else str(x) for x in A[1:]))
    if op == 'lin':
        return '(' + '+'.join(([str(A[0])] if A[0] else []) + [('%d*' % k if k != 1 else '') + S(a) for a, k in A[1]]) + ')'
    if op == 'poly':
        if not A[0]: return '0'
        out = []
        for m, c in A[0]:
            fs = [S(a) + ('^%d' % e if e != 1 else '') for a, e in m]
            if c != 1 or not fs: fs = [str(c)] + fs
            out.append('·'.join(fs))
        r = ' + '.join(out)
        return '(' + r + ')' if len(out) > 1 else r
    if op in ('sum', 'prod'): return '%s{%s|%s}(%s)' % ('Σ' if op == 'sum' else 'Π', S(A[0]), S(A[1]), S(A[2]))
    if op == 'count': return '#{%s|%s}' % (S(A[0]), S(A[1]))
    if op in ('forall', 'exists'): return '%s %s.(%s)' % ('∀' if op == 'forall' else '∃', S(A[0]), S(A[1]))
    if op == 'and': return '(' + ' ∧ '.join(map(S, A)) + ')'
    if op == 'or': return '(' + ' ∨ '.join(map(S, A)) + ')'
    if op == 'not': return '¬' + S(A[0])
    if op == 'le': return '[%s ≤ 0]' % S(A[0])
    if op == 'ieq': return '[%s = 0]' % S(A[0])
    if op == 'feq0': return '[%s ≡ 0]' % S(A[0])
    if op == 'seq': return '[%s == %s]' % (S(A[0]), S(A[1]))
    if op == 'ind': return '1[%s]' % S(A[0])
    if op == 'pow': return 'pow(%s,%s)' % (S(A[0]), S(A[1]))
    def sh(x):
        if isinstance(x, T): return S(x)
        if isinstance(x, tuple): return '(' + ','.join(map(sh, x)) + ')'
        return str(x)
    return '%s(%s)' % (op, ','.join(map(sh, A)))

def sstr(x): return T('str', (x,), 'S')
