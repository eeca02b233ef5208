"""z3 back end for path conditions, and the ring-identity checker."""
import z3, time, itertools, random
from terms import *

SF = z3.DeclareSort('F'); SX = z3.DeclareSort('X')
class Stats: pass
stats = Stats(); stats.queries = 0; stats.z3time = 0.0; stats.ringq = 0; stats.ringtime = 0.0; stats.cached = 0

def zsort(s): return {'I': z3.IntSort(), 'S': z3.IntSort(), 'B': z3.BoolSort(), 'F': SF, 'X': SX}[s]
_strs = {}
_uf = {}
def uf(name, doms, rng):
    k = (name, tuple(str(d) for d in doms), str(rng))
    f = _uf.get(k)
    if f is None:
        f = z3.Function('%s#%d' % (name[:60], len(_uf)), *doms, rng) if doms else z3.Const('%s#%d' % (name[:60], len(_uf)), rng)
        _uf[k] = f
    return f

_skel = {}
def skel(t):
    """(skeleton string, [int/string subterms]) abstracting maximal I/S subterms"""
    r = _skel.get(t)
    if r is not None: return r
    ints = []
    def go(x):
        if isinstance(x, T):
            if x.sort in ('I', 'S') and x.op not in BINDERS:
                ints.append(x); return '#'
            if x.op == 'poly':
                ms = []
                for m, c in x.args[0]:
                    sub = []
                    for a, e in m:
                        sa, ia = skel(a); sub.append((sa, e, ia))
                    sub.sort(key=lambda z: (z[0], z[1], [y.id for y in z[2]]))
                    ms.append((tuple((a, e) for a, e, _ in sub), c, [i for _, _, ii in sub for i in ii]))
                ms.sort(key=lambda z: (str(z[0]), z[1], [y.id for y in z[2]]))
                out = []
                for m, c, ii in ms: ints.extend(ii); out.append('%d*%s' % (c, m))
                return 'P[' + '+'.join(out) + ']'
            if x.op in BINDERS:
                # bound variable must not be abstracted: keep whole, but abstract free int vars
                fvs = sorted(fv(x), key=lambda z: z.id)
                cs = {v: T('var', ('$%d' % i,), v.sort) for i, v in enumerate(fvs)}
                y = subst(x, cs); ints.extend(fvs)
                return 'B%d' % y.id
            if not x.args: return x.op
            return x.op + '(' + ','.join(go(a) for a in x.args) + ')'
        if isinstance(x, tuple): return '(' + ','.join(go(a) for a in x) + ')'
        return repr(x)
    s = go(t)
    r = (s, ints); _skel[t] = r
    return r

_z = {}
def z(t):
    r = _z.get(t)
    if r is None:
        r = _zz(t); _z[t] = r
    return r
def _zz(t):
    op = t.op; A = t.args
    if op == 'num': return z3.IntVal(A[0])
    if op == 'true': return z3.BoolVal(True)
    if op == 'false': return z3.BoolVal(False)
    if op in ('sym', 'var'): return z3.Const('%s|%s' % (A[0], t.sort), zsort(t.sort))
    if op == 'str':
        return z3.IntVal(-1000000 - _strs.setdefault(A[0], len(_strs)))
    if op == 'lin':
        r = z3.IntVal(A[0])
        return z3.Sum([r] + [k * z(a) for a, k in A[1]])
    if op == 'imul':
        r = z(A[0])
        for a in A[1:]: r = r * z(a)
        return r
    if op == 'div': return z(A[0]) / z(A[1])
    if op == 'mod': return z(A[0]) % z(A[1])
    if op == 'nneg': return z3.If(z(A[0]) > 0, z(A[0]), z3.IntVal(0))
    if op == 'ite': return z3.If(z(A[0]), z(A[1]), z(A[2]))
    if op == 'and': return z3.And([z(x) for x in A])
    if op == 'or': return z3.Or([z(x) for x in A])
    if op == 'not': return z3.Not(z(A[0]))
    if op == 'le': return z(A[0]) <= 0
    if op == 'ieq': return z(A[0]) == 0
    if op == 'seq': return z(A[0]) == z(A[1])
    if op in ('forall', 'exists'):
        v = z(A[0])
        return (z3.ForAll if op == 'forall' else z3.Exists)([v], z(A[1]))
    if op == 'app' and all(isinstance(x, T) and x.sort in ('I', 'S', 'B') for x in A[1:]):
        f = uf(A[0], [zsort(x.sort) for x in A[1:]], zsort(t.sort))
        return f(*[z(x) for x in A[1:]])
    # everything else: UF keyed by skeleton over its integer subterms
    s, ints = skel(t) if not (t.sort in ('I', 'S')) else skel_int(t)
    f = uf('k:' + s if len(s) < 50 else 'k%d' % _kid(s), [zsort(i.sort) for i in ints], zsort(t.sort))
    return f(*[z(i) for i in ints]) if ints else f
_kids = {}
def _kid(s): return _kids.setdefault(s, len(_kids))
def skel_int(t):
    # int-sorted opaque term (count, app with non-int args): abstract below the root
    if t.op in BINDERS:
        fvs = sorted(fv(t), key=lambda x: x.id)
        y = subst(t, {v: T('var', ('$%d' % i,), v.sort) for i, v in enumerate(fvs)})
        return 'B%d' % y.id, fvs
    parts = []; ints = []
    def go(x):
        if isinstance(x, T):
            s, i = skel(x) if x.sort not in ('I', 'S') else ('#', [x])
            ints.extend(i); return s
        if isinstance(x, tuple): return '(' + ','.join(go(y) for y in x) + ')'
        return repr(x)
    s = t.op + '(' + ','.join(go(x) for x in t.args) + ')'
    return s, ints

MAXLEN = num(2 ** 40)
RANGES = {'u8': (0, 2**8-1), 'u16': (0, 2**16-1), 'u32': (0, 2**32-1), 'u64': (0, 2**64-1), 'usize': (0, 2**64-1), 'u128': (0, 2**128-1),
          'i8': (-2**7, 2**7-1), 'i16': (-2**15, 2**15-1), 'i32': (-2**31, 2**31-1), 'i64': (-2**63, 2**63-1), 'isize': (-2**63, 2**63-1), 'i128': (-2**127, 2**127-1), 'char': (0, 0x10ffff)}
RANGES = {k: (num(a), num(b)) for k, (a, b) in RANGES.items()}
def side_facts(ts):
    """range facts of int subterms: lengths, counts"""
    out = set(); seen = set()
    def go(t, bound):
        if (t) in seen: return
        seen.add(t)
        if t.op == 'count': out.add(le(ZERO, t)) if not any(x.args[0][0] == '%' for x in fv(t)) else None
        if t.op in ('sym', 'app', 'var') and t.sort == 'I' and not any(x.args[0][0] == '%' for x in fv(t)):
            n = t.args[0]
            if n.endswith('.len'): out.add(le(ZERO, t)); out.add(le(t, MAXLEN))
            elif ':' in n:
                r = RANGES.get(n.rsplit(':', 1)[1])
                if r: out.add(le(r[0], t)); out.add(le(t, r[1]))
        if t.op == 'app' and t.sort == 'B' and t.args[0].endswith('.has') and t.args[-1].sort == 'I' and not any(x.args[0][0] == '%' for x in fv(t)):
            out.add(implies(t, and_(le(ZERO, t.args[-1]), le(t.args[-1], RANGES['usize'][1]))))
        for x in args_terms(t): go(x, bound)
    for t in ts: go(t, ())
    return out

_cache = {}
TIMEOUT = 4000
def check(pc, extra=(), timeout=None, model=False):
    """satisfiability of pc and extra: 'sat' | 'unsat' | 'unknown'"""
    fs = []
    for c in itertools.chain(pc, extra):
        if c is FALSE: return 'unsat'
        if c is TRUE: continue
        fs.append(c)
    key = frozenset(fs)
    if not model and key in _cache: stats.cached += 1; return _cache[key]
    for c in key:
        if not_(c) in key:
            _cache[key] = 'unsat'; return 'unsat'
    t0 = time.time()
    s = z3.SolverFor('AUFLIA') if False else z3.Solver()
    s.set('timeout', timeout or TIMEOUT)
    for c in fs: s.add(z(c))
    for c in side_facts(fs): s.add(z(c))
    # string constants are distinct integers below -10^6; other S values unconstrained
    r = str(s.check())
    stats.queries += 1; stats.z3time += time.time() - t0
    if r == 'unknown':
        # retry with manual instantiation only
        inst = instantiate(fs)
        if inst is not None:
            s = z3.Solver(); s.set('timeout', timeout or TIMEOUT)
            for c in inst: s.add(z(c))
            for c in side_facts(inst): s.add(z(c))
            r2 = str(s.check()); stats.queries += 1
            if r2 == 'unsat': r = 'unsat'
    if r == 'sat' and not model:
        cf = count_facts(fs)
        if cf:
            s = z3.Solver(); s.set('timeout', timeout or TIMEOUT)
            for c in itertools.chain(fs, cf, side_facts(fs + cf)): s.add(z(c))
            stats.queries += 1
            r2 = str(s.check())
            if r2 == 'unsat': r = 'unsat'
    if r != 'unsat' and not model:
        fs2 = unit_literals(fs)
        if fs2 is not None and check(fs2, (), timeout) == 'unsat': r = 'unsat'
    if not model: _cache[key] = r
    if model: return r, (s.model() if r == 'sat' else None)
    return r

_busy = [0]
def unit_literals(fs):
    """the facts with every uninterpreted boolean that stands alone replaced by its truth value, or None if that changes nothing"""
    sub = {}
    for c in fs:
        x, v = (c.args[0], FALSE) if c.op == 'not' else (c, TRUE)
        if x.op in ('app', 'sym', 'var') and x.sort == 'B': sub[x] = v
    if not sub: return None
    out = []; ch = False
    for c in fs:
        x = c.args[0] if c.op == 'not' else c
        if x in sub: out.append(c); continue
        d = subst(c, sub)
        if d is not c: ch = True
        out += conj(d)
    return out if ch else None
def counts_in(fs):
    out = []; seen = set()
    def go(t):
        if t in seen: return
        seen.add(t)
        if t.op == 'count':
            if not any(x.args[0][0] == '%' for x in fv(t)): out.append(t)
            return
        if t.op in BINDERS: return
        for x in args_terms(t): go(x)
    for c in fs: go(c)
    return out
def rank_bound(v, cond):
    for x in conj(cond):
        if x.op == 'le':
            kk, dd = lin(x.args[0])
            if dd.get(v) == 1 and len(dd) == 2 and kk == 1:
                a = [a for a in dd if a is not v][0]
                if dd[a] == -1 and a.sort == 'I': yield a
def count_facts(fs):
    """valid facts about the cardinalities in fs: complements, inclusions, equal sets"""
    if _busy[0]: return []
    cs = counts_in(fs)
    if not cs: return []
    _busy[0] += 1
    try:
        out = []; extra = []
        for t in cs:
            v, c = t.args; parts = conj(c)
            if v.sort != 'I': continue
            neg = [p for p in parts if p.op != 'le' and dep(p, v)]
            if len(neg) == 1 and sum(1 for p in parts if p.op == 'le') == 2:
                rest = and_(*[p for p in parts if p is not neg[0]]); rg = range_of(v, rest)
                if rg and not rg[2]:
                    o = count(v, and_(not_(neg[0]), rest))
                    out.append(eq(iadd(t, o), count(v, rest))); extra.append(o)
        base = [f for f in fs if not counts_in([f])]
        w = T('sym', ('cf!wI',), 'I')
        for t in cs:
            v, c = t.args
            if v.sort != 'I' or any(x.op == 'le' for x in conj(c)): continue
            cw = subst(c, {v: w})
            bs = []
            for f in fs:
                if f.op != 'forall': continue
                fvv, b = f.args
                for x in (b.args if b.op == 'or' else (b,)):
                    if x.op == 'le':
                        kk, dd = lin(x.args[0])
                        if dd.get(fvv) == 1 and not any(a is not fvv and dep(a, fvv) for a in dd):
                            dd = dict(dd); dd.pop(fvv); n = iscale(mklin(kk - 1, dd), -1)
                            if n not in bs: bs.append(n)
            for n in bs[:3]:
                if check(base, [cw, not_(and_(le(ZERO, w), lt(w, n)))], 1000) == 'unsat':
                    o = count(v, and_(not_(c), le(ZERO, v), lt(v, n)))
                    out.append(eq(iadd(t, o), n)); out.append(le(ZERO, n)); extra.append(o); extra.append(count(v, and_(c, le(ZERO, v), lt(v, n)))); break
        al = cs + [o for o in extra if o.op == 'count' and o not in cs]
        if len(al) > 6: return out
        for i, x in enumerate(al):
            for y in al[i + 1:]:
                if x.args[0].sort != y.args[0].sort: continue
                w = T('sym', ('cf!w' + x.args[0].sort,), x.args[0].sort)
                cx = subst(x.args[1], {x.args[0]: w}); cy = subst(y.args[1], {y.args[0]: w})
                a = check(base, [cx, not_(cy)], 1000) == 'unsat'; b = check(base, [cy, not_(cx)], 1000) == 'unsat'
                if a and b: out.append(eq(x, y)); continue
                if b: x_, y_, = y, x
                else: x_, y_ = x, y
                if a or b:
                    out.append(le(x_, y_))
                    for k in rank_bound(x_.args[0], x_.args[1]):
                        if check(base, [not_(and_(subst(y_.args[1], {y_.args[0]: k}), not_(subst(x_.args[1], {x_.args[0]: k}))))], 1000) == 'unsat': out.append(lt(x_, y_)); break
        return out
    finally: _busy[0] -= 1
def instantiate(fs):
    qs = [c for c in fs if c.op == 'forall']
    if not qs: return None
    ground = [c for c in fs if c.op != 'forall']
    idx = {'I': set(), 'S': set()}
    def go(t):
        if t.sort in idx and t.op not in BINDERS and not any(v.args[0].startswith('%') for v in fv(t)) and t.op != 'num': idx[t.sort].add(t)
        for x in args_terms(t): go(x)
    for c in fs:
        if c.op != 'forall': go(c)
    out = list(ground)
    for q in qs:
        v, b = q.args
        for t in list(idx[v.sort])[:30]:
            out.append(subst(b, {v: t}))
    return [c for c in out if c.op != 'forall']

def entails(pc, goal, timeout=None):
    if goal is TRUE: return True
    gs = conj(goal)
    if len(gs) > 1: return all(entails(pc, g, timeout) for g in gs)
    if goal in set(pc): return True
    if goal.op == 'feq0' and ring_zero(goal.args[0], pc): return True
    return check(pc, [not_(goal)], timeout) == 'unsat'
def infeasible(pc, extra=()):
    return check(pc, extra) == 'unsat'

# ---------------------------------------------------------------- ring identities
def clear_denoms(p):
    for _ in range(6):
        negs = {}
        for m, c in p.args[0]:
            for a, e in m:
                if e < 0: negs[a] = min(negs.get(a, 0), e)
        if not negs:
            if any(a.op == 'pa' for m, c in p.args[0] for a, e in m):
                res = R0
                for m, c in p.args[0]:
                    term = rnum(c)
                    for a, e in m: term = rmul(term, rpow_int(a.args[0] if a.op == 'pa' else fromatom(a), e))
                    res = radd(res, term)
                p = res
                if p.op != 'poly' or not any(e < 0 for m, c in p.args[0] for a, e in m): return p
                continue
            return p
        # multiply by product a^-e with pa-atoms replaced by their polynomial
        out = {}
        res = R0
        for m, c in p.args[0]:
            d = dict(m)
            term = rnum(c)
            for a, e0 in negs.items():
                e = d.pop(a, 0)
                base = a.args[0] if a.op == 'pa' else fromatom(a)
                term = rmul(term, rpow_int(base, e - e0))
            term = rmul(term, mkpoly({tuple(sorted(d.items(), key=lambda x: x[0].id)): 1}))
            res = radd(res, term)
        p = res
    return p

def ring_rules(pc):
    """oriented equations from feq0 facts"""
    out = []
    for c in pc:
        if c.op == 'feq0': out.append(c.args[0])
    return out

def contains_atom(t, a):
    if t is a: return True
    return any(contains_atom(x, a) for x in args_terms(t))

def apply_eqs(p, pc, defs=None):
    """rewrite p using equations q=0 from pc: pick an atom occurring linearly with coefficient ±1, once"""
    eqs = ring_rules(pc)
    sub = {}
    work = list(eqs)
    rules = []
    while work:
        q = work.pop(0)
        q = clear_denoms(q)
        for _ in range(20):
            q0 = q
            for m, r in rules: q = rewrite_mono(q, dict(m), r)
            if q is q0: break
        if rconst(q) == 0: continue
        cand = None
        for m, c in q.args[0]:
            if len(m) == 1 and m[0][1] == 1 and abs(c) == 1 and m[0][0].op in ('sym', 'app'):
                a = m[0][0]
                if sum(1 for m2, _ in q.args[0] if any(contains_atom(x, a) for x, _e in m2)) == 1:
                    cand = (a, c); 
                    if a.op == 'app' and a.args[0].startswith('hash'): break
        if cand:
            a, c = cand
            rest = rsub(q, rmul(rnum(c), fromatom(a)))
            val = rneg(rest) if c == 1 else rest
            s = {a: val}
            p = deep_subst(p, s)
            work = [deep_subst(w, s) for w in work]
            rules = [(l, deep_subst(r, s)) for l, r in rules]
        else:
            # monomial rewriting: choose the longest monomial with coefficient ±1
            ms = [x for x in q.args[0] if abs(x[1]) == 1 and x[0]]
            if ms:
                m, c = max(ms, key=lambda x: (sum(e for _, e in x[0]), [-a.id for a, _ in x[0]]))
                rest = rsub(q, mkpoly({m: c}))
                rules.append((m, rneg(rest) if c == 1 else rest))
    for _ in range(20):
        changed = False
        for m, r in rules:
            p2 = rewrite_mono(p, dict(m), r)
            if p2 is not p: p = p2; changed = True
        if not changed: break
    return p

def deep_subst(p, s):
    return subst(p, s)

def rewrite_mono(p, lm, r):
    out = {}; res = None
    for m, c in p.args[0]:
        d = dict(m)
        if all(d.get(a, 0) >= e for a, e in lm.items()):
            for a, e in lm.items(): d[a] -= e
            rest = mkpoly({tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: x[0].id)): c})
            t = rmul(rest, r)
            res = t if res is None else radd(res, t)
        else: out[m] = c
    if res is None: return p
    return radd(mkpoly(out), res)

def ring_zero(p, pc, deep=True):
    stats.ringq += 1
    t0 = time.time()
    try:
        return _ring_zero(p, pc, deep)
    finally: stats.ringtime += time.time() - t0

_rzc = {}
def _ring_zero(p, pc, deep):
    if rconst(p) is not None: return rconst(p) == 0
    key = (p, frozenset(pc))
    if key in _rzc: return _rzc[key]
    r = __ring_zero(p, pc, deep)
    _rzc[key] = r
    return r

def __ring_zero(p, pc, deep):
    p = clear_denoms(p)
    if rconst(p) is not None: return rconst(p) == 0
    if deep:
        fa = ring_foralls(pc) + nested_foralls(p, pc)
        if fa:
            p = sum_elim(p, pc, fa); pc = list(pc) + inst_foralls(p, pc, fa)
            if rconst(p) is not None: return rconst(p) == 0
        p = apply_eqs(p, pc); p = clear_denoms(p)
        if rconst(p) is not None: return rconst(p) == 0
    return pointwise_zero(p, pc)

def ring_foralls(pc):
    """facts  forall v. D(v) -> P(v) = 0  as (v, D, P)"""
    out = []
    for c in pc:
        if c.op != 'forall': continue
        v, b = c.args; xs = list(b.args) if b.op == 'or' else [b]
        eqs = [x for x in xs if x.op == 'feq0']
        if len(eqs) != 1 or not dep(eqs[0], v): continue
        out.append((v, and_(*[not_(x) for x in xs if x is not eqs[0]]), clear_denoms(eqs[0].args[0])))
    return out
def nested_foralls(p, pc):
    """instances of  forall k. D(k) -> forall i. ...  at the index terms of p"""
    ns = [c for c in pc if c.op == 'forall' and any(x.op == 'forall' for x in (c.args[1].args if c.args[1].op == 'or' else (c.args[1],)))]
    if not ns: return []
    idx = index_terms(p, pc); base = [c for c in pc if c.op != 'forall']; out = []
    for c in ns:
        v, b = c.args; xs = list(b.args) if b.op == 'or' else [b]; q = [x for x in xs if x.op == 'forall']; d = [not_(x) for x in xs if x.op != 'forall']
        if len(q) != 1: continue
        for j in idx[:8]:
            if j.sort == v.sort and all(check(base, [not_(y)]) == 'unsat' for x in d for y in conj(subst(x, {v: j}))): out.append(subst(q[0], {v: j}))
    return ring_foralls(out)
def index_terms(p, pc):
    idx = []
    def bound(t): return any(v.args[0][0] == '%' for v in fv(t))
    def go(t):
        if t.op == 'app':
            for x in t.args[1:]:
                if isinstance(x, T) and x.sort in 'IS' and not bound(x) and x not in idx: idx.append(x)
        for x in args_terms(t): go(x)
    go(p)
    if not idx:
        def go2(t):
            if t.op == 'sym' and t.sort == 'I' and t not in idx: idx.append(t)
            for x in args_terms(t): go2(x)
        for c in pc:
            if c.op == 'le': go2(c)
    return idx
def inst_foralls(p, pc, fa):
    idx = index_terms(p, pc); out = []
    for v, d, q in fa:
        for j in idx[:8]:
            if j.sort != v.sort: continue
            dj = subst(d, {v: j})
            if dj is not FALSE and all(check([c for c in pc if c.op != 'forall'], [not_(x)]) == 'unsat' for x in conj(dj)): out.append(feq0(subst(q, {v: j})))
    return [c for c in out if c.op == 'feq0']
def sum_elim(p, pc, fa):
    """rewrite sums over D with  sum_D w(v) * P(v) = 0  whenever  forall v in D. P(v) = 0"""
    for v, d, q in fa:
        lead = None
        for m, c in q.args[0]:
            fm = tuple((a, e) for a, e in m if dep(a, v)); om = tuple((a, e) for a, e in m if not dep(a, v))
            if abs(c) != 1 or not fm: continue
            kk = (sum(e for _, e in fm), sum(e for _, e in om), [-a.id for a, _ in m])
            if lead is None or kk > lead[0]: lead = (kk, m, c, fm, om)
        if lead is None: continue
        _, lm, lc, fm, om = lead
        rest = rsub(q, mkpoly({lm: lc})); rest = rneg(rest) if lc == 1 else rest
        for _ in range(30):
            hit = None
            for m, c in p.args[0]:
                dm = dict(m)
                if not all(dm.get(a, 0) >= e for a, e in om): continue
                for a, e in m:
                    if a.op != 'sum' or a.args[0].sort != v.sort: continue
                    body = mons(subst(a.args[2], {a.args[0]: v}))
                    if len(body) != 1: continue
                    (bm, bc), = body.items(); bd = dict(bm)
                    if not all(bd.get(x, 0) >= y for x, y in fm): continue
                    cd = subst(a.args[1], {a.args[0]: v})
                    if cd is not d and check([x for x in pc if x.op != 'forall'], conj(cd) + [not_(d)]) != 'unsat': continue
                    for x, y in fm: bd[x] -= y
                    w = mkpoly({tuple(sorted(((x, y) for x, y in bd.items() if y), key=lambda t: t[0].id)): bc})
                    dm[a] -= 1
                    for x, y in om: dm[x] -= y
                    outer = mkpoly({tuple(sorted(((x, y) for x, y in dm.items() if y), key=lambda t: t[0].id)): c})
                    nv = fresh_var(v.sort, 'k')
                    hit = (m, rmul(outer, rsum(nv, subst(cd, {v: nv}), subst(rmul(w, rest), {v: nv})))); break
                if hit: break
            if not hit: break
            p = radd(rsub(p, mkpoly({hit[0]: dict(p.args[0])[hit[0]]})), hit[1])
            if rconst(p) is not None: return p
    return p
def pointwise_zero(p, pc):
    """group monomials by skeleton (free atoms, sum bodies); each group must vanish pointwise"""
    p = resolve_ints(p, pc)
    if rconst(p) is not None: return rconst(p) == 0
    groups = {}
    for m, c in p.args[0]:
        plain = []; sums = []; cond = TRUE
        for a, e in m:
            if a.op == 'ind': cond = and_(cond, a.args[0])
            elif a.op == 'sum':
                for _ in range(e): sums.append(a)
            else: plain.append((a, e))
        sums.sort(key=lambda a: (a.args[2].id, a.args[0].sort))
        sk = (tuple(plain), tuple((a.args[0], a.args[2]) for a in sums))
        groups.setdefault(sk, []).append((c, cond, [a.args[1] for a in sums]))
    # fold in plain monomials that are instances of a sum body
    groups = absorb_instances(groups, pc)
    for (plain, bodies), items in groups.items():
        # rename bound variables apart
        vs = []; its = []
        fresh = [fresh_var(v.sort) for v, _ in bodies]
        for c, cond, conds in items:
            d = cond
            for (v, b), fvv, cc in zip(bodies, fresh, conds): d = and_(d, subst(cc, {v: fvv}))
            its.append((c, d))
        if len(bodies) > 1 and len(set(b for _, b in bodies)) < len(bodies):
            pass   # identical bodies: conditions could be permuted; pointwise check below is still sound
        if not indicator_zero(its, pc): return False
    return True

def indicator_zero(items, pc):
    """sum c_j*1[d_j] == 0 for every valuation consistent with pc"""
    # merge identical
    d = {}
    for c, cond in items: d[cond] = d.get(cond, 0) + c
    d = {k: c for k, c in d.items() if c and k is not FALSE}
    if not d: return True
    conds = list(d)
    if len(conds) > 9: return False
    # quick: drop unsatisfiable
    conds = [c for c in conds if not infeasible(pc, [c])]
    if not conds: return True
    # pair up equivalent conditions first
    def rec(i, asm, tot):
        if i == len(conds):
            if tot == 0: return True
            return infeasible(pc, asm)
        # prune
        if i and infeasible(pc, asm): return True
        c = conds[i]
        return rec(i + 1, asm + [c], tot + d[c]) and rec(i + 1, asm + [not_(c)], tot)
    return rec(0, [], 0)

def resolve_ints(p, pc):
    """replace nneg(n) by n when n>=0 is known (pow exponents); decide 'ind' conditions"""
    sub = {}
    def go(t):
        if t.op == 'nneg' and not any(v.args[0][0] == '%' for v in fv(t)):
            if check(pc, [lt(t.args[0], ZERO)]) == 'unsat': sub[t] = t.args[0]
        for x in args_terms(t): go(x)
    seen = set()
    go(p)
    if sub:
        def f(x):
            if x in sub: return sub[x]
            if not x.args or x.op in ('sym', 'var', 'num', 'str'): return x
            return rebuild(x, f)
        p = f(p)
    return p

def match_body(b, v, m, out):
    """match monomial-poly body b (with var v) against poly m; returns value for v or None"""
    res = []
    def go(x, y):
        if x is y: return not dep(x, v) if isinstance(x, T) else True
        if isinstance(x, T) and isinstance(y, T):
            if not dep(x, v): return x is y
            if x.sort == 'I' and x.op in ('var', 'lin'):
                c, d = lin(x)
                k = d.pop(v, 0)
                if abs(k) == 1 and not any(dep(a, v) for a in d) and y.sort == 'I':
                    val = iscale(isub(y, mklin(c, d)), k)
                    res.append(val); return True
                return False
            if x is v: res.append(y); return True
            if x.op != y.op or x.sort != y.sort: return False
            if x.op == 'poly':
                if len(x.args[0]) != len(y.args[0]): return False
                ysort = list(y.args[0])
                # only handle single-monomial or positional matching
                for (m1, c1), (m2, c2) in zip(x.args[0], ysort):
                    if c1 != c2 or len(m1) != len(m2): return False
                    used = [False] * len(m2)
                    for a, e in m1:
                        ok = False
                        for i, (a2, e2) in enumerate(m2):
                            if used[i] or e2 != e: continue
                            n = len(res)
                            if go(a, a2) or a is a2:
                                used[i] = True; ok = True; break
                            del res[n:]
                        if not ok: return False
                return True
            return go(x.args, y.args)
        if isinstance(x, tuple) and isinstance(y, tuple):
            return len(x) == len(y) and all(a is b or go(a, b) for a, b in zip(x, y))
        return x == y
    if go(b, m) and res: return res
    return None

def absorb_instances(groups, pc):
    """a plain monomial equal to body(t)*rest of a sum group joins the group with cond v==t"""
    keys = list(groups)
    singles = [k for k in keys if len(k[1]) == 1]
    for k in keys:
        if k[1] or k not in groups: continue
        plain = k[0]
        done = False
        for sk in singles:
            v, b = sk[1][0]
            bm = list(mons(b).items())[0][0]
            want = mkpoly({tuple(sk[0]): 1})
            cands = []
            for a, e in bm:
                if not dep(a, v): continue
                for a2, e2 in plain:
                    if a2.op == a.op and a2.op != 'pow':
                        r = match_body(fromatom(a), v, fromatom(a2), None)
                        if r and r[0] not in cands and all(x is r[0] or entails(pc, eq(x, r[0])) for x in r[1:]): cands.append(r[0])
            if not cands:
                for a, e in bm:
                    if a.op == 'pow' and dep(a, v):
                        for a2, e2 in plain:
                            if a2.op == 'pow' and a2.args[0] is a.args[0]:
                                r = match_body(fromatom(a), v, fromatom(a2), None)
                                if r and r[0] not in cands: cands.append(r[0])
                        ep = [a2.args[1] for a2, e2 in plain if a2.op == 'pow' and a2.args[0] is a.args[0] and e2 == 1] or [ZERO]
                        es = [a2.args[1] for a2, e2 in sk[0] if a2.op == 'pow' and a2.args[0] is a.args[0] and e2 == 1] or [ZERO]
                        r = match_body(a.args[1], v, isub(ep[0], es[0]), None) if e == 1 else None
                        if r and r[0] not in cands: cands.append(r[0])
            for t in cands:
                inst = subst(b, {v: t})
                if len(mons(inst)) != 1: continue
                if rmul(mkpoly({tuple(plain): 1}), rinv(inst)) is want:
                    for c, cond, _ in groups.pop(k):
                        groups[sk].append((c, and_(cond), [eq(v, t)]))
                    done = True; break
            if done: break
    return groups
