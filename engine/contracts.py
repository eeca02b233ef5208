"""Contracts on the real functions, and their discharge.

A contract gives, for symbolic arguments, a precondition and a list of cases (condition -> outcome, writes).
Checking runs the function's MIR symbolically for all inputs and proves, for every path outcome and every case
that the path admits, that the outcome and the written parameters equal the specified ones.  Callers see the
contract (Executor.contracts), not the body."""
import ast
import time, traceback, itertools
from execu import *
import models
from models import valterm, valtup, val_eq

class Failed(Exception): pass
DBG = []

# ---------------------------------------------------------------- proving booleans and values
def prove(pc, g, depth=0):
    """pc entails g"""
    pc = tuple(pc)
    if g is TRUE or g in pc: return True
    if g.op == 'and': return all(prove(pc, x, depth) for x in g.args)
    if solver.entails(pc, g): return True
    if depth > 6: return False
    if g.op == 'forall':
        v, b = g.args; nv = fresh_var(v.sort, 'q')
        return prove(pc, subst(b, {v: nv}), depth + 1)
    if g.op == 'or':
        # assume the negation of all but one
        xs = list(g.args)
        for i, x in enumerate(xs):
            if x.op in ('feq0', 'forall', 'and') or (x.op == 'not' and x.args[0].op in ('feq0', 'forall', 'and')) or x.op in ('app', 'le', 'ieq'):
                asm = []
                for y in xs:
                    if y is not x: asm += conj(not_(y))
                if prove_c(pc + tuple(asm), x, depth + 1): return True
        asm = []
        for y in xs: asm += conj(not_(y))
        return contradiction(pc + tuple(asm))
    if g.op == 'feq0':
        if ring_eq0(pc, g.args[0]): return True
        return contradiction(pc + (not_(g),)) or split_inds(pc, g, depth)
    if g.op == 'not':
        return contradiction(pc + tuple(conj(g.args[0])), depth)
    if g.op == 'ieq' or g.op == 'le' or g.op == 'seq' or g.op == 'app':
        if contradiction(pc + (not_(g),)): return True
        return int_congruence(pc, g)
    return False
def prove_c(pc, g, depth):
    return contradiction(pc, depth) or prove(pc, g, depth)

def atoms_ind(t):
    out = []; seen = set()
    def go(x):
        if x in seen: return
        seen.add(x)
        if x.op == 'ind' and not any(v.args[0].startswith('%') for v in fv(x)): out.append(x.args[0])
        elif x.op not in BINDERS:
            for y in args_terms(x): go(y)
    go(t); return out

def split_inds(pc, g, depth):
    """a ring equation with indicators: decided under every assignment of their conditions"""
    p = g.args[0]; cs = []
    for m in mons(p):
        for a, _ in m:
            if a.op == 'ind':
                for c in atoms_b(a.args[0]):
                    if c not in cs: cs.append(c)
    if not cs or depth > 5 or len(cs) > 12: return False
    c = min(cs, key=lambda c: c.id)
    for x in (c, not_(c)):
        pc2 = pc + tuple(conj(x))
        if solver.check(pc2) == 'unsat': continue
        q = subst(p, {c: TRUE if x is c else FALSE})
        if x is c:
            # the other conditions this one decides (the same enum, say)
            sub = {o: FALSE for o in cs if o is not c and solver.entails(pc2, not_(o))}
            if sub: q = subst(q, sub)
        if not prove(pc2, feq0(q), depth + 1): return False
    return True
def assume_ind(p, c, val):
    d = {}
    res = R0
    for m, k in mons(p).items():
        t = rnum(k); ok_ = True
        for a, e in m:
            if a.op == 'ind' and (a.args[0] is c or c in conj(a.args[0])):
                if not val: ok_ = False; break
                rest = [x for x in conj(a.args[0]) if x is not c]
                t = rmul(t, ind(and_(*rest)))
            else: t = rmul(t, mkpoly({((a, e),): 1}))
        if ok_: res = radd(res, t)
    return res

class Budget(Exception): pass
_bud = [None]
def refuted(pc, secs=60):
    """contradiction, given up (as: not refuted) after a time"""
    if _bud[0] is not None: return contradiction(pc)
    _bud[0] = time.time() + secs
    try: return contradiction(pc)
    except Budget: return False
    finally: _bud[0] = None
def contradiction(pc, depth=0):
    pc = tuple(pc)
    if _bud[0] is not None and time.time() > _bud[0]: raise Budget()
    if FALSE in pc: return True
    s = set(pc)
    for c in pc:
        if not_(c) in s: return True
    if solver.check(pc) == 'unsat': return True
    for c in pc:
        if c.op == 'not' and c.args[0].op == 'feq0' and ring_eq0([x for x in pc if x is not c], c.args[0].args[0]): return True
    for c in pc:      # the negation of a conjunction of identities
        if c.op == 'not' and c.args[0].op == 'and':
            rest = [x for x in pc if x is not c]
            if any(x.op == 'feq0' for x in conj(c.args[0])) and all(ring_eq0(rest, x.args[0]) if x.op == 'feq0' else x in s or solver.entails(rest, x) for x in conj(c.args[0])): return True
    nzs = [c.args[0].args[0] for c in pc if c.op == 'not' and c.args[0].op == 'feq0']
    # an equation and its negation written differently
    eqs_ = [c for c in pc if c.op == 'feq0' and any(a.op == 'sum' for m in mons(c.args[0]) for a, _ in m)]
    if eqs_ and len(eqs_) * len(nzs) <= 12:
        for c in eqs_:
            rest = [x for x in pc if x is not c and not (x.op == 'not' and x.args[0].op == 'feq0')]
            for q in nzs:
                if any(a.op == 'sum' for m in mons(q) for a, _ in m) and (ring_eq0(rest, rsub(c.args[0], q)) or ring_eq0(rest, radd(c.args[0], q))): return True
    if 2 <= len(nzs) <= 6:
        # a product of non-zero elements is non-zero
        rest = [x for x in pc if not (x.op == 'not' and x.args[0].op == 'feq0')]
        if any(x.op == 'feq0' for x in rest):
            for i in range(len(nzs)):
                for j in range(i):
                    if len(mons(nzs[i])) * len(mons(nzs[j])) <= 40 and ring_eq0(rest, rmul(nzs[i], nzs[j])): return True
    if pigeonhole(pc): return True
    # a negated universal: skolemise; disjunctions: case split
    if depth > 4: return False
    for c in pc:
        if c.op == 'not' and c.args[0].op == 'forall':
            v, b = c.args[0].args; nv = fresh_var(v.sort, 'q')
            rest = tuple(x for x in pc if x is not c)
            body = conj(not_(subst(b, {v: nv})))
            inst = instances(rest, nv)
            if contradiction(rest + tuple(body) + tuple(inst), depth + 1): return True
    for c in pc:
        if c.op == 'not' and c.args[0].op == 'and':
            rest = tuple(x for x in pc if x is not c); okk = True
            for y in sorted(c.args[0].args, key=lambda y: (has_ring(y), y.id)):
                if not prove(rest, y, depth + 1): okk = False; break
                rest += (y,)
            if okk: return True
            continue
        elif c.op == 'or' and (has_ring(c) or has_count(c)): c2 = c.args
        else: continue
        if len(c2) <= 6 and depth < 3:
            rest = tuple(x for x in pc if x is not c)
            if all(contradiction(rest + tuple(conj(y)), depth + 1) for y in c2): return True
            break
    return False
def has_count(c):
    r = _hc.get(c)
    if r is None: r = _hc[c] = c.op == 'count' or any(has_count(x) for x in args_terms(c))
    return r
def pigeonhole(pc):
    """#{v|P} > t >= 0 although P(v) implies 0 <= v < t"""
    for c in pc:
        if c.op != 'le': continue
        k0, d = lin(c.args[0])
        for a, k in d.items():
            if a.op == 'count' and k == -1 and a.args[0].sort == 'I':
                t = iadd(isub(c.args[0], num(0)), iadd(a, num(-1)))       # c: t - count + 1 <= 0
                v, P = a.args; nv = fresh_var('I', 'q')
                P = subst(P, {v: nv}); rest = tuple(x for x in pc if x is not c)
                hyp = rest + tuple(conj(P)) + tuple(instances(rest, nv))
                if solver.check(rest + (lt(t, ZERO),)) == 'unsat' and solver.check(hyp + (not_(and_(le(ZERO, nv), lt(nv, t))),)) == 'unsat': return True
    return False
_hr = {}
def has_ring(c):
    r = _hr.get(c)
    if r is None: r = _hr[c] = c.op == 'feq0' or any(has_ring(x) for x in args_terms(c) if x.sort == 'B')
    return r
_hc = {}
def instances(pc, t):
    out = []
    for c in pc:
        if c.op == 'forall' and c.args[0].sort == t.sort:
            out += conj(subst(c.args[1], {c.args[0]: t}))
    return out

def sort_of_t(a): return a.sort

def prove_eq(pc, a, b):
    """terms of the same sort"""
    if a is b: return True
    if a.sort == 'F': return ring_eq0(pc, rsub(a, b)) or split_inds(tuple(pc), T('feq0', (rsub(a, b),), 'B'), 0)
    if a.sort == 'B': return prove(tuple(pc) + tuple(conj(a)), b) and prove(tuple(pc) + tuple(conj(b)), a)
    if a.sort == 'I':
        if solver.entails(pc, eq(a, b)): return True
        return teq(pc, a, b)
    if a.sort == 'S':
        if solver.entails(pc, eq(a, b)): return True
        return teq(pc, a, b)
    return teq(pc, a, b)

def teq(pc, a, b, d=0):
    """structural equality modulo pc"""
    if a is b: return True
    if isinstance(a, T) and isinstance(b, T):
        if a.sort != b.sort: return False
        if a.op == 'poly' and a.sort == 'F':
            if d >= 8: return False
            g = rsub(a, b)
            if ring_eq0(pc, g, d + 1): return True
            return d < 7 and bool(SPLIT[0]) and split_inds(tuple(pc), T('feq0', (g,), 'B'), 2)
        if b.op == 'poly' and b.sort == 'F': return False
        if a.op == b.op and a.op not in ('poly', 'lin', 'num', 'sym', 'var') and d < 12:
            if a.op == 'count':
                v, w = a.args[0], b.args[0]
                if v.sort != w.sort: return False
                nv = fresh_var(v.sort, 'q')
                return prove_eq(pc, subst(a.args[1], {v: nv}), subst(b.args[1], {w: nv}))
            if a.op == 'lam':
                v, w = a.args[0], b.args[0]
                if v.sort != w.sort: return False
                nv = fresh_var(v.sort, 'q')
                x = map_tuple(a.args[1], lambda t: subst(t, {v: nv})); y = map_tuple(b.args[1], lambda t: subst(t, {w: nv}))
                # (cond, body...): conditions equivalent, bodies equal under the condition
                if not (isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y)): return teq(pc, x, y, d + 1)
                if x[0] is not y[0] and not prove_eq(pc, x[0], y[0]): return False
                pc2 = tuple(pc) + tuple(conj(x[0]))
                return all(teq(pc2, p, q, d + 1) for p, q in zip(x[1:], y[1:]))
            if len(a.args) == len(b.args) and all(teq(pc, x, y, d + 1) for x, y in zip(a.args, b.args)): return True
        if a.sort in 'IS': return solver.entails(pc, eq(a, b))
        if a.sort == 'B': return prove_eq(pc, a, b)
        return False
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(teq(pc, x, y, d) for x, y in zip(a, b))
    return a == b

def hash_atoms(t, out=None, seen=None):
    """uninterpreted applications with structured arguments, outermost first"""
    if out is None: out = []; seen = set()
    if t in seen: return out
    seen.add(t)
    if t.op == 'app' and any(isinstance(x, T) and (x.op == 'val' or x.sort == 'F' or (t.sort == 'F' and has_cnt(x))) for x in t.args[1:]): out.append(t)
    for x in args_terms(t): hash_atoms(x, out, seen)
    return out

_hcn = {}
def has_cnt(t):
    r = _hcn.get(t)
    if r is None: r = _hcn[t] = t.op == 'count' or any(has_cnt(x) for x in args_terms(t))
    return r
def simp_inds(pc, p):
    """decide closed indicators under pc"""
    for c in atoms_ind(p):
        if solver.entails(pc, c): p = assume_ind(p, c, True)
        elif solver.check(tuple(pc) + tuple(conj(c))) == 'unsat': p = assume_ind(p, c, False)
    return p
def nonzeros(pc):
    out = []
    for c in pc:
        if c.op == 'not' and c.args[0].op == 'feq0': out.append(c.args[0].args[0])
    return out
def cancel(pc, p):
    """divide p by a factor known to be non-zero"""
    ms = mons(p)
    if not ms: return p
    ats = None
    for m in ms:
        d = dict(m)
        ats = set(d) if ats is None else ats & set(d)
    for a in ats or ():
        q = fromatom(a)
        if not_(feq0(q)) in pc or solver.check(tuple(pc) + (feq0(q),)) == 'unsat': p = rmul(p, rpow_int(q, -min(dict(m)[a] for m in ms)))
    return p
LITE = [False]
SPLIT = [True]
def ring_eq0(pc, p, d=0):
    if solver.ring_zero(p, pc): return True
    if d > 6: return False
    if d == 0 and not LITE[0]:
        pc0 = tuple(pc); eqs = [c for c in pc0 if c.op == 'feq0']; others = tuple(c for c in pc0 if c.op != 'feq0')
        ch = False; done = []
        for c in sorted(eqs, key=lambda c: len(c.args[0].args[0]) if c.args[0].op == 'poly' else 0):
            q = solver.clear_denoms(simp_inds(pc0, c.args[0]))
            if done: q = solver.clear_denoms(solver.apply_eqs(q, done))
            q = cancel(pc0, q)
            if q is not c.args[0]: ch = True
            if rconst(q) == 0: continue
            done.append(feq0(q))
        p2 = cancel(pc0, simp_inds(pc0, p))
        if p2 is not p or ch: return ring_eq0(tuple(done) + others, p2, 1)
    # congruence on uninterpreted applications
    ats = [a for a in hash_atoms(p) if not fv(a) or not any(v.args[0].startswith('%') for v in fv(a))]
    for i, a in enumerate(ats):
        for b in ats[i + 1:]:
            if a.args[0] == b.args[0] and a.sort == b.sort and a is not b and len(a.args) == len(b.args) and teq(pc, a, b, d + 1):
                if contains(b, a): a, b = b, a
                return ring_eq0(pc, subst(p, {a: b if b.sort != 'F' else fromatom(b)}), d + 1)
    return False
def contains(t, a): return t is a or any(contains(x, a) for x in args_terms(t))
def counts(t):
    out = []; seen = set()
    def go(x):
        if x in seen: return
        seen.add(x)
        if x.op == 'count': out.append(x)
        for y in args_terms(x): go(y)
    go(t); return out
def int_congruence(pc, g):
    ats = [a for a in hash_atoms(g) + counts(g) if not any(v.args[0].startswith('%') for v in fv(a))]
    for i, a in enumerate(ats):
        for b in ats[i + 1:]:
            if a.op == b.op and (a.op == 'count' or a.args[0] == b.args[0]) and a.sort == b.sort and a is not b and teq(pc, a, b):
                return prove(pc, subst(g, {a: b if b.sort != 'F' else fromatom(b)}))
    return False

def hashed(t):
    """a term that is one function of (what identifies) a sequence"""
    if not isinstance(t, T): return False
    if t.op == 'poly':
        ms = mons(t); return len(ms) == 1 and all(len(m) == 1 and hashed(m[0][0]) for m in ms)
    return t.op == 'app' and any(isinstance(x, T) and x.op == 'val' for x in t.args)
def onlyatom(t):
    (m, k), = mons(t).items(); (a, e), = m
    assert k == e == 1; return a
def enc_of(g):
    """(encoding, value, length function) when the segment is all the bytes of one encoded value"""
    if len(g.body) != 1 or not isinstance(g.body[0], One) or g.var.sort != 'I': return None
    t = g.body[0].v; r = range_of(g.var, g.cond)
    if not (isinstance(t, T) and t.op == 'app' and len(t.args) == 3 and t.args[0].startswith('enc.') and t.args[2] is g.var and g.var not in fv(t.args[1])): return None
    if r is None or r[2] or r[0] is not ZERO: return None
    if r[1].op == 'app' and len(r[1].args) == 2 and r[1].args[1] is t.args[1]: return t.args[0], t.args[1], r[1].args[0]
    if r[1].op == 'num': return t.args[0], t.args[1], r[1]
    return None
def unval(t):
    """the value a tuple of valtup stands for"""
    if isinstance(t, T): return t
    k = t[0]
    if k == 'seq': return Seq([unval(x) for x in t[1:]])
    if k == 'one': return One(unval(t[1]))
    if k == 'guard': return Guard(t[1], [unval(x) for x in t[2:]])
    if k == 'tup': return Tup([unval(x) for x in t[1:]])
    if k == 'comp':
        nv, body = t[1].args; v = fresh_var(nv.sort, 'k'); body = map_tuple(body, lambda x: subst(x, {nv: v}))
        return Comp(v, body[0], [unval(x) for x in body[1:]], ast.literal_eval(t[2]))
    raise Unsupported('unval %s' % k)
class Cmp:
    """compares an actual value with the specified one under a path condition; collects mismatches"""
    def __init__(s, ex): s.ex = ex; s.bad = []; s.sub = {}
    def cong(s, st, a, b):
        """equal because the same function is applied to sequences that compare equal under the path condition (hashes of equal bytes)"""
        if not (hashed(a) and hashed(b)): return False
        if a.op == 'poly':
            a, b = mons(a), mons(b)
            if len(a) != 1 or len(b) != 1: return False
            (((x, i),), k), (((y, j),), l) = list(a.items())[0], list(b.items())[0]
            return (i, k) == (j, l) and s.cong2(st, x, y)
        return s.cong2(st, a, b)
    def cong2(s, st, a, b):
        if a is b: return True
        if isinstance(a, tuple):
            if not isinstance(b, tuple) or len(a) == 0 or len(b) == 0 or a[0] != b[0]: return False
            if a[0] != 'seq': return len(a) == len(b) and all(s.cong2(st, x, y) for x, y in zip(a, b))
            try: x, y = unval(a), unval(b)
            except (Unsupported, ValueError, SyntaxError): return False
            cm = Cmp(s.ex); cm.val(st, x, y); return not cm.bad
        if not isinstance(a, T) or not isinstance(b, T): return a == b
        if a.op == b.op == 'app' and a.args[0] == b.args[0] and len(a.args) == len(b.args) and hashed(a): return all(s.cong2(st, x, y) for x, y in zip(a.args, b.args))
        if a.op == b.op == 'val': return s.cong2(st, a.args[0], b.args[0])
        return a.sort == b.sort and prove_eq(st.pc, a, b)
    def fail(s, path, msg): s.bad.append('%s: %s' % (path or 'result', msg)); return False
    def val(s, st, a, b, path=''):
        ex = s.ex
        a = ex.deref(st, a) if isinstance(a, MRef) else a
        if b is ANY: return True
        if any(isinstance(x, Adt) and x.path.split('::')[-1] == 'PhantomData' for x in (a, b)): return True
        if callable(b) and not isinstance(b, (T, V)): return b(s, st, a, path)
        b = ex.deref(st, b) if isinstance(b, MRef) else b
        if isinstance(a, (T, V)) and isinstance(b, (T, V)) and same(a, b): return True
        for x, y, flip in ((a, b, False), (b, a, True)):
            if isinstance(x, IteV):
                okk = True
                for c, w in ((x.c, x.a), (not_(x.c), x.b)):
                    s2 = st.fork().assume(c)
                    if contradiction(s2.pc): continue
                    okk = (s.val(s2, y, w, path) if flip else s.val(s2, w, y, path)) and okk
                return okk
        if isinstance(a, T) and isinstance(b, T):
            if a.sort != b.sort: return s.fail(path, 'sort %s/%s' % (a.sort, b.sort))
            if s.cong(st, a, b): return True
            if prove_eq(st.pc, a, b): return True
            return s.fail(path, 'is %s; specified %s' % (short(a), short(b)))
        if isinstance(a, Adt) and isinstance(b, Adt):
            if a.path.split('::')[-1] != b.path.split('::')[-1] or a.vi != b.vi or len(a.fs) != len(b.fs): return s.fail(path, 'is %s; specified %s' % (short(a), short(b)))
            nm = s.ex.fieldnames(a)
            r = True
            for i, (x, y) in enumerate(zip(a.fs, b.fs)): r = s.val(st, x, y, path + '.' + (nm[i] if nm else (a.vn if len(a.fs) == 1 else str(i)))) and r
            return r
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.fs) != len(b.fs): return s.fail(path, 'arity')
            r = True
            for i, (x, y) in enumerate(zip(a.fs, b.fs)): r = s.val(st, x, y, path + '.%d' % i) and r
            return r
        if isinstance(a, Adt) and len(a.fs) == 1 and isinstance(b, T): return s.val(st, a.fs[0], b, path)
        if isinstance(a, Seq) and isinstance(b, Seq): return s.seq(st, a, b, path)
        if isinstance(a, MapV) and isinstance(b, MapV):
            if a.var.sort != b.var.sort: return s.fail(path, 'key sort')
            v = fresh_var(a.var.sort, 'key')
            da = subst(a.dom, {a.var: v}); db = subst(b.dom, {b.var: v})
            if not prove_eq(st.pc, da, db): return s.fail(path, 'keys %s; specified %s' % (short(da), short(db)))
            s2 = st.fork().assume(da)
            if a.val is None or b.val is None: return a.val is b.val
            return s.val(s2, vsub(a.val, {a.var: v}), vsub(b.val, {b.var: v}), path + '[key]')
        if isinstance(a, Obj) and isinstance(b, Obj) and a.kind == b.kind and a.d.keys() == b.d.keys():
            r = True
            for k in a.d:
                x, y = a.d[k], b.d[k]
                if isinstance(x, (T, V)) and isinstance(y, (T, V)): r = s.val(st, x, y, path + '.' + k) and r
                elif x != y: return s.fail(path + '.' + k, 'is %s; specified %s' % (short(x), short(y)))
            return r
        return s.fail(path, 'is %s; specified %s' % (short(a), short(b)))
    def seq(s, st, a, b, path):
        ex = s.ex
        A = ex.norm_segs(list(a.segs)); B = ex.norm_segs(list(b.segs))
        n0 = len(s.bad)
        if s.segs(st, list(A), list(B), path): return True
        keep = s.bad[n0:]; del s.bad[n0:]
        # generic element
        try:
            la, lb = ex.segs_len(A), ex.segs_len(B)
            if not prove_eq(st.pc, la, lb): return s.fail(path, 'length %s; specified %s' % (short(la), short(lb)))
            i = fresh_var('I', 'i')
            s2 = st.fork().assume(le(ZERO, i), lt(i, la))
            x = ex.segs_get(s2, A, i, s2.pc); y = ex.segs_get(s2, B, i, s2.pc)
            return s.val(s2, x, y, path + '[i]')
        except Unsupported as e:
            s.bad += keep or ['%s: sequences not matched (%s)' % (path, e)]
            return False
    def segs(s, st, A, B, path):
        ex = s.ex; pos = 0
        while A or B:
            if A and isinstance(A[0], Guard) or B and isinstance(B[0], Guard):
                g = A[0] if A and isinstance(A[0], Guard) else B[0]
                other = B if g is (A[0] if A else None) else A
                if len(A) and len(B) and isinstance(A[0], Guard) and isinstance(B[0], Guard) and prove_eq(st.pc, A[0].cond, B[0].cond):
                    s2 = st.fork().assume(A[0].cond)
                    if not contradiction(s2.pc) and not s.segs(s2, list(A[0].body), list(B[0].body), path): return False
                    A = A[1:]; B = B[1:]; continue
                r = True
                for c, v in ((g.cond, True), (not_(g.cond), False)):
                    s2 = st.fork().assume(c)
                    if contradiction(s2.pc): continue
                    if A and g is A[0]: r = s.segs(s2, (list(g.body) if v else []) + A[1:], list(B), path) and r
                    else: r = s.segs(s2, list(A), (list(g.body) if v else []) + B[1:], path) and r
                return r
            if not A or not B:
                rest = A or B
                if prove(st.pc, eq(ex.segs_len(rest), ZERO)): return True
                return s.fail(path, '%s elements: %s' % ('extra' if A else 'missing', short(rest)))
            g, h = A[0], B[0]
            if isinstance(g, One) and isinstance(h, One):
                if not s.val(st, g.v, h.v, '%s[%d]' % (path, pos)): return False
                A = A[1:]; B = B[1:]; pos += 1; continue
            if isinstance(g, Comp) and isinstance(h, Comp) and g.var.sort == h.var.sort:
                if prove(st.pc, eq(ex.seg_len(g), ZERO)): A = A[1:]; continue
                if prove(st.pc, eq(ex.seg_len(h), ZERO)): B = B[1:]; continue
                n0 = len(s.bad)
                if s.comps(st, g, h, path): A = A[1:]; B = B[1:]; continue
                return False
            # unroll one element of a dense range against a single element
            r = None
            if isinstance(g, Comp) and isinstance(h, One): r = s.first(st, g); side = 0
            elif isinstance(h, Comp) and isinstance(g, One): r = s.first(st, h); side = 1
            if r is None: return s.fail(path, 'sequence shapes %s / %s' % (short(A), short(B)))
            if r == 'empty':
                if side == 0: A = A[1:]
                else: B = B[1:]
                continue
            if side == 0: A = list(r) + A[1:]
            else: B = list(r) + B[1:]
        return True
    def first(s, st, g):
        rg = s.ex.comp_range(g)
        if rg is None or rg[1] is None: return None
        if prove(st.pc, le(rg[1], rg[0])): return 'empty'
        if not prove(st.pc, lt(rg[0], rg[1])): return None
        one = [segsub(x, {g.var: rg[0]}) for x in g.body]
        lo = iadd(rg[0], ONE)
        return one + [Comp(g.var, and_(le(lo, g.var), lt(g.var, rg[1])), g.body, g.order)]
    def comps(s, st, g, h, path):
        x, y = enc_of(g), enc_of(h)
        if x and y and x[0] == y[0] and x[2] == y[2] and x[1].sort == y[1].sort and prove_eq(st.pc, x[1], y[1]): return True
        k = fresh_var(g.var.sort, 'k')
        if g.order != h.order and not (g.var.sort == 'I' and False): return s.fail(path, 'iteration order %s / %s' % (g.order, h.order))
        cg = subst(g.cond, {g.var: k}); 
        ra, rb = s.ex.comp_range(g), s.ex.comp_range(h)
        off = ZERO
        if ra and rb and ra[1] is not None and rb[1] is not None and ra[0] is not rb[0]: off = isub(rb[0], ra[0])
        hk = iadd(k, off) if k.sort == 'I' else k
        ch = subst(h.cond, {h.var: hk})
        if not prove_eq(st.pc, cg, ch): return s.fail(path, 'index set %s; specified %s' % (short(cg), short(ch)))
        s2 = st.fork().assume(cg)
        if contradiction(s2.pc): return True
        return s.segs(s2, [segsub(x, {g.var: k}) for x in g.body], [segsub(x, {h.var: hk}) for x in h.body], path + '[k]')

def short(x, n=400):
    r = repr(x)
    return r if len(r) <= n else r[:n] + '…'

# ---------------------------------------------------------------- contracts
class Case:
    def __init__(s, cond, out, writes, label, facts=()): s.facts = facts; s.cond = cond; s.out = out; s.writes = writes or {}; s.label = label
class Spec:
    """collects the specification of one call"""
    def __init__(s, ex, st, crate, mode): s.ex = ex; s.st = st; s.crate = crate; s.mode = mode; s.cases = []; s.reqs = []; s.wits = []; s.facts = []
    def req(s, *cs): s.reqs += cs
    def case(s, cond, out, writes=None, label='', facts=()):
        s.cases.append(Case(cond, out, writes, label or 'case%d' % len(s.cases), facts))
    def ok(s, cond, v, writes=None, label='Ok', facts=()): s.case(cond, ('ret', ok(v)), writes, label, facts)
    def err(s, cond, writes=None, label='Err'): s.case(cond, ('ret', err(ANY)), writes, label)
    def ret(s, cond, v, writes=None, label='ret'): s.case(cond, ('ret', v), writes, label)
    def free(s, cond, label='unspecified'): s.case(cond, ('any', None), None, label)
    def wit(s, name, sort='F', bind=None, nonzero=False):
        t = sym('W.' + name, sort) if sort != 'F' else fsym('W.' + name)
        s.wits.append((t, bind, nonzero, name)); return t
    def witfn(s, name, bind='any'):
        """an existentially quantified sequence of field elements; bind: 'any' (some random sequence drawn) or (ex, st, v) -> k -> term"""
        t = FnW('W.' + name); s.wits.append((t, bind, False, name)); return t
    # values
    def fact(s, *ts): s.facts += ts
    def f(s, v, path): return s.ex.getf(s.st, v, path)
    def mk(self, name, **kw): return self.ex.mkadt(self.crate, name, kw)
    def len(s, v): return s.ex.seq_len(s.D(v))
    def D(s, v): return s.ex.deref(s.st, v)
    def at(s, v, i): return s.ex.seq_get(s.st, s.D(v), i)
    def idx(s): return fresh_var('I', 'k')
    def sum(s, lo, hi, f, cond=None):
        k = fresh_var('I', 'k'); c = and_(le(_t(lo), k), lt(k, _t(hi)))
        if cond is not None: c = and_(c, cond(k))
        return rsum(k, c, f(k))
    def all(s, lo, hi, f):
        k = fresh_var('I', 'k'); return forall(k, and_(le(_t(lo), k), lt(k, _t(hi))), f(k))
    def seq(s, *parts):
        """One values, or (lo, hi, f[, cond]) ranges, or Seq"""
        segs = []
        for p in parts:
            if isinstance(p, Seq): segs += list(p.segs)
            elif isinstance(p, tuple):
                k = fresh_var('I', 'k'); c = and_(le(_t(p[0]), k), lt(k, _t(p[1])))
                if len(p) > 3: c = and_(c, p[3](k))
                b = p[2](k)
                segs.append(Comp(k, c, [One(b)]) if not isinstance(b, Seq) else Comp(k, c, list(b.segs)))
            else: segs.append(One(p))
        return Seq(segs)
    def has(s, m, k):
        m = s.D(m); return subst(m.dom, {m.var: k})
    def get(s, m, k):
        m = s.D(m); return vsub(m.val, {m.var: k})
def _t(x): return num(x) if isinstance(x, int) else x

class Contract:
    def __init__(s, crate, ident, fn, n=0, opts=None): s.crate = crate; s.ident = ident; s.fn = fn; s.n = n; s.opts = opts or {}
    def build(s, ex, st, args, mode):
        c = Spec(ex, st, s.crate, mode)
        s.fn(c, *[ex.deref(st, a) for a in args])
        rest = not_(or_(*[k.cond for k in c.cases]))
        return c
    def apply(s, ex, fr, st, args):
        """at a call site: one successor per case that the caller admits"""
        c = s.build(ex, st, args, 'apply')
        for r in c.reqs:
            if not prove(st.pc, r): raise Unsupported('precondition of %s not established: %s' % (s.ident, short(r, 150)))
        out = []
        sub = {}
        fns = {}
        for t, bind, nz, name in c.wits:
            if isinstance(t, FnW):
                nm = 'rnd.%s!%d' % (name, next(terms_fresh)); ex.fresh_names.append(nm)
                fns[t.name] = lambda k, nm=nm: fapp(nm, (k,)); continue
            sub[atom(t)] = ex.fresh(('rnd.nz.' if nz else 'rnd.') + name, t.sort)
        for k in c.cases:
            cond = subst(fnsub(k.cond, fns), sub)
            st2 = st.fork().assume(cond)
            if FALSE in st2.pc or contradiction(st2.pc): continue
            if len(c.cases) > 1 and prove(st.pc, cond): st2.pc = st.pc
            for f_ in list(c.facts) + list(k.facts): st2.assume(subst(fnsub(f_, fns), sub))
            if k.out[0] == 'any': raise Unsupported('call of %s outside its contract' % s.ident)
            if k.out[0] == 'ret' and k.out[1] is None: raise Unsupported('contract case of %s' % s.ident)
            for i, w in k.writes.items(): models.setref(ex, st2, args[i], vsub(fnsub(w, fns), sub))
            o = k.out
            if o[0] == 'ret':
                v = vsub(fnsub(o[1], fns), sub)
                if isinstance(v, Adt) and v.vn == 'Err': v = err(ERRV)
                o = ('ret', v)
            out.append((st2, o))
        return out
class FnW:
    def __init__(s, name): s.name = name
    def __call__(s, k): return fapp(s.name, (k,))
def fnsub(v, fns):
    """replace the witness sequences by the given ones"""
    if not fns: return v
    memo = {}
    def go(t):
        if t in memo: return memo[t]
        if not any(a.op in ('app', 'sym') and a.args[0] in fns for a in atoms_of(t)): r = t
        elif t.op in ('app', 'sym') and t.args[0] in fns:
            a = t.args[1] if isinstance(t.args[1], T) else t.args[1][0]
            r = fns[t.args[0]](go(a))
        else: r = rebuild(t, go)
        memo[t] = r; return r
    return vmap(v, go)
def atom(t): return t if isinstance(t, FnW) else mons(t) and list(mons(t))[0][0][0] if t.sort == 'F' else t

def subterm_atoms(t, seen=None):
    if seen is None: seen = set()
    out = []
    def go(x):
        if x in seen: return
        seen.add(x)
        if x.op == 'sym': out.append(x)
        for y in args_terms(x): go(y)
    go(t); return out

class Result:
    def __init__(s): s.obs = []      # (name, status, detail, seconds)
    def add(s, name, status, detail='', secs=0.0):
        if status == 'failed' and 'nth(lam(' in str(detail): status = 'undecided'      # about an element that only has a name
        s.obs.append((name, status, detail, secs))
    def bad(s): return [o for o in s.obs if o[1] == 'failed']
    def und(s): return [o for o in s.obs if o[1] == 'undecided']

def sym_args(ex, fn, crate, types=None, names=None):
    st = State(); args = []
    fn.parse()
    nm = fn.argnames() if hasattr(fn, 'argnames') else None
    for j, n in enumerate(fn.args):
        ty = parse_ty(fn.locals[n])
        t2 = (types or {}).get(j)
        if t2 is not None: ty2 = parse_ty(t2) if isinstance(t2, str) else t2
        else: ty2 = ty
        v = ex.mk_sym(ty2, 'a%d' % j, (), crate)
        if ty.k == 'refmut':
            st.mem[('arg', j)] = v; v = MRef('arg', j, [])
        args.append(v)
    return st, args

def check_contract(ex, con, res, limit=60):
    """discharge every obligation of one contract"""
    t0 = time.time(); name = con.ident; limit = con.opts.get('limit', limit)
    ex.deadline = time.time() + limit
    try:
        info = ex.prog.get(con.ident, con.crate, con.n)
        fn = info.fn; fn.parse()
        st, args = sym_args(ex, fn, con.crate, con.opts.get('types'))
        pre = {j: ex.deref(st, a) for j, a in enumerate(args)}
        c = con.build(ex, st, args, 'check')
        st.assume(*c.reqs)
        if not st.feasible(): raise Unsupported('precondition is unsatisfiable')
        ex.nocontract = {con.ident}
        ex.inv_cache = None
        outs = ex.run_fn(fn, args, st, con.opts.get('tysub', {}), 0, con.crate)
    except Unsupported as e:
        res.add(name, 'undecided', '%s' % e, time.time() - t0); return
    except RecursionError as e:
        res.add(name, 'undecided', 'recursion', time.time() - t0); return
    except Exception as e:
        res.add(name, 'undecided', 'internal: %s %s' % (e, traceback.format_exc()[-300:]), time.time() - t0); return
    try:
        # the cases cover every input allowed by the precondition
        base = State({}, st.pc)
        okc = prove(st.pc, or_(*[k.cond for k in c.cases]))
        res.add(name + '#cases-cover', 'proved' if okc else 'undecided', '' if okc else 'case conditions do not cover', time.time() - t0)
        seen = set()
        for n, (st2, o) in enumerate(outs):
            skip = []
            for k in c.cases:
                t1 = time.time()
                st3 = st2.fork().assume(k.cond)
                if FALSE in st3.pc or refuted(st3.pc): continue
                lab = '%s#%s/path%d' % (name, k.label, n)
                if k.out[0] == 'any': continue
                seen.add(k.label)
                bad = compare_outcome(ex, st3, o, k, c, args)
                if bad is None: skip.append(lab); continue
                skip.append(None)
                if not con.opts.get('check_only') and o[0] == 'ret':
                    cm = Cmp(ex)
                    for j, a in enumerate(args):
                        if isinstance(a, MRef) and j not in k.writes: cm.val(st3, a, pre[j], 'arg%d (not to be written)' % j)
                    bad = bad + cm.bad
                res.add(lab, 'failed' if bad else 'proved', '\n'.join(bad) + ('\n  path condition: %s' % short(st2.pc, 1200) if bad else ''), time.time() - t1)
                if bad and time.time() > ex.deadline: return
                if time.time() > ex.deadline + limit: raise Unsupported('time limit')
            if skip and not any(x is None for x in skip): res.add(skip[0], 'failed', 'no case of the specification fits the choices made')
        for k in c.cases:
            if k.label not in seen and k.out[0] != 'any' and not k.label.endswith('?'):
                # vacuous: no path reaches this case although it is satisfiable
                s4 = st.fork().assume(k.cond)
                if not contradiction(s4.pc): res.add('%s#%s' % (name, k.label), 'undecided', 'no path reaches this case', 0)
    except Unsupported as e:
        res.add(name, 'undecided', 'compare: %s' % e, time.time() - t0)
    except Exception as e:
        res.add(name, 'undecided', 'internal: %s %s' % (e, traceback.format_exc()[-400:]), time.time() - t0)

def compare_outcome(ex, st, o, k, c, args):
    if o[0] != k.out[0]: return ['outcome is %s; specified %s' % ('panic (%s)' % o[1] if o[0] == 'panic' else 'return %s' % short(o[1]), k.out[0] if k.out[0] != 'ret' else 'return %s' % short(k.out[1]))]
    if o[0] == 'panic': return []
    spec = k.out[1]; writes = dict(k.writes)
    sub = {}
    tmp = []
    for x in [spec] + list(writes.values()):
        if isinstance(x, (T, V)):
            for t in vterms(x): tmp += subterm_atoms(t)
    tmp = set(tmp)
    names = {a.args[0] for x in [spec] + list(writes.values()) if isinstance(x, (T, V)) for t in vterms(x) for a in atoms_of(t) if a.op in ('app', 'sym')}
    wits = [w for w in c.wits if (w[0].name in names if isinstance(w[0], FnW) else atom(w[0]) in tmp)]
    if wits:
        act = ex.deep(st, o[1])
        leafs = {}
        def walk(a, b):
            if isinstance(a, IteV): a = ex.pick(st, a)
            if isinstance(b, T):
                if b.sort == 'F' and isinstance(a, Adt) and len(a.fs) == 1: a = a.fs[0]
                leafs.setdefault(atom(b) if b.sort == 'F' and len(mons(b)) == 1 else b, a); return
            if isinstance(a, Adt) and isinstance(b, Adt) or isinstance(a, Tup) and isinstance(b, Tup):
                for x, y in zip(a.fs, b.fs): walk(x, y)
            if isinstance(a, Seq) and isinstance(b, Seq):
                for x, y in zip(a.segs, b.segs):
                    if isinstance(x, One) and isinstance(y, One): walk(x.v, y.v)
        walk(act, spec)
        for i, w in writes.items(): walk(ex.deep(st, args[i]), w)
        for t, bind, nz, name in sorted(wits, key=lambda w: isinstance(w[0], FnW)):
            if isinstance(t, FnW):
                if bind == 'any': cands = rnd_seqs(act)
                else:
                    try: cands = [bind(ex, st, act)]
                    except Exception as e: return ['witness %s: %s' % (name, e)]
                if not cands: return ['no witness for %s' % name]
                best = cands[0]; low = None
                for x in cands if len(cands) > 1 else ():
                    cm = Cmp(ex); cm.sub = sub
                    cm.val(st, o[1], vsub(fnsub(spec, {t.name: x}), sub))
                    if low is None or len(cm.bad) < low: best = x; low = len(cm.bad)
                    if not cm.bad: break
                spec = fnsub(spec, {t.name: best}); writes = {i: fnsub(w, {t.name: best}) for i, w in writes.items()}
                continue
            if bind == 'any':
                # existential: some random value drawn on this path
                c1, seen = [], set()
                def cand(x):
                    if x in seen: return
                    seen.add(x)
                    if x.op == 'sym' and str(x.args[0]).startswith('rnd'): c1.append(fromatom(x))
                    for y in args_terms(x): cand(y)
                for x in vterms(act): cand(x)
                c1 = [x for x in c1 if not nz or prove(st.pc, not_(feq0(x))) or ex.negligible(feq0(x), st.pc)] or [R1]
                best = None
                for x in c1:
                    cm = Cmp(ex); cm.sub = {atom(t): x}
                    cm.val(st, o[1], vsub(vsub(spec, sub), cm.sub))
                    if not cm.bad: best = x; break
                v = best if best is not None else c1[0]
            elif bind is not None:
                try: v = bind(ex, st, act)
                except Exception as e: return ['witness %s: %s' % (name, e)]
            else: v = leafs.get(atom(t))
            if v is None or not isinstance(v, T): return ['no witness for %s' % name]
            sub[atom(t)] = v
            if nz and not (prove(st.pc, not_(feq0(v))) or ex.negligible(feq0(v), st.pc)): return ['witness %s may be zero' % name]
        spec = vsub(spec, sub)
        writes = {i: vsub(w, sub) for i, w in writes.items()}
        g = resolve(st.pc, subst(k.cond, sub))
        if g is FALSE or contradiction(st.fork().assume(g).pc): return None        # not the case this choice is in
    spec = resolve(st.pc, spec)
    unbound = {atom(t) for t, *_ in c.wits if not isinstance(t, FnW)} - set(sub)
    for f_ in list(c.facts) + list(k.facts):
        if any(contains(f_, u) for u in unbound): continue          # about a choice that this case does not make
        g = resolve(st.pc, subst(f_, sub))
        if not (prove(st.pc, g) or ex.negligible(not_(g), st.pc)): return ['specified fact %s not established' % short(g, 200)]
    cm = Cmp(ex); cm.sub = sub
    cm.val(st, o[1], spec)
    for i, w in writes.items(): cm.val(st, args[i], w, 'arg%d' % i)
    return cm.bad

def resolve(pc, v):
    """the value with the choices (ite, indicators) that the path decides taken"""
    conds = {}; seen = set()
    def go(t):
        if id(t) in seen: return
        seen.add(id(t))
        if t.op in ('ite', 'ind'):
            for c in atoms_b(t.args[0]): conds.setdefault(c, None)
        for x in args_terms(t): go(x)
    for t in vterms(v): go(t)
    if not conds: return v
    sub = {}
    for c in conds:
        if prove(pc, c): sub[c] = TRUE
        elif prove(pc, not_(c)): sub[c] = FALSE
    return vsub(v, sub) if sub else v
def atoms_b(c):
    if c.op in ('and', 'or', 'not'):
        for x in c.args: yield from atoms_b(x)
    else: yield c
def rnd_seqs(v):
    """the random sequences a value mentions, at index offsets 0, -1, 1"""
    names = []
    for x in vterms(v):
        for a in atoms_of(x):
            if a.op in ('app', 'sym') and str(a.args[0]).startswith('rnd') and len(a.args) > 1 and a.args[0] not in names: names.append(a.args[0])
    return [lambda k, n=n, o=o: fapp(n, (iadd(k, num(o)),)) for n in sorted(names) for o in (0, -1, 1)]

# ---------------------------------------------------------------- lemmas: call sequences over the contracts
class Lemma:
    def __init__(s, crate, name, fn, limit=60): s.crate = crate; s.name = name; s.fn = fn; s.limit = limit
class L:
    """environment of one lemma"""
    def __init__(s, ex, crate, res, name): s.ex = ex; s.crate = crate; s.res = res; s.name = name; s.n = 0; s.st = State(); s.slots = itertools.count()
    def sym(s, ty, name): return s.ex.mk_sym(parse_ty(ty), name, (), s.crate)
    def F(s, n): return fsym(n)
    def spec(s, st): return Spec(s.ex, st, s.crate, 'lemma')
    def mut(s, st, v):
        n = next(s.slots); st.mem[('lem', n)] = v; return MRef('lem', n, [])
    def run(s, st, ident, *args, n=0, tysub=None):
        ex = s.ex; info = ex.prog.get(ident, s.crate, n)
        c = ex.contract_of(info)
        if c is not None: ex.contracts_used.add(info.ident); return c.apply(ex, None, st, list(args))
        ex.inlined.add(info.ident)
        return ex.run_fn(info.fn, list(args), st, tysub or {}, 1, s.crate)
    def must(s, st, ident, *args, what=None, val=None, n=0, tysub=None):
        """the call must return Ok(..)/a value on every path; -> [(st, value)]"""
        out = []; lab = '%s#%s' % (s.name, what or ident); bad = []; t0 = time.time()
        for s2, o in s.run(st, ident, *args, n=n, tysub=tysub):
            if contradiction(s2.pc): continue
            if o[0] == 'panic': bad.append('panics (%s) under %s' % (o[1], short(s2.pc, 4000))); continue
            for s3, v in models.cases(s.ex, s2, o[1]):
                if isinstance(v, Adt) and v.path.split('::')[-1] == 'Result':
                    if v.vn == 'Err':
                        if contradiction(s3.pc): continue
                        bad.append('returns Err under %s' % short([c for c in s3.pc if c not in st.pc], 600)); continue
                    v = v.fs[0]
                out.append((s3, v))
        vac = not bad and not any(not contradiction(x.pc) for x, _ in out)
        s.res.add(lab, 'failed' if bad else 'undecided' if vac else 'proved', '\n'.join(bad) or ('vacuous: no path returns' if vac else ''), time.time() - t0)
        if bad or vac: raise Failed(lab)
        return out
    def eq(s, st, a, b, what):
        if DBG: DBG[0](st.pc)
        t0 = time.time(); cm = Cmp(s.ex); cm.val(st, a, b)
        s.res.add('%s#%s' % (s.name, what), 'failed' if cm.bad else 'proved', '\n'.join(cm.bad), time.time() - t0)
    def same_hash(s, st, g):
        """g says that two hashes are equal, and what they are hashes of is"""
        if g.op != 'feq0': return False
        ms = mons(g.args[0])
        if len(ms) != 2: return False
        (m, k), (n, l) = ms.items()
        return k == -l and abs(k) == 1 and len(m) == 1 and len(n) == 1 and m[0][1] == n[0][1] and Cmp(s.ex).cong(st, fromatom(m[0][0]), fromatom(n[0][0]))
    def named(s, st, v, t, name):
        """gives a term a name: what follows is proved for any value of it; returns v with the name in its place, and the definition"""
        x = s.F('%s!%d' % (name, next(terms_fresh))); d = {onlyatom(t): x}
        st.pc = tuple(subst(p, d) for p in st.pc)
        return vsub(s.ex.deep(st, v), d), {onlyatom(x): t}
    def holds(s, st, g, what, unfold=None):
        if unfold and g.op == 'feq0':
            # only the occurrence the equation is about
            ms = mons(g.args[0]); g2 = R0
            for m, k in ms.items():
                t = rnum(k)
                for a, e in m:
                    for _ in range(e): t = rmul(t, unfold.get(a, fromatom(a)))
                g2 = radd(g2, t)
            g = feq0(g2)
        t0 = time.time(); r = s.same_hash(st, g) or prove(st.pc, g)
        s.res.add('%s#%s' % (s.name, what), 'proved' if r else 'failed', '' if r else 'not proved: %s' % short(g), time.time() - t0)

def check_lemma(ex, lem, res):
    t0 = time.time(); ex.deadline = time.time() + lem.limit; ex.nocontract = set()
    l = L(ex, lem.crate, res, lem.name); n0 = len(res.obs)
    try:
        lem.fn(l)
        if len(res.obs) == n0: res.add(lem.name, 'undecided', 'vacuous: no obligation was generated', time.time() - t0)
    except Failed: pass
    except Unsupported as e: res.add(lem.name, 'undecided', '%s' % e, time.time() - t0)
    except Exception as e: res.add(lem.name, 'undecided', 'internal: %s %s' % (e, traceback.format_exc()[-500:]), time.time() - t0)

# ---------------------------------------------------------------- specification helpers
def ring(c, v):
    """the ring element of a (possibly wrapped) group/field value"""
    v = c.D(v)
    if isinstance(v, T): return v
    if isinstance(v, IteV): return ite(v.c, ring(c, v.a), ring(c, v.b))
    if isinstance(v, Adt) and len(v.fs) == 1: return ring(c, v.fs[0])
    raise Unsupported('ring value %s' % short(v, 80))
def isvar(c, v, *names):
    """condition that an enum value is one of the named variants"""
    v = c.D(v)
    if isinstance(v, IteV): return ite(v.c, isvar(c, v.a, *names), isvar(c, v.b, *names))
    return TRUE if isinstance(v, Adt) and v.vn in names else FALSE
def payload(c, v, pick):
    """pick(adt) -> value or None (irrelevant)"""
    v = c.D(v)
    if isinstance(v, IteV):
        a, b = payload(c, v.a, pick), payload(c, v.b, pick)
        if a is None: return b
        if b is None: return a
        return ite_val(v.c, a, b)
    return pick(v)
def errspec(c, cond, label='Err'): c.err(cond, label=label)

def _dot(c, bases, exps):
    """sum of base*exponent over the pairing of two sequences"""
    bases, exps = c.D(bases), c.D(exps)
    t = R0
    def seg(g):
        if isinstance(g, One): return rmul(ring(c, g.v.fs[0]), ring(c, g.v.fs[1]))
        r = R0
        for x in g.body: r = radd(r, seg(x))
        return rmul(ind(g.cond), r) if isinstance(g, Guard) else rsum(g.var, g.cond, r)
    for g in models.zip_segs(c.ex, c.st, list(bases.segs), list(exps.segs)): t = radd(t, seg(g))
    return t
def _call(c, ident, *args, crate=None, n=0):
    """value of a pure function of the crate on these arguments (used as a ghost function)"""
    ex = c.ex; info = ex.prog.get(ident, crate or c.crate, n)
    con_ = ex.contract_of(info)
    outs = con_.apply(ex, None, c.st, list(args)) if con_ is not None and info.ident not in ex.nocontract else ex.run_fn(info.fn, list(args), c.st.fork(), {}, 1, info.crate)
    outs = [(s, o) for s, o in outs if not contradiction(s.pc)]
    if len(outs) != 1 or outs[0][1][0] != 'ret': raise Unsupported('ghost call of %s has %d outcomes' % (ident, len(outs)))
    return outs[0][1][1]
Spec.dot = _dot; Spec.call = _call
def _zipmap(c, f, A, B):
    """elementwise f over two sequences of the same length"""
    A, B = c.D(A), c.D(B)
    def seg(g):
        if isinstance(g, One): return One(f(g.v.fs[0], g.v.fs[1]))
        if isinstance(g, Guard): return Guard(g.cond, [seg(x) for x in g.body])
        return Comp(g.var, g.cond, [seg(x) for x in g.body], g.order)
    return Seq([seg(g) for g in models.zip_segs(c.ex, c.st, list(A.segs), list(B.segs))])
def _map(c, f, A):
    def seg(g):
        if isinstance(g, One): return One(f(g.v))
        if isinstance(g, Guard): return Guard(g.cond, [seg(x) for x in g.body])
        return Comp(g.var, g.cond, [seg(x) for x in g.body], g.order)
    return Seq([seg(g) for g in c.D(A).segs])
def _flatmap(c, f, A):
    def segs(g):
        if isinstance(g, One): return list(f(g.v).segs)
        if isinstance(g, Guard): return [Guard(g.cond, [y for x in g.body for y in segs(x)])]
        return [Comp(g.var, g.cond, [y for x in g.body for y in segs(x)], g.order)]
    return Seq([y for g in c.D(A).segs for y in segs(g)])
def _under(c, g, f):
    st = c.st; c.st = st.fork().assume(g)
    try:
        if contradiction(c.st.pc): return None
        return f(c)
    finally: c.st = st
Spec.zipmap = _zipmap; Spec.map = _map; Spec.flatmap = _flatmap; Spec.under = _under
