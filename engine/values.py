"""Symbolic Rust values."""
from terms import *
import terms

class Unsupported(Exception): pass

class V: __slots__ = ()

class Adt(V):
    __slots__ = ('path', 'vi', 'vn', 'fs')
    def __init__(s, path, vi, vn, fs): s.path = path; s.vi = vi; s.vn = vn; s.fs = tuple(fs)
    def __repr__(s): return '%s%s' % (s.vn if s.vn == s.path.split('::')[-1] else s.path.split('::')[-1] + '::' + s.vn, '(' + ', '.join(map(repr, s.fs)) + ')' if s.fs else '')
class SymEnum(V):
    """value of enum type whose variant is not known: discriminant and fields are applications over term"""
    __slots__ = ('td', 'ty', 'term')
    def __init__(s, td, ty, term): s.td = td; s.ty = ty; s.term = term
    def __repr__(s): return 'enum(%r)' % s.term
class Tup(V):
    __slots__ = ('fs',)
    def __init__(s, fs): s.fs = tuple(fs)
    def __repr__(s): return 'Tup' + repr(s.fs)
class One:
    __slots__ = ('v',)
    def __init__(s, v): s.v = v
    def __repr__(s): return 'One(%r)' % (s.v,)
class Comp:
    """elements body(var) for var with cond, in increasing order of var (order tag says which order)"""
    __slots__ = ('var', 'cond', 'body', 'order')
    def __init__(s, var, cond, body, order='asc'): s.var = var; s.cond = cond; s.body = tuple(body); s.order = order
    def __repr__(s): return 'Comp{%r|%r}%s(%r)' % (s.var, s.cond, '' if s.order == 'asc' else '@%s' % (s.order,), list(s.body))
class Guard:
    __slots__ = ('cond', 'body')
    def __init__(s, cond, body): s.cond = cond; s.body = tuple(body)
    def __repr__(s): return 'Guard(%r,%r)' % (s.cond, list(s.body))
class Hole:
    __slots__ = ('name', 'len', 'elem')
    def __init__(s, name, ln, elem=None): s.name = name; s.len = ln; s.elem = elem
    def __repr__(s): return 'Hole(%s)' % s.name
class Seq(V):
    __slots__ = ('segs',)
    def __init__(s, segs=()): s.segs = tuple(segs)
    def __repr__(s): return 'Seq[' + ', '.join(map(repr, s.segs)) + ']'
class IterV(V):
    __slots__ = ('segs',)
    def __init__(s, segs=()): s.segs = tuple(segs)
    def __repr__(s): return 'Iter[' + ', '.join(map(repr, s.segs)) + ']'
class MapV(V):
    """finite map/set: key var, domain condition, value on var. order: iteration-order tag"""
    __slots__ = ('var', 'dom', 'val', 'order')
    def __init__(s, var, dom, val, order): s.var = var; s.dom = dom; s.val = val; s.order = order
    def __repr__(s): return 'Map{%r|%r -> %r}' % (s.var, s.dom, s.val)
class MRef(V):
    __slots__ = ('fid', 'local', 'projs')
    def __init__(s, fid, local, projs): s.fid = fid; s.local = local; s.projs = tuple(projs)
    def __repr__(s): return '&mut %s@%s%r' % (s.local, s.fid, s.projs)
class Closure(V):
    __slots__ = ('name', 'caps', 'parent')
    def __init__(s, name, caps, parent): s.name = name; s.caps = tuple(caps); s.parent = parent
    def __repr__(s): return 'Closure(%s)' % s.name
class FnVal(V):
    __slots__ = ('callee',)
    def __init__(s, callee): s.callee = callee
    def __repr__(s): return 'fn ' + repr(s.callee)
class IteV(V):
    __slots__ = ('c', 'a', 'b')
    def __init__(s, c, a, b): s.c = c; s.a = a; s.b = b
    def __repr__(s): return 'Ite(%r ? %r : %r)' % (s.c, s.a, s.b)
class Obj(V):
    """model-specific record (transcripts, cursors, readers ...)"""
    __slots__ = ('kind', 'd')
    def __init__(s, kind, **d): s.kind = kind; s.d = d
    def with_(s, **k): n = dict(s.d); n.update(k); return Obj(s.kind, **n)
    def __getattr__(s, k):
        try: return s.d[k]
        except KeyError: raise AttributeError(k)
    def __repr__(s): return '%s%r' % (s.kind, s.d)

class Dead(V):
    """value whose content after a loop is not tracked"""
    def __repr__(s): return 'Dead'
DEAD = Dead()
class AnyV(V):
    def __repr__(s): return 'ANY'
ANY = AnyV()
UNITV = Tup(())
ERRV = Obj('err')
def none(): return Adt('Option', 0, 'None', ())
def some(v): return Adt('Option', 1, 'Some', (v,))
def ok(v): return Adt('Result', 0, 'Ok', (v,))
def err(v): return Adt('Result', 1, 'Err', (v,))

# ------------------------------------------------------------------ traversal
def vmap(v, f):
    """apply f to every T inside v (no binder care)"""
    if isinstance(v, T): return f(v)
    if isinstance(v, Adt): return Adt(v.path, v.vi, v.vn, [vmap(x, f) for x in v.fs]) if v.fs else v
    if isinstance(v, Tup): return Tup([vmap(x, f) for x in v.fs]) if v.fs else v
    if isinstance(v, SymEnum): return SymEnum(v.td, v.ty, f(v.term))
    if isinstance(v, Seq): return Seq([segmap(x, f) for x in v.segs])
    if isinstance(v, IterV): return IterV([segmap(x, f) for x in v.segs])
    if isinstance(v, MapV): return MapV(v.var, f(v.dom), vmap(v.val, f), v.order if not isinstance(v.order, T) else f(v.order))
    if isinstance(v, Closure): return Closure(v.name, [vmap(x, f) for x in v.caps], v.parent)
    if isinstance(v, IteV): return ite_val(f(v.c), vmap(v.a, f), vmap(v.b, f))
    if isinstance(v, MRef): return MRef(v.fid, v.local, [tuple(vmap(y, f) if isinstance(y, (T, V)) else y for y in p) for p in v.projs])
    if isinstance(v, Obj): return Obj(v.kind, **{k: vmap(x, f) if isinstance(x, (T, V)) else (tuple(vmap(y, f) if isinstance(y, (T, V)) else y for y in x) if isinstance(x, tuple) else x) for k, x in v.d.items()})
    return v
def segmap(s, f):
    if isinstance(s, One): return One(vmap(s.v, f))
    if isinstance(s, Comp): return Comp(s.var, f(s.cond), [segmap(x, f) for x in s.body], s.order if not isinstance(s.order, T) else f(s.order))
    if isinstance(s, Guard): return Guard(f(s.cond), [segmap(x, f) for x in s.body])
    if isinstance(s, Hole): return Hole(s.name, f(s.len), s.elem)
    raise Unsupported('segmap %r' % (s,))

def vsub(v, s):
    """substitution on values; Comp binders are globally unique fresh variables so capture cannot happen
    except when substituting a term containing that same variable (renamed then)"""
    if not s: return v
    if isinstance(v, T): return subst(v, s)
    if isinstance(v, Seq): return Seq([segsub(x, s) for x in v.segs])
    if isinstance(v, IterV): return IterV([segsub(x, s) for x in v.segs])
    if isinstance(v, MapV):
        v2 = v
        if any(v.var in fv(x) for x in s.values()) or v.var in s:
            nv = fresh_var(v.var.sort, 'k'); v2 = MapV(nv, subst(v.dom, {v.var: nv}), vsub(v.val, {v.var: nv}), v.order)
        return MapV(v2.var, subst(v2.dom, s), vsub(v2.val, s), v2.order if not isinstance(v2.order, T) else subst(v2.order, s))
    if isinstance(v, (Adt, Tup, SymEnum, Closure, IteV, MRef, Obj)):
        if isinstance(v, Adt): return Adt(v.path, v.vi, v.vn, [vsub(x, s) for x in v.fs]) if v.fs else v
        if isinstance(v, Tup): return Tup([vsub(x, s) for x in v.fs]) if v.fs else v
        if isinstance(v, SymEnum): return SymEnum(v.td, v.ty, subst(v.term, s))
        if isinstance(v, Closure): return Closure(v.name, [vsub(x, s) for x in v.caps], v.parent)
        if isinstance(v, IteV): return ite_val(subst(v.c, s), vsub(v.a, s), vsub(v.b, s))
        if isinstance(v, MRef): return MRef(v.fid, v.local, [tuple(vsub(y, s) if isinstance(y, (T, V)) else y for y in p) for p in v.projs])
        return Obj(v.kind, **{k: vsub(x, s) if isinstance(x, (T, V)) else (tuple(vsub(y, s) if isinstance(y, (T, V)) else (segsub(y, s) if isinstance(y, (One, Comp, Guard)) else y) for y in x) if isinstance(x, tuple) else x) for k, x in v.d.items()})
    return v
def segsub(g, s):
    if isinstance(g, One): return One(vsub(g.v, s))
    if isinstance(g, Guard):
        return Guard(subst(g.cond, s), [segsub(x, s) for x in g.body])
    if isinstance(g, Comp):
        if g.var in s or any(g.var in fv(x) for x in s.values()):
            nv = fresh_var(g.var.sort, 'k'); r = {g.var: nv}
            g = Comp(nv, subst(g.cond, r), [segsub(x, r) for x in g.body], g.order)
        return Comp(g.var, subst(g.cond, s), [segsub(x, s) for x in g.body], g.order if not isinstance(g.order, T) else subst(g.order, s))
    if isinstance(g, Hole): return Hole(g.name, subst(g.len, s), g.elem)
    raise Unsupported('segsub')

def rename(g):
    """fresh binder for a Comp"""
    nv = fresh_var(g.var.sort, 'k')
    r = {g.var: nv}
    return Comp(nv, subst(g.cond, r), [segsub(x, r) for x in g.body], g.order)

def vterms(v):
    out = []
    def go(x):
        if isinstance(x, T): out.append(x)
        elif isinstance(x, (Adt, Tup)):
            for y in x.fs: go(y)
        elif isinstance(x, SymEnum): out.append(x.term)
        elif isinstance(x, (Seq, IterV)):
            for y in x.segs: gs(y)
        elif isinstance(x, MapV): out.append(x.dom); go(x.val)
        elif isinstance(x, Closure):
            for y in x.caps: go(y)
        elif isinstance(x, IteV): out.append(x.c); go(x.a); go(x.b)
        elif isinstance(x, MRef):
            for p in x.projs:
                for y in p:
                    if isinstance(y, (T, V)): go(y)
        elif isinstance(x, Obj):
            for y in x.d.values():
                if isinstance(y, (T, V)): go(y)
                elif isinstance(y, tuple):
                    for w in y:
                        if isinstance(w, (T, V)): go(w)
                        elif isinstance(w, (One, Comp, Guard, Hole)): gs(w)
    def gs(g):
        if isinstance(g, One): go(g.v)
        elif isinstance(g, Comp):
            out.append(g.cond)
            for y in g.body: gs(y)
        elif isinstance(g, Guard):
            out.append(g.cond)
            for y in g.body: gs(y)
        elif isinstance(g, Hole): out.append(g.len)
    go(v)
    return out

def same(a, b):
    """syntactic equality of values (alpha on Comp binders)"""
    if a is b: return True
    if isinstance(a, T) or isinstance(b, T): return a is b
    if type(a) is not type(b): return False
    if isinstance(a, Adt): return a.path == b.path and a.vi == b.vi and len(a.fs) == len(b.fs) and all(same(x, y) for x, y in zip(a.fs, b.fs))
    if isinstance(a, Tup): return len(a.fs) == len(b.fs) and all(same(x, y) for x, y in zip(a.fs, b.fs))
    if isinstance(a, SymEnum): return a.term is b.term
    if isinstance(a, (Seq, IterV)): return len(a.segs) == len(b.segs) and all(samesg(x, y) for x, y in zip(a.segs, b.segs))
    if isinstance(a, MapV):
        r = {b.var: a.var} if a.var is not b.var else {}
        return a.order == b.order and a.dom is subst(b.dom, r) and same(a.val, vsub(b.val, r))
    if isinstance(a, Closure): return a.name == b.name and all(same(x, y) for x, y in zip(a.caps, b.caps))
    if isinstance(a, IteV): return a.c is b.c and same(a.a, b.a) and same(a.b, b.b)
    if isinstance(a, MRef): return a.fid == b.fid and a.local == b.local and len(a.projs) == len(b.projs) and all(len(p) == len(q) and all(x is y or x == y for x, y in zip(p, q)) for p, q in zip(a.projs, b.projs))
    if isinstance(a, Obj):
        if a.kind != b.kind or a.d.keys() != b.d.keys(): return False
        for k in a.d:
            x, y = a.d[k], b.d[k]
            if isinstance(x, (T, V)):
                if not same(x, y): return False
            elif isinstance(x, tuple) and isinstance(y, tuple):
                if len(x) != len(y): return False
                for p, q in zip(x, y):
                    if isinstance(p, (T, V)):
                        if not same(p, q): return False
                    elif isinstance(p, (One, Comp, Guard, Hole)):
                        if not samesg(p, q): return False
                    elif p != q: return False
            elif x != y: return False
        return True
    return a == b
def samesg(a, b):
    if a is b: return True
    if type(a) is not type(b): return False
    if isinstance(a, One): return same(a.v, b.v)
    if isinstance(a, Guard): return a.cond is b.cond and len(a.body) == len(b.body) and all(samesg(x, y) for x, y in zip(a.body, b.body))
    if isinstance(a, Comp):
        if a.var.sort != b.var.sort or len(a.body) != len(b.body): return False
        r = {b.var: a.var} if a.var is not b.var else {}
        return a.order == b.order and a.cond is subst(b.cond, r) and all(samesg(x, segsub(y, r)) for x, y in zip(a.body, b.body))
    if isinstance(a, Hole): return a.name == b.name
    return False

def ite_val(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if same(a, b): return a
    if isinstance(a, T) and isinstance(b, T) and a.sort == b.sort and a.sort in 'FIBSX':
        return ite(c, a, b)
    if isinstance(a, Adt) and isinstance(b, Adt) and a.path == b.path and a.vi == b.vi:
        return Adt(a.path, a.vi, a.vn, [ite_val(c, x, y) for x, y in zip(a.fs, b.fs)])
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.fs) == len(b.fs):
        if not a.fs: return a
        return Tup([ite_val(c, x, y) for x, y in zip(a.fs, b.fs)])
    if isinstance(a, (Dead, AnyV)) or isinstance(b, (Dead, AnyV)): return DEAD
    if isinstance(a, Seq) and isinstance(b, Seq):
        return Seq(ite_segs(c, a.segs, b.segs))
    if isinstance(a, Obj) and isinstance(b, Obj) and a.kind == b.kind and a.d.keys() == b.d.keys() and all(isinstance(a.d[k], (T, V)) or a.d[k] == b.d[k] for k in a.d):
        return Obj(a.kind, **{k: ite_val(c, a.d[k], b.d[k]) if isinstance(a.d[k], (T, V)) else a.d[k] for k in a.d})
    if isinstance(a, MapV) and isinstance(b, MapV) and a.var.sort == b.var.sort:
        r = {b.var: a.var}
        return MapV(a.var, ite(c, a.dom, subst(b.dom, r)), ite_val(c, a.val, vsub(b.val, r)) if a.val is not None else None, a.order if a.order == b.order else ('ite', a.order, b.order))
    return IteV(c, a, b)

def ite_segs(c, a, b):
    n = 0
    while n < len(a) and n < len(b) and samesg(a[n], b[n]): n += 1
    pre = list(a[:n]); ra = a[n:]; rb = b[n:]
    n = 0
    while n < len(ra) and n < len(rb) and samesg(ra[-1 - n], rb[-1 - n]): n += 1
    if n: return pre + list(ite_segs(c, ra[:len(ra) - n], rb[:len(rb) - n])) + list(ra[len(ra) - n:])
    # same shape elementwise
    if len(ra) == len(rb) and all(isinstance(x, One) and isinstance(y, One) for x, y in zip(ra, rb)):
        return pre + [One(ite_val(c, x.v, y.v)) for x, y in zip(ra, rb)]
    if len(ra) == len(rb) == 1 and isinstance(ra[0], Comp) and isinstance(rb[0], Comp) and ra[0].var.sort == rb[0].var.sort and ra[0].order == rb[0].order:
        r = {rb[0].var: ra[0].var}
        if subst(rb[0].cond, r) is ra[0].cond and len(ra[0].body) == len(rb[0].body):
            return pre + [Comp(ra[0].var, ra[0].cond, ite_segs(c, ra[0].body, tuple(segsub(x, r) for x in rb[0].body)), ra[0].order)]
    oa, ob = opt_one(ra), opt_one(rb)
    if oa is not None and ob is not None:
        g = or_(and_(c, oa[0]), and_(not_(c), ob[0]))
        v = oa[1] if ob[1] is None else (ob[1] if oa[1] is None else ite_val(c, oa[1], ob[1]))
        pre.append(Guard(g, [One(v)])); return pre
    if ra: pre.append(Guard(c, ra))
    if rb: pre.append(Guard(not_(c), rb))
    return pre

def opt_one(segs):
    """(cond, value) when the segments are at most one element"""
    if not segs: return (FALSE, None)
    if len(segs) > 1: return None
    g = segs[0]
    if isinstance(g, One): return (TRUE, g.v)
    if isinstance(g, Guard):
        r = opt_one(g.body)
        return None if r is None else (and_(g.cond, r[0]), r[1])
    return None
def mkcomp(k, cond, segs, order='asc'):
    """comprehension with guards folded into the condition"""
    segs = list(segs)
    while len(segs) == 1 and isinstance(segs[0], Guard):
        cond = and_(cond, segs[0].cond); segs = list(segs[0].body)
    return Comp(k, cond, segs, order)

def fill(v, holes):
    """replace Hole segments by segment tuples"""
    if not holes: return v
    if isinstance(v, T): return v
    def fs(segs):
        out = []
        for g in segs:
            if isinstance(g, Hole):
                if g.name in holes: out += list(holes[g.name])
                else: out.append(g)
            elif isinstance(g, One): out.append(One(fill(g.v, holes)))
            elif isinstance(g, Comp): out.append(Comp(g.var, g.cond, fs(g.body), g.order))
            elif isinstance(g, Guard): out.append(Guard(g.cond, fs(g.body)))
            else: out.append(g)
        return out
    if isinstance(v, Seq): return Seq(fs(v.segs))
    if isinstance(v, IterV): return IterV(fs(v.segs))
    if isinstance(v, Adt): return Adt(v.path, v.vi, v.vn, [fill(x, holes) for x in v.fs]) if v.fs else v
    if isinstance(v, Tup): return Tup([fill(x, holes) for x in v.fs]) if v.fs else v
    if isinstance(v, IteV): return IteV(v.c, fill(v.a, holes), fill(v.b, holes))
    if isinstance(v, Closure): return Closure(v.name, [fill(x, holes) for x in v.caps], v.parent)
    if isinstance(v, MapV): return MapV(v.var, v.dom, fill(v.val, holes), v.order)
    if isinstance(v, Obj): return Obj(v.kind, **{k: fill(x, holes) if isinstance(x, V) else x for k, x in v.d.items()})
    return v
def has_hole(v, name=None):
    found = []
    def fs(segs):
        for g in segs:
            if isinstance(g, Hole):
                if name is None or g.name == name: found.append(g)
            elif isinstance(g, One): go(g.v)
            elif isinstance(g, (Comp, Guard)): fs(g.body)
    def go(v):
        if isinstance(v, (Seq, IterV)): fs(v.segs)
        elif isinstance(v, (Adt, Tup)):
            for x in v.fs: go(x)
        elif isinstance(v, IteV): go(v.a); go(v.b)
        elif isinstance(v, Closure):
            for x in v.caps: go(x)
        elif isinstance(v, MapV): go(v.val)
        elif isinstance(v, Obj):
            for x in v.d.values(): go(x)
    go(v)
    return bool(found)
