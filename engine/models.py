"""Models of the standard library (trusted base): values in, values out."""
import copy, re, itertools
from mirparse import *
from terms import *
from values import *
import solver
from solver import entails, check, RANGES
import execu
from execu import strip_refs, tyname, INTS, fill_all, vfill_sub, State

STD = {}
def model(*keys):
    def d(f):
        for k in keys: STD[k] = f
        return f
    return d

def D(ex, st, v): return ex.deref(st, v)
def setref(ex, st, r, v):
    if not isinstance(r, MRef): raise Unsupported('write through %s' % repr(r)[:60])
    ex.write(st, (r.fid, r.local), r.projs, v)
def is_mut(r): return isinstance(r, MRef)

def cases(ex, st, v):
    """fork a conditional value into alternatives [(state, value)]"""
    v = ex.deref(st, v)
    if not isinstance(v, IteV): return [(st, v)]
    out = []
    for st2, b in ex.branch(st, v.c):
        out += cases(ex, st2, v.a if b else v.b)
    return out

def need_enum(v):
    if not isinstance(v, Adt): raise Unsupported('enum value expected, got %s' % repr(v)[:100])
    return v

def forall_case(f):
    """apply f(ex, fr, st, c, args) for each alternative of args[0]"""
    def g(ex, fr, st, c, args):
        out = []
        for st2, v in cases(ex, st, args[0]):
            r = f(ex, fr, st2, c, [v] + list(args[1:]))
            out += ex.norm_out(st2, r)
        return out
    return g

class Models:
    unroll = 3
    RING = set()
    ALIAS = {}
    externals = {'std', 'core', 'alloc', 'failure'}
    def __init__(s): s.tables = [STD]; s.types = {}; s.consts = {}; s.overrides = {}
    def widen(s, v, w): return v
    def alias(s, ty):
        if ty.k == 'path':
            a = s.ALIAS.get(ty.name)
            if a is not None: return parse_ty(a)
        return None
    def isring(s, ty): return ty.k == 'path' and ty.name in s.RING
    def typ(s, ty):
        if s.isring(ty): return lambda ex, t, name, args: fapp(name, args)
        return s.types.get(ty.name)
    def crate_alias(s, n): return {'bbs': 'bbs', 'zmix': 'zmix', 'ursa_sharing': 'us', 'bulletproofs_amcl': 'bp', 'ursa': 'ursa'}.get(n, n)
    def override(s, info, callee): return s.overrides.get(info.ident)
    def field(s, ex, st, v, p): return None
    def keyof(s, ex, v): return None
    def len_(s, ex, v):
        if isinstance(v, MapV): return ex_count_map(v)
        if isinstance(v, Obj) and v.kind == 'seqview': return None
        if isinstance(v, T) and v.sort == 'S': return app('strlen.len', (v,), 'I')
        return None
    def index(s, ex, st, v, i):
        if isinstance(v, MapV): return s.map_get(ex, st, v, i)
        return None
    def slice_(s, ex, st, v, a, b): return None
    def discr(s, ex, st, v): return None
    def const(s, ex, fr, st, c):
        for k, v in s.consts.items():
            if c == k or c.endswith('::' + k): return v(ex) if callable(v) else v
        return None
    # ---- maps
    def map_get(s, ex, st, m, key):
        if isinstance(m, MapV): return vsub(m.val, {m.var: key})
        if isinstance(m, Obj) and m.kind == 'maphole' and isinstance(m.d['init'], MapV):
            # the entry of this iteration's own key: still the initial one (solve_map checks that keys differ between iterations)
            m.d['reads'].append(scalar(ex, key)); i = m.d['init']; return vsub(i.val, {i.var: key})
        raise Unsupported('map get %s' % repr(m)[:60])
    def map_insert(s, ex, st, m, key, val):
        if isinstance(m, IteV): return ite_val(m.c, s.map_insert(ex, st, m.a, key, val), s.map_insert(ex, st, m.b, key, val))
        if isinstance(m, MapV):
            key = scalar(ex, key)
            c = eq(m.var, key)
            nv = ite_val(c, val, m.val) if m.dom is not FALSE else val
            if m.dom is FALSE: return MapV(m.var, c, val, m.order)
            return MapV(m.var, or_(m.dom, c), nv, m.order)
        if isinstance(m, Obj) and m.kind in ('maphole', 'mapins', 'mapdel'):
            return Obj('mapins', base=m, key=key, val=val)
        raise Unsupported('map insert %s' % repr(m)[:60])
    def solve_map(s, ex, ph, init, res, k, kp, cond, rngp, inst, unsolved_in, order):
        """map built by one conditional insert per iteration"""
        name = ph.d['name']
        def split(v):
            """-> [(cond, key, val)] inserts relative to the placeholder, or None"""
            if isinstance(v, Obj) and v.kind == 'maphole' and v.d['name'] == name: return []
            if isinstance(v, Obj) and v.kind == 'mapins':
                b = split(v.d['base'])
                if b is None: return None
                return b + [(TRUE, v.d['key'], v.d['val'])]
            if isinstance(v, Obj) and v.kind == 'mapdel':
                b = split(v.d['base'])
                if b is None: return None
                return b + [(TRUE, v.d['key'], None)]
            if isinstance(v, IteV):
                a = split(v.a); b = split(v.b)
                if a is None or b is None: return None
                return [(and_(v.c, x), y, z) for x, y, z in a] + [(and_(not_(v.c), x), y, z) for x, y, z in b]
            return None
        ins = split(res)
        if ph.d['reads']:
            ks = [scalar(ex, i[1]) for i in ins] if ins is not None else []
            if not ks or any(x is not ks[0] for x in ks + ph.d['reads']) or invert(ks[0], k, fresh_var(init.var.sort, 'key')) is None: raise Unsupported('map read while it is changed')
        if ins is None: return ('dead', None, DEAD)
        # keys that differ between iterations: membership of this iteration's key in the prefix is membership in the initial map
        if isinstance(init, MapV) and len(ins) == 1:
            c_, key, val = ins[0]; key = scalar(ex, key)
            if invert(key, k, fresh_var(init.var.sort, 'key')) is not None:
                own = {app('mh:' + name, (key,), 'B'): subst(init.dom, {init.var: key})}
                ins = [(subst(c_, own), key, vsub(val, own) if val is not None else None)]
        for c_, key, val in ins:
            if unsolved_in(c_) or unsolved_in(key) or (val is not None and unsolved_in(val)): return None
        if not isinstance(init, MapV): return ('dead', None, DEAD)
        if len(ins) != 1: return ('dead', None, DEAD)
        c_, key, val = ins[0]
        if val is None:
            # one removal per iteration
            c_ = inst(c_); key = scalar(ex, inst(key))
            def without(v, full, ky, j):
                x = invert(ky, j, v.var)
                gone = subst(full, {j: x}) if x is not None else exists(j, full, eq(ky, v.var))
                return MapV(v.var, and_(v.dom, not_(gone)), v.val, v.order)
            kq = fresh_var(k.sort, 'q'); i0 = vsub(init, {})
            return ('ok', without(i0, and_(subst(rngp(k), {kp: kq}), subst(c_, {k: kq})), subst(key, {k: kq}), kq), without(vsub(init, {}), and_(cond, c_), key, k))
        c_ = inst(c_); key = scalar(ex, inst(key)); val = inst(val)
        def build(rng):
            var = fresh_var(init.var.sort, 'key')
            full = and_(rng, c_)
            # injective key: key == k + const  or key == k
            sol = invert(key, k, var)
            if sol is not None:
                dom = subst(full, {k: sol})
                v2 = vsub(val, {k: sol})
            else:
                dom = exists(k, full, eq(key, var))
                # value of the last insert with this key: choice term
                ch = app('lastidx', (mklam(k, (full, key)), var), k.sort)
                v2 = vsub(val, {k: ch})
            i0 = vsub(init, {})
            if i0.dom is FALSE: return MapV(var, dom, v2, init.order)
            r = {i0.var: var}
            return MapV(var, or_(dom, subst(i0.dom, r)), ite_val(dom, v2, vsub(i0.val, r)), init.order)
        fin = build(cond)
        # prefix: earlier iterations
        try: pre = vsub(build(T('bool_hole', (), 'B')), {})
        except Exception: pre = None
        kq = fresh_var(k.sort, 'q')
        sv_key, sv_val, sv_c = subst(key, {k: kq}), vsub(val, {k: kq}), subst(c_, {k: kq})
        def build_pre():
            var = fresh_var(init.var.sort, 'key')
            full = and_(subst(rngp(k), {kp: kq}), sv_c)
            sol = invert(sv_key, kq, var)
            if sol is not None: dom = subst(full, {kq: sol}); v2 = vsub(sv_val, {kq: sol})
            else:
                dom = exists(kq, full, eq(sv_key, var)); v2 = vsub(sv_val, {kq: app('lastidx', (mklam(kq, (full, sv_key)), var), kq.sort)})
            if init.dom is FALSE: return MapV(var, dom, v2, init.order)
            r = {init.var: var}
            return MapV(var, or_(dom, subst(init.dom, r)), ite_val(dom, v2, vsub(init.val, r)), init.order)
        return ('ok', build_pre(), fin)
    # ---- lookup
    def lookup(s, ex, fr, st, c, args, atys):
        keys = []
        sn = None
        if c.self_ty is not None:
            sn = tyname(strip_refs(ex.subty(fr, c.self_ty)))
            keys += ['%s::%s' % (sn, c.key), '%s::%s' % (sn, c.method)]
        keys += [c.key]
        if args:
            v = ex.deref(st, args[0])
            kind = vkind(v)
            keys += ['@%s::%s' % (kind, c.method)]
        keys += ['*::' + c.method]
        for k in keys:
            for t in s.tables[::-1]:
                if k in t:
                    return t[k]
        return None

def vkind(v):
    if isinstance(v, Seq): return 'seq'
    if isinstance(v, IterV): return 'iter'
    if isinstance(v, MapV): return 'map'
    if isinstance(v, T): return {'F': 'ring', 'I': 'int', 'B': 'bool', 'S': 'str', 'X': 'opaque'}[v.sort]
    if isinstance(v, Obj): return v.kind
    if isinstance(v, Adt): return v.path if v.path in ('Option', 'Result', 'Range', 'RangeFrom', 'RangeInclusive', 'RangeFull', 'RangeTo') else 'adt'
    if isinstance(v, IteV): return vkind(v.a)
    if isinstance(v, (Closure, FnVal)): return 'fn'
    return type(v).__name__

def invert(key, k, var):
    """solve key(k) == var for k when key is k or k + const"""
    if key is k: return var
    if key.sort == 'I' and k.sort == 'I':
        c, d = lin(key)
        if d.get(k) == 1 and not any(dep(a, k) for a in d if a is not k):
            d.pop(k); return isub(var, mklin(c, d))
    return None

def scalar(ex, v):
    if isinstance(v, T): return v
    if isinstance(v, Adt) and len(v.fs) == 1: return scalar(ex, v.fs[0])
    k = ex.models.keyof(ex, v)
    if k is not None: return k
    return app('key', (valterm(v),), 'S')

def ex_count_map(m): return count(m.var, m.dom)

# ------------------------------------------------------------------ canonical term of a value
def valterm(v):
    """term (sort X) identifying a value up to equality of its parts"""
    if isinstance(v, T): return v
    return T('val', (valtup(v),), 'X')
def valtup(v):
    if isinstance(v, T): return v
    if isinstance(v, Adt): return ('adt', v.path, v.vi) + tuple(valtup(x) for x in v.fs)
    if isinstance(v, Tup): return ('tup',) + tuple(valtup(x) for x in v.fs)
    if isinstance(v, Seq): return ('seq',) + tuple(segtup(g) for g in v.segs)
    if isinstance(v, IteV): return ('ite', v.c, valtup(v.a), valtup(v.b))
    if isinstance(v, MapV): return ('map', mklam(v.var, (v.dom, valtup(v.val))))
    if isinstance(v, Obj): return ('obj', v.kind) + tuple((k, valtup(x) if isinstance(x, (T, V)) else repr(x)) for k, x in sorted(v.d.items()))
    raise Unsupported('valterm %s' % repr(v)[:80])
def disc_facts(cond):
    """what cond says about variant tags, as a substitution"""
    d = dict(disc_eqs(cond))
    for c in conj(cond):
        if c.op == 'not' and c.args[0].op == 'ieq' and disc_eq(c.args[0]): d[c.args[0]] = FALSE
    return d
def segtup(g):
    if isinstance(g, One): return ('one', valtup(g.v))
    if isinstance(g, Guard): return ('guard', g.cond) + tuple(segtup(x) for x in g.body)
    if isinstance(g, Comp):
        v = g.var; g2 = g
        r = range_of(v, g.cond) if v.sort == 'I' else None
        body = tuple(segtup(x) for x in g.body); cond = g.cond
        known = disc_facts(cond)
        if known: body = map_tuple(body, lambda t: subst(t, known))
        if r and not r[2] and r[0] is not ZERO:
            s = {v: iadd(v, r[0])}
            body = map_tuple(body, lambda t: subst(t, s)); cond = and_(le(ZERO, v), lt(v, isub(r[1], r[0])))
        return ('comp', mklam(v, (cond,) + body), repr(g.order))
    raise Unsupported('segterm %r' % (g,))

# ------------------------------------------------------------------ values equal (as a boolean term)
def val_eq(ex, st, a, b):
    a = ex.deref(st, a); b = ex.deref(st, b)
    if a is b or same(a, b): return TRUE
    if isinstance(a, IteV): return or_(and_(a.c, val_eq(ex, st, a.a, b)), and_(not_(a.c), val_eq(ex, st, a.b, b)))
    if isinstance(b, IteV): return val_eq(ex, st, b, a)
    if isinstance(a, T) and isinstance(b, T):
        if a.sort != b.sort: raise Unsupported('eq sorts %r %r' % (a, b))
        return eq(a, b)
    if isinstance(a, Adt) and isinstance(b, Adt):
        if a.vi != b.vi: return FALSE
        return and_(*[val_eq(ex, st, x, y) for x, y in zip(a.fs, b.fs)])
    if isinstance(a, Tup) and isinstance(b, Tup): return and_(*[val_eq(ex, st, x, y) for x, y in zip(a.fs, b.fs)])
    if isinstance(a, Seq) and isinstance(b, Seq): return seq_eq(ex, st, a, b)
    if isinstance(a, MapV) and isinstance(b, MapV):
        r = {b.var: a.var}; v = a.var
        db = subst(b.dom, r)
        return and_(forall(v, TRUE, and_(implies(a.dom, db), implies(db, a.dom))), forall(v, a.dom, val_eq(ex, st, a.val, vsub(b.val, r))))
    if isinstance(a, Obj) and isinstance(b, Obj) and a.kind == b.kind == 'opaque': return eq(a.d['term'], b.d['term'])
    return app('valeq', tuple(sorted((valterm(a), valterm(b)), key=lambda t: t.id)), 'B')

def flat1(segs):
    """comprehension segments with one element per index?"""
    return all(isinstance(g, One) or (isinstance(g, Comp) and len(g.body) == 1 and isinstance(g.body[0], One)) for g in segs)
def seq_eq(ex, st, a, b):
    la = ex.seq_len(a); lb = ex.seq_len(b)
    ca = eq(la, lb)
    if ca is FALSE: return FALSE
    # both a single comprehension over a range
    if len(a.segs) == 1 and len(b.segs) == 1 and all(isinstance(x.segs[0], Comp) for x in (a, b)):
        ga, gb = a.segs[0], b.segs[0]
        ra, rb = ex.comp_range(ga), ex.comp_range(gb)
        if ra and rb and ra[1] is not None and rb[1] is not None and flat1([ga, gb]):
            k = fresh_var('I', 'k')
            return and_(ca, forall(k, and_(le(ZERO, k), lt(k, la)), val_eq(ex, st, vsub(ga.body[0].v, {ga.var: iadd(ra[0], k)}), vsub(gb.body[0].v, {gb.var: iadd(rb[0], k)}))))
    if all(isinstance(g, One) for g in a.segs + b.segs):
        return and_(*[val_eq(ex, st, x.v, y.v) for x, y in zip(a.segs, b.segs)])
    if la.op == 'num' and lb.op == 'num' and la.args[0] <= 64:
        return and_(*[val_eq(ex, st, ex.seq_get(st, a, num(i)), ex.seq_get(st, b, num(i))) for i in range(la.args[0])])
    # segment-wise when the segment lengths agree
    if len(a.segs) == len(b.segs) and all(type(x) is type(y) for x, y in zip(a.segs, b.segs)):
        if all(eq(ex.seg_len(x), ex.seg_len(y)) is TRUE for x, y in zip(a.segs, b.segs)):
            return and_(*[seq_eq(ex, st, Seq([x]), Seq([y])) if not isinstance(x, One) else val_eq(ex, st, x.v, y.v) for x, y in zip(a.segs, b.segs)])
    return app('seqeq', tuple(sorted((valterm(a), valterm(b)), key=lambda t: t.id)), 'B')

# ------------------------------------------------------------------ control
@model('Try::branch')
@forall_case
def _(ex, fr, st, c, a):
    v = need_enum(a[0])
    if v.vn in ('Ok', 'Some'): return Adt('ControlFlow', 0, 'Continue', (v.fs[0],))
    if v.vn in ('Err', 'None'): return Adt('ControlFlow', 1, 'Break', (v,))
@model('Try::from_output')
def _(ex, fr, st, c, a):
    return some(a[0]) if tyname(c.self_ty) == 'Option' else ok(a[0])
@model('FromResidual::from_residual')
def _(ex, fr, st, c, a):
    v = D(ex, st, a[0])
    if isinstance(v, Adt) and v.vn == 'None': return none()
    e = v.fs[0]
    # the error conversion
    return err(e if not isinstance(e, (T, Seq)) else ERRV)
@model('Fn::call', 'FnMut::call_mut', 'FnOnce::call_once')
def _(ex, fr, st, c, a):
    tup = a[1]
    return ex.call_value(fr, st, a[0], list(tup.fs) if isinstance(tup, Tup) else [tup])

def to_err_ty(ty): return ty is not None and ty.k == 'path' and (ty.name.endswith('Error') or ty.name.endswith('ErrorKind'))

IDENT = ['Clone::clone', 'AsRef::as_ref', 'Deref::deref', 'DerefMut::deref_mut', 'AsMut::as_mut', 'Borrow::borrow', 'Vec::as_slice', 'Vec::as_mut_slice',
         'ToOwned::to_owned', 'slice::to_vec', 'Vec::into_boxed_slice', 'Box::new', 'Rc::new', 'Arc::new', 'IntoIterator::into_iter@iter', 'hint::must_use', 'slice::into_vec',
         'Vec::as_ref', 'String::as_str', 'ToString::to_string@str', 'String::as_bytes', 'array::as_slice', 'convert::identity', 'Cow::into_owned', 'Option::cloned', 'Option::copied', 'Option::as_ref', 'Option::as_deref',
         'Result::as_ref', 'BorrowMut::borrow_mut', 'mem::ManuallyDrop::new', 'Cell::new', 'black_box', 'hint::black_box', 'Iterator::by_ref', 'slice::as_ref', 'IntoParallelRefIterator::par_iter@iter','String::into_bytes']
def ident(ex, fr, st, c, a):
    v = a[0]
    if c.method in ('clone', 'to_vec', 'to_owned', 'cloned', 'copied'): return ex.deep(st, D(ex, st, v))
    return v
for k in IDENT:
    if '@' not in k: STD[k] = ident

@model('Into::into', 'From::from', 'TryFrom::try_from', 'TryInto::try_into')
def _(ex, fr, st, c, a):
    v = D(ex, st, a[0])
    to = c.self_ty if c.trait in ('From', 'TryFrom') else (c.trait_args[0] if c.trait_args else None)
    to = ex.subty(fr, to) if to is not None else None
    frm = (c.trait_args[0] if c.trait_args else None) if c.trait in ('From', 'TryFrom') else c.self_ty
    tr = c.trait.startswith('Try')
    if to_err_ty(to): return ERRV
    if isinstance(v, T) and v.sort == 'I' and to is not None and to.name in INTS:
        if not tr: return v
        lo, hi = RANGES[to.name]
        out = []
        for st2, b in ex.branch(st, and_(le(lo, v), le(v, hi))): out.append((st2, ok(v) if b else err(ERRV)))
        return out
    if tr and isinstance(v, Seq) and to is not None and strip_refs(to).k == 'array' and re.match(r'^\d+$', strip_refs(to).name):
        n = num(int(strip_refs(to).name)); out = []
        for st2, b in ex.branch(st, eq(ex.seq_len(v), n)): out.append((st2, ok(v) if b else err(ERRV)))
        return out
    if isinstance(v, (Seq,)) and to is not None and to.k == 'path' and to.name in ('Vec', 'Box'): return v
    if isinstance(v, T) and v.sort == 'S': return v
    if to is not None and to.k == 'path' and to.name in ('Rc', 'Arc', 'Box', 'Cow'): return v
    # blanket: T::into -> U::from in a crate
    if c.trait in ('Into', 'TryInto') and to is not None:
        m = 'from' if c.trait == 'Into' else 'try_from'
        frm = ex.subty(fr, frm) if frm is not None else None
        if m == 'from' and frm is not None and tystr(frm) == tystr(to): return v
        c2 = parse_callee('<%s as %s<%s>>::%s' % (tystr(to), 'From' if m == 'from' else 'TryFrom', tystr(frm), m))
        return ex.call(fr, st, c2, a, [frm], None)
    if c.trait in ('From',) and frm is not None and to is not None:
        # user Into impl
        if tystr(frm) == tystr(to): return v
    if isinstance(v, T) and v.sort == 'F': return v
    raise Unsupported('conversion %s' % c.raw[:120])

def tystr(t):
    k = t.k
    if k == 'path': return t.full + ('<' + ', '.join(tystr(a) for a in t.args) + '>' if t.args else '')
    if k == 'ref': return '&' + tystr(t.args[0])
    if k == 'refmut': return '&mut ' + tystr(t.args[0])
    if k == 'slice': return '[%s]' % tystr(t.args[0])
    if k == 'array': return '[%s; %s]' % (tystr(t.args[0]), t.name)
    if k == 'tuple': return '(' + ', '.join(tystr(a) for a in t.args) + ')'
    return t.name

# ------------------------------------------------------------------ Option / Result
@model('Option::unwrap', 'Result::unwrap', 'Option::expect', 'Result::expect')
@forall_case
def _(ex, fr, st, c, a):
    v = need_enum(a[0])
    if v.vn in ('Some', 'Ok'): return v.fs[0]
    return ('panic', 'unwrap of %s' % v.vn)
@model('Result::unwrap_err')
@forall_case
def _(ex, fr, st, c, a): return a[0].fs[0] if a[0].vn == 'Err' else ('panic', 'unwrap_err')
@model('Option::unwrap_or', 'Result::unwrap_or')
@forall_case
def _(ex, fr, st, c, a): return a[0].fs[0] if a[0].vn in ('Some', 'Ok') else a[1]
@model('Option::unwrap_or_else')
@forall_case
def _(ex, fr, st, c, a): return a[0].fs[0] if a[0].vn in ('Some', 'Ok') else ex.call_value(fr, st, a[1], [])
@model('Result::unwrap_or_else')
@forall_case
def _(ex, fr, st, c, a): return a[0].fs[0] if a[0].vn in ('Some', 'Ok') else ex.call_value(fr, st, a[1], [a[0].fs[0]])
@model('Option::is_some', 'Result::is_ok')
def _(ex, fr, st, c, a):
    def go(v):
        if isinstance(v, IteV): return ite(v.c, go(v.a), go(v.b))
        return TRUE if need_enum(v).vn in ('Some', 'Ok') else FALSE
    return go(D(ex, st, a[0]))
@model('Option::is_none', 'Result::is_err')
def _(ex, fr, st, c, a): return not_(STD['Option::is_some'](ex, fr, st, c, a))
@model('Option::map', 'Result::map')
@forall_case
def _(ex, fr, st, c, a):
    v = need_enum(a[0])
    if v.vn in ('Some', 'Ok'):
        return [(s2, ('ret', Adt(v.path, v.vi, v.vn, (o[1],))) if o[0] == 'ret' else o) for s2, o in ex.call_value(fr, st, a[1], [v.fs[0]])]
    return v
@model('Option::map_or', 'Result::map_or')
@forall_case
def _(ex, fr, st, c, a):
    v = need_enum(a[0])
    return ex.call_value(fr, st, a[2], [v.fs[0]]) if v.vn in ('Some', 'Ok') else a[1]
@model('Option::map_or_else')
@forall_case
def _(ex, fr, st, c, a):
    v = need_enum(a[0])
    return ex.call_value(fr, st, a[2], [v.fs[0]]) if v.vn in ('Some', 'Ok') else ex.call_value(fr, st, a[1], [])
@model('Option::and_then', 'Result::and_then')
@forall_case
def _(ex, fr, st, c, a):
    v = need_enum(a[0])
    return ex.call_value(fr, st, a[1], [v.fs[0]]) if v.vn in ('Some', 'Ok') else v
@model('Option::filter')
@forall_case
def _(ex, fr, st, c, a):
    v = need_enum(a[0])
    if v.vn == 'None': return v
    out = []
    for s2, o in ex.call_value(fr, st, a[1], [v.fs[0]]):
        if o[0] != 'ret': out.append((s2, o)); continue
        for s3, b in ex.branch(s2, o[1]): out.append((s3, v if b else none()))
    return out
@model('Option::ok_or', 'Option::ok_or_else')
@forall_case
def _(ex, fr, st, c, a):
    v = need_enum(a[0])
    return ok(v.fs[0]) if v.vn == 'Some' else err(ERRV)
@model('Result::map_err', 'Fail::context', 'ResultExt::context')
@forall_case
def _(ex, fr, st, c, a):
    v = need_enum(a[0])
    return v if v.vn == 'Ok' else err(ERRV)
@model('Result::ok')
@forall_case
def _(ex, fr, st, c, a): return some(a[0].fs[0]) if a[0].vn == 'Ok' else none()
@model('Option::or', 'Result::or')
@forall_case
def _(ex, fr, st, c, a): return a[0] if a[0].vn in ('Some', 'Ok') else a[1]
@model('Option::or_else', 'Result::or_else')
@forall_case
def _(ex, fr, st, c, a):
    v = need_enum(a[0])
    if v.vn in ('Some', 'Ok'): return v
    return ex.call_value(fr, st, a[1], [] if v.vn == 'None' else [v.fs[0]])
@model('Option::is_some_and', 'Result::is_ok_and', 'Option::is_none_or')
@forall_case
def _(ex, fr, st, c, a):
    v = need_enum(a[0])
    return ex.call_value(fr, st, a[1], [v.fs[0]]) if v.vn in ('Some', 'Ok') else (TRUE if c.method == 'is_none_or' else FALSE)
@model('Result::map_or_else')
@forall_case
def _(ex, fr, st, c, a):
    v = need_enum(a[0])
    return ex.call_value(fr, st, a[2] if v.vn == 'Ok' else a[1], [v.fs[0]])
@model('Option::and', 'Result::and')
@forall_case
def _(ex, fr, st, c, a): return a[1] if a[0].vn in ('Some', 'Ok') else a[0]
@model('Option::zip')
def _(ex, fr, st, c, a):
    out = []
    for s2, v in cases(ex, st, D(ex, st, a[0])):
        for s3, w in cases(ex, s2, D(ex, s2, a[1])):
            out.append((s3, some(Tup([v.fs[0], w.fs[0]])) if v.vn == w.vn == 'Some' else none()))
    return out
@model('Option::replace')
def _(ex, fr, st, c, a):
    v = D(ex, st, a[0]); setref(ex, st, a[0], some(a[1])); return v
@model('Option::as_mut')
def _(ex, fr, st, c, a):
    r = a[0]; v = D(ex, st, r)
    out = []
    for s2, w in cases(ex, st, v):
        if w.vn == 'None': out.append((s2, none()))
        else: out.append((s2, some(MRef(r.fid, r.local, list(r.projs) + [('f', 0, None)]))))
    return out
@model('Option::take')
def _(ex, fr, st, c, a):
    v = D(ex, st, a[0]); setref(ex, st, a[0], none()); return v
@model('mem::take')
def _(ex, fr, st, c, a):
    v = D(ex, st, a[0])
    if isinstance(v, Seq): setref(ex, st, a[0], Seq([])); return v
    raise Unsupported('mem::take')
@model('mem::replace')
def _(ex, fr, st, c, a):
    v = D(ex, st, a[0]); setref(ex, st, a[0], a[1]); return v
@model('mem::swap')
def _(ex, fr, st, c, a):
    v = D(ex, st, a[0]); w = D(ex, st, a[1]); setref(ex, st, a[0], w); setref(ex, st, a[1], v); return UNITV

# ------------------------------------------------------------------ comparison
@model('PartialEq::eq')
def _(ex, fr, st, c, a): return val_eq(ex, st, a[0], a[1])
@model('PartialEq::ne')
def _(ex, fr, st, c, a): return not_(val_eq(ex, st, a[0], a[1]))
@model('PartialOrd::lt')
def _(ex, fr, st, c, a): return lt(num_(ex, st, a[0]), num_(ex, st, a[1]))
@model('PartialOrd::le')
def _(ex, fr, st, c, a): return le(num_(ex, st, a[0]), num_(ex, st, a[1]))
@model('PartialOrd::gt')
def _(ex, fr, st, c, a): return lt(num_(ex, st, a[1]), num_(ex, st, a[0]))
@model('PartialOrd::ge')
def _(ex, fr, st, c, a): return le(num_(ex, st, a[1]), num_(ex, st, a[0]))
def num_(ex, st, v):
    v = D(ex, st, v)
    if isinstance(v, T) and v.sort == 'I': return v
    raise Unsupported('ordering of %s' % repr(v)[:60])
ORD = {n: Adt('Ordering', i, n, ()) for i, n in enumerate(('Less', 'Equal', 'Greater'))}
@model('Ord::cmp', 'PartialOrd::partial_cmp')
def _(ex, fr, st, c, a):
    x, y = num_(ex, st, a[0]), num_(ex, st, a[1])
    r = ite_val(lt(x, y), ORD['Less'], ite_val(eq(x, y), ORD['Equal'], ORD['Greater']))
    return some(r) if c.method == 'partial_cmp' else r
@model('cmp::min', 'Ord::min')
def _(ex, fr, st, c, a):
    x, y = num_(ex, st, a[0]), num_(ex, st, a[1])
    out = []
    for s2, b in ex.branch(st, le(x, y)): out.append((s2, x if b else y))
    return out
@model('cmp::max', 'Ord::max')
def _(ex, fr, st, c, a):
    x, y = num_(ex, st, a[0]), num_(ex, st, a[1])
    out = []
    for s2, b in ex.branch(st, le(x, y)): out.append((s2, y if b else x))
    return out

# ------------------------------------------------------------------ Vec / slices
@model('Vec::new', 'Vec::with_capacity', 'VecDeque::new')
def _(ex, fr, st, c, a): return Seq([])
@model('Vec::push', 'VecDeque::push_back')
def _(ex, fr, st, c, a):
    v = D(ex, st, a[0])
    if not isinstance(v, Seq): raise Unsupported('push on %s' % repr(v)[:60])
    setref(ex, st, a[0], Seq(v.segs + (One(a[1]),))); return UNITV
@model('Vec::insert')
def _(ex, fr, st, c, a):
    v = D(ex, st, a[0]); i = D(ex, st, a[1]); n = ex.seq_len(v)
    if i is ZERO: setref(ex, st, a[0], Seq((One(a[2]),) + v.segs)); return UNITV
    out = []
    for s2, b in ex.branch(st, le(i, n)):
        if not b: out.append((s2, ('panic', 'insert index'))); continue
        w = ex.seq_concat([ex.seq_slice(s2, v, ZERO, i), Seq([One(a[2])]), ex.seq_slice(s2, v, i, n)])
        setref(ex, s2, a[0], w); out.append((s2, UNITV))
    return out
@model('Vec::pop')
def _(ex, fr, st, c, a):
    v = D(ex, st, a[0])
    if v.segs and isinstance(v.segs[-1], One):
        setref(ex, st, a[0], Seq(v.segs[:-1])); return some(v.segs[-1].v)
    if not v.segs: return none()
    n = ex.seq_len(v); out = []
    for s2, b in ex.branch(st, lt(ZERO, n)):
        if not b: out.append((s2, none())); continue
        x = ex.seq_get(s2, v, isub(n, ONE)); setref(ex, s2, a[0], ex.seq_slice(s2, v, ZERO, isub(n, ONE))); out.append((s2, some(x)))
    return out
@model('Vec::remove')
def _(ex, fr, st, c, a):
    v = D(ex, st, a[0]); i = D(ex, st, a[1]); n = ex.seq_len(v); out = []
    for s2, b in ex.branch(st, lt(i, n)):
        if not b: out.append((s2, ('panic', 'remove index'))); continue
        x = ex.seq_get(s2, v, i)
        setref(ex, s2, a[0], ex.seq_concat([ex.seq_slice(s2, v, ZERO, i), ex.seq_slice(s2, v, iadd(i, ONE), n)])); out.append((s2, x))
    return out
@model('Vec::append')
def _(ex, fr, st, c, a):
    v = D(ex, st, a[0]); w = D(ex, st, a[1])
    setref(ex, st, a[0], ex.seq_concat([v, w])); setref(ex, st, a[1], Seq([])); return UNITV
@model('Vec::extend_from_slice')
def _(ex, fr, st, c, a):
    v = D(ex, st, a[0]); w = D(ex, st, a[1])
    out = []
    for s2, w2 in cases(ex, st, w):
        for s3, v2 in cases(ex, s2, v):
            setref(ex, s3, a[0], ex.seq_concat([v2, w2])); out.append((s3, UNITV))
    return out
@model('Extend::extend')
def _(ex, fr, st, c, a):
    v = D(ex, st, a[0])
    it = to_iter(ex, st, a[1])
    if isinstance(v, MapV):
        return collect_map(ex, fr, st, it, v, a[0])
    setref(ex, st, a[0], Seq(tuple(v.segs) + tuple(it.segs))); return UNITV
@model('Vec::clear')
def _(ex, fr, st, c, a): setref(ex, st, a[0], Seq([])); return UNITV
@model('Vec::truncate')
def _(ex, fr, st, c, a):
    v = D(ex, st, a[0]); n = D(ex, st, a[1]); l = ex.seq_len(v); out = []
    for s2, b in ex.branch(st, le(l, n)):
        if not b: setref(ex, s2, a[0], ex.seq_slice(s2, v, ZERO, n))
        out.append((s2, UNITV))
    return out
@model('Vec::resize')
def _(ex, fr, st, c, a):
    v = D(ex, st, a[0]); n = D(ex, st, a[1]); l = ex.seq_len(v); out = []
    for s2, b in ex.branch(st, le(l, n)):
        if b:
            k = fresh_var('I', 'k')
            setref(ex, s2, a[0], Seq(v.segs + (Comp(k, and_(le(ZERO, k), lt(k, isub(n, l))), [One(a[2])]),)))
        else: setref(ex, s2, a[0], ex.seq_slice(s2, v, ZERO, n))
        out.append((s2, UNITV))
    return out
@model('Vec::reserve', 'Vec::shrink_to_fit', 'Vec::reserve_exact')
def _(ex, fr, st, c, a): return UNITV
@model('Vec::len', 'slice::len', 'VecDeque::len', 'BTreeMap::len', 'BTreeSet::len', 'HashMap::len', 'HashSet::len', 'ExactSizeIterator::len', 'str::len', 'String::len', 'array::len')
def _(ex, fr, st, c, a):
    v = D(ex, st, a[0])
    if isinstance(v, IterV): v = Seq(v.segs)
    return known_nneg(ex.seq_len(v), st.pc)
def known_nneg(n, pc):
    """max(0, n) is n where pc entails 0 <= n"""
    if n.op == 'nneg': return n.args[0] if entails(pc, le(ZERO, n.args[0])) else n
    if n.op == 'lin':
        c, d = lin(n); r = num(c)
        for a, k in d.items(): r = iadd(r, iscale(known_nneg(a, pc) if a.op == 'nneg' else a, k))
        return r
    return n
@model('Vec::is_empty', 'slice::is_empty', 'BTreeMap::is_empty', 'BTreeSet::is_empty', 'HashMap::is_empty', 'HashSet::is_empty', 'str::is_empty', 'String::is_empty')
def _(ex, fr, st, c, a):
    v = D(ex, st, a[0])
    if isinstance(v, MapV): return not_(exists(v.var, TRUE, v.dom))
    if isinstance(v, T) and v.sort == 'S': return eq(v, sstr(''))
    return eq(ex.seq_len(v), ZERO)
@model('vec::from_elem')
def _(ex, fr, st, c, a):
    k = fresh_var('I', 'k')
    return Seq([Comp(k, and_(le(ZERO, k), lt(k, a[1])), [One(a[0])])])
@model('box_new_uninit', 'Box::new_uninit')
def _(ex, fr, st, c, a):
    key = (fr.id, 'box!%d' % next(BOXN)); st.mem[key] = Tup([UNITV, Tup([Tup([DEAD])])])
    return MRef(key[0], key[1], [])
BOXN = itertools.count()
@model('boxed::box_assume_init_into_vec_unsafe', 'box_assume_init_into_vec_unsafe')
def _(ex, fr, st, c, a):
    v = ex.deref(st, a[0]); return v.fs[1].fs[0].fs[0]
@model('slice::concat')
def _(ex, fr, st, c, a):
    v = D(ex, st, a[0]); out = []
    def go(segs):
        o = []
        for g in segs:
            if isinstance(g, One):
                w = D(ex, st, g.v)
                if not isinstance(w, Seq): raise Unsupported('concat')
                o += w.segs
            elif isinstance(g, Comp): o.append(Comp(g.var, g.cond, go(g.body), g.order))
            elif isinstance(g, Guard): o.append(Guard(g.cond, go(g.body)))
            else: raise Unsupported('concat')
        return o
    return Seq(go(v.segs))
@model('Index::index', 'IndexMut::index_mut', 'slice::get', 'Vec::get', 'slice::get_mut', 'SliceIndex::index', 'Vec::get_mut')
def _(ex, fr, st, c, a):
    r = a[0]; v = D(ex, st, r); i = D(ex, st, a[1])
    get = c.method.startswith('get'); mut = c.method.endswith('_mut') and is_mut(r)
    if isinstance(v, IteV):
        out = []
        if not mut:
            for s2, w in cases(ex, st, v): out += ex.norm_out(s2, STD['Index::index'](ex, fr, s2, c, [w, i]))
            return out
        v = ex.pick(st, v)
    if isinstance(v, MapV):
        k = scalar(ex, i); out = []
        for s2, b in ex.branch(st, subst(v.dom, {v.var: k})):
            out.append((s2, (vsub(v.val, {v.var: k})) if b else ('panic', 'map index')))
        return out
    if isinstance(i, Adt) and i.path.startswith('Range'):
        n = ex.seq_len(v)
        p = i.path
        if p == 'RangeFull': return r if mut else v
        if p == 'Range': lo, hi = D(ex, st, i.fs[0]), D(ex, st, i.fs[1])
        elif p == 'RangeFrom': lo, hi = D(ex, st, i.fs[0]), n
        elif p == 'RangeTo': lo, hi = ZERO, D(ex, st, i.fs[0])
        elif p == 'RangeInclusive': lo, hi = D(ex, st, i.fs[0]), iadd(D(ex, st, i.fs[1]), ONE)
        elif p == 'RangeToInclusive': lo, hi = ZERO, iadd(D(ex, st, i.fs[0]), ONE)
        okc = and_(le(lo, hi), le(hi, n)); out = []
        for s2, b in ex.branch(st, okc):
            if not b: out.append((s2, none() if get else ('panic', 'slice range'))); continue
            if mut:
                # reference to a sub-slice
                rr = MRef(r.fid, r.local, list(r.projs) + [('range', lo, hi)])
                out.append((s2, some(rr) if get else rr)); continue
            w = ex.seq_slice(s2, v, lo, hi)
            out.append((s2, some(w) if get else w))
        return out
    if not (isinstance(i, T) and i.sort == 'I'): raise Unsupported('index by %s' % repr(i)[:60])
    n = ex.seq_len(v); out = []
    for s2, b in ex.branch(st, and_(le(ZERO, i), lt(i, n))):
        if not b: out.append((s2, none() if get else ('panic', 'index out of bounds'))); continue
        if mut: x = MRef(r.fid, r.local, list(r.projs) + [('at', i)])
        else: x = ex.seq_get(s2, v, i)
        out.append((s2, some(x) if get else x))
    return out
@model('slice::first', 'slice::last')
def _(ex, fr, st, c, a):
    v = D(ex, st, a[0]); n = ex.seq_len(v); out = []
    for s2, b in ex.branch(st, lt(ZERO, n)):
        out.append((s2, some(ex.seq_get(s2, v, ZERO if c.method == 'first' else isub(n, ONE))) if b else none()))
    return out
@model('slice::split_first', 'slice::split_last')
def _(ex, fr, st, c, a):
    v = D(ex, st, a[0]); n = ex.seq_len(v); out = []
    for s2, b in ex.branch(st, lt(ZERO, n)):
        if not b: out.append((s2, none())); continue
        if c.method == 'split_first': x, w = ex.seq_get(s2, v, ZERO), ex.seq_slice(s2, v, ONE, n)
        else: x, w = ex.seq_get(s2, v, isub(n, ONE)), ex.seq_slice(s2, v, ZERO, isub(n, ONE))
        out.append((s2, some(Tup([x, w]))))
    return out
@model('slice::first_mut', 'slice::last_mut')
def _(ex, fr, st, c, a):
    v = D(ex, st, a[0]); n = ex.seq_len(v); out = []; d = copy.copy(c); d.method = 'get_mut'
    for s2, b in ex.branch(st, lt(ZERO, n)):
        if not b: out.append((s2, none())); continue
        out += ex.norm_out(s2, STD['slice::get_mut'](ex, fr, s2, d, [a[0], ZERO if c.method == 'first_mut' else isub(n, ONE)]))
    return out
@model('Vec::swap_remove')
def _(ex, fr, st, c, a):
    v = D(ex, st, a[0]); i = D(ex, st, a[1]); n = ex.seq_len(v); l = isub(n, ONE); out = []
    for s2, b in ex.branch(st, lt(i, n)):
        if not b: out.append((s2, ('panic', 'swap_remove index'))); continue
        x = ex.seq_get(s2, v, i); y = ex.seq_get(s2, v, l)
        for s3, e in ex.branch(s2, eq(i, l)):
            setref(ex, s3, a[0], ex.seq_slice(s3, v, ZERO, l) if e else ex.seq_concat([ex.seq_slice(s3, v, ZERO, i), Seq([One(y)]), ex.seq_slice(s3, v, iadd(i, ONE), l)]))
            out.append((s3, x))
    return out
@model('slice::swap')
def _(ex, fr, st, c, a):
    v = D(ex, st, a[0]); n = ex.seq_len(v); out = []; i, j = D(ex, st, a[1]), D(ex, st, a[2])
    for s2, b in ex.branch(st, and_(lt(i, n), lt(j, n))):
        if not b: out.append((s2, ('panic', 'swap index'))); continue
        for s3, o in ex.branch(s2, le(i, j)):
            p, q = (i, j) if o else (j, i); x, y = ex.seq_get(s3, v, p), ex.seq_get(s3, v, q)
            for s4, e in ex.branch(s3, eq(p, q)):
                if not e: setref(ex, s4, a[0], ex.seq_concat([ex.seq_slice(s4, v, ZERO, p), Seq([One(y)]), ex.seq_slice(s4, v, iadd(p, ONE), q), Seq([One(x)]), ex.seq_slice(s4, v, iadd(q, ONE), n)]))
                out.append((s4, UNITV))
    return out
@model('slice::split_at')
def _(ex, fr, st, c, a):
    v = D(ex, st, a[0]); i = D(ex, st, a[1]); n = ex.seq_len(v); out = []
    for s2, b in ex.branch(st, le(i, n)):
        out.append((s2, Tup([ex.seq_slice(s2, v, ZERO, i), ex.seq_slice(s2, v, i, n)]) if b else ('panic', 'split_at')))
    return out
@model('Vec::split_off')
def _(ex, fr, st, c, a):
    v = D(ex, st, a[0]); i = D(ex, st, a[1]); n = ex.seq_len(v); out = []
    for s2, b in ex.branch(st, le(i, n)):
        if not b: out.append((s2, ('panic', 'split_off'))); continue
        w = ex.seq_slice(s2, v, i, n); setref(ex, s2, a[0], ex.seq_slice(s2, v, ZERO, i)); out.append((s2, w))
    return out
@model('slice::copy_from_slice', 'slice::clone_from_slice')
def _(ex, fr, st, c, a):
    r = a[0]; v = D(ex, st, r); w = D(ex, st, a[1]); out = []
    for s2, b in ex.branch(st, eq(ex.seq_len(v), ex.seq_len(w))):
        if not b: out.append((s2, ('panic', 'copy_from_slice length'))); continue
        setref(ex, s2, r, w); out.append((s2, UNITV))
    return out
@model('slice::reverse')
def _(ex, fr, st, c, a):
    v = D(ex, st, a[0]); setref(ex, st, a[0], Seq(rev_segs(ex, v.segs))); return UNITV
@model('slice::contains')
def _(ex, fr, st, c, a):
    v = D(ex, st, a[0]); x = D(ex, st, a[1])
    return segs_exist(ex, st, v.segs, lambda s, e: val_eq(ex, s, e, x))
def segs_exist(ex, st, segs, p):
    out = []
    for g in segs:
        if isinstance(g, One): out.append(p(st, g.v))
        elif isinstance(g, Guard): out.append(and_(g.cond, segs_exist(ex, st, g.body, p)))
        elif isinstance(g, Comp): out.append(exists(g.var, g.cond, segs_exist(ex, st, g.body, p)))
        else: raise Unsupported('exists over hole')
    return or_(*out)
def rev_segs(ex, segs):
    out = []
    for g in segs[::-1]:
        if isinstance(g, One): out.append(g)
        elif isinstance(g, Guard): out.append(Guard(g.cond, rev_segs(ex, g.body)))
        elif isinstance(g, Comp):
            r = ex.comp_range(g)
            if r is None or r[1] is None:
                if g.order in ('asc', 'desc'):
                    out.append(Comp(g.var, g.cond, rev_segs(ex, g.body), 'desc' if g.order == 'asc' else 'asc')); continue
                raise Unsupported('reverse of unordered')
            nv = fresh_var('I', 'k'); s = {g.var: isub(iadd(r[0], isub(r[1], ONE)), nv)}
            out.append(Comp(nv, and_(le(r[0], nv), lt(nv, r[1])), rev_segs(ex, [segsub(x, s) for x in g.body]), g.order))
        else: raise Unsupported('reverse')
    return out
@model('Vec::dedup')
def _(ex, fr, st, c, a):
    # which elements equal their predecessor is left open
    v = D(ex, st, a[0]); w = valterm(v); n = itertools.count()
    def go(segs, vs):
        out = []
        for g in segs:
            i = next(n)
            if isinstance(g, One): out.append(g if i == 0 else Guard(app('dedup.keep', (w, num(i)) + vs, 'B'), [g]))
            elif isinstance(g, Comp): out.append(Comp(g.var, g.cond, go(g.body, vs + (g.var,)), g.order))
            elif isinstance(g, Guard): out.append(Guard(g.cond, go(g.body, vs)))
            else: raise Unsupported('dedup of %s' % type(g).__name__)
        return out
    out = go(v.segs, ())
    setref(ex, st, a[0], Seq(out)); return UNITV
@model('str::starts_with', 'str::ends_with', 'str::contains', 'str::eq_ignore_ascii_case')
def _(ex, fr, st, c, a):
    x, y = D(ex, st, a[0]), D(ex, st, a[1])
    if not (isinstance(x, T) and x.sort == 'S' and isinstance(y, T)): raise Unsupported(c.key)
    if x.op == y.op == 'str' and c.method != 'eq_ignore_ascii_case':
        p, q = x.args[0], y.args[0]
        return TRUE if (p.startswith(q) if c.method == 'starts_with' else p.endswith(q) if c.method == 'ends_with' else q in p) else FALSE
    if x is y: return TRUE
    return app('str.' + c.method, (x, y), 'B')
@model('str::trim', 'str::to_lowercase', 'str::to_uppercase', 'str::trim_start', 'str::trim_end')
def _(ex, fr, st, c, a):
    x = D(ex, st, a[0])
    if not (isinstance(x, T) and x.sort == 'S'): raise Unsupported(c.key)
    return app('str.' + c.method, (x,), 'S')
@model('slice::sort', 'slice::sort_by', 'slice::sort_unstable')
def _(ex, fr, st, c, a): raise Unsupported(c.key)
@model('slice::join')
def _(ex, fr, st, c, a): return app('join', (valterm(D(ex, st, a[0])),), 'S')
@model('slice::iter', 'Vec::iter', 'array::iter', 'BTreeMap::iter', 'HashMap::iter', 'BTreeSet::iter', 'HashSet::iter', 'IntoIterator::into_iter', 'IntoParallelRefIterator::par_iter', 'IntoParallelIterator::into_par_iter', 'Vec::into_iter', 'Option::iter', 'VecDeque::iter', 'Vec::drain', 'RangeBounds::iter', 'BTreeMap::into_iter')
def _(ex, fr, st, c, a):
    r = a[0]
    if c.method == 'drain':
        v = D(ex, st, r); setref(ex, st, r, Seq([])); return to_iter(ex, st, v)
    if isinstance(r, MRef):
        v = D(ex, st, r)
        if isinstance(v, IterV): return r           # by_ref
        # into_iter on &mut Vec
        if c.self_ty is not None and c.self_ty.k == 'refmut': return iter_mut(ex, st, r)
    return to_iter(ex, st, r)
@model('slice::iter_mut', 'Vec::iter_mut', 'BTreeMap::iter_mut', 'HashMap::iter_mut', 'BTreeMap::values_mut', 'HashMap::values_mut')
def _(ex, fr, st, c, a): return iter_mut(ex, st, a[0], c.method == 'values_mut')
def iter_mut(ex, st, r, values=False):
    v = D(ex, st, r)
    if isinstance(v, Seq):
        n = ex.seq_len(v); k = fresh_var('I', 'k')
        if all(isinstance(g, One) for g in v.segs):
            return IterV([One(MRef(r.fid, r.local, list(r.projs) + [('at', num(i))])) for i in range(len(v.segs))])
        return IterV([Comp(k, and_(le(ZERO, k), lt(k, n)), [One(MRef(r.fid, r.local, list(r.projs) + [('at', k)]))])])
    if isinstance(v, MapV):
        k = fresh_var(v.var.sort, 'key')
        ref = MRef(r.fid, r.local, list(r.projs) + [('key', k)])
        return IterV([Comp(k, subst(v.dom, {v.var: k}), [One(ref if values else Tup([k, ref]))], v.order)])
    raise Unsupported('iter_mut of %s' % repr(v)[:60])
def map_items(m, what='kv'):
    if not isinstance(m, MapV): raise Unsupported("items of %s" % repr(m)[:60])
    k = fresh_var(m.var.sort, 'key'); r = {m.var: k}
    val = vsub(m.val, r)
    kk = k
    x = {'kv': Tup([k, val]), 'k': k, 'v': val}[what] if m.val is not UNITV else k
    return Comp(k, subst(m.dom, r), [One(x)], m.order)
def to_iter(ex, st, v):
    v = D(ex, st, v)
    if isinstance(v, IterV): return v
    if isinstance(v, Seq): return IterV(v.segs)
    if isinstance(v, MapV): return IterV([map_items(v)])
    if isinstance(v, Adt):
        if v.path == 'Range':
            k = fresh_var('I', 'k'); lo, hi = D(ex, st, v.fs[0]), D(ex, st, v.fs[1])
            return IterV([Comp(k, and_(le(lo, k), lt(k, hi)), [One(k)])])
        if v.path == 'RangeInclusive':
            k = fresh_var('I', 'k'); lo, hi = D(ex, st, v.fs[0]), D(ex, st, v.fs[1])
            return IterV([Comp(k, and_(le(lo, k), le(k, hi)), [One(k)])])
        if v.path == 'RangeFrom':
            k = fresh_var('I', 'k'); return IterV([Comp(k, le(D(ex, st, v.fs[0]), k), [One(k)])])
        if v.path == 'Option': return IterV([One(v.fs[0])] if v.vn == 'Some' else [])
    if isinstance(v, IteV):
        a = to_iter(ex, st, v.a); b = to_iter(ex, st, v.b)
        return IterV(ite_segs(v.c, a.segs, b.segs))
    raise Unsupported('iterate %s' % repr(v)[:80])
@model('RangeInclusive::new')
def _(ex, fr, st, c, a): return Adt('RangeInclusive', 0, 'RangeInclusive', (a[0], a[1]))

# ------------------------------------------------------------------ iterators (evaluated eagerly)
def it_arg(ex, st, v):
    """take an iterator argument; through &mut the source is exhausted"""
    if isinstance(v, MRef):
        it = to_iter(ex, st, v); setref(ex, st, v, IterV([])); return it
    return to_iter(ex, st, v)
def ret_norm(outs, f=lambda segs: IterV(segs)):
    return [(a, ('ret', f(o[1])) if o[0] == 'norm' else o) for a, o in outs]
def call_outs(ex, fr, st, f, args, g):
    """call closure and map ('ret', v) to g(state, v) -> [(state, outcome)]"""
    out = []
    for s2, o in ex.call_value(fr, st, f, args):
        if o[0] == 'ret': out += g(s2, o[1])
        else: out.append((s2, o))
    return out
@model('Iterator::map', 'ParallelIterator::map', 'IndexedParallelIterator::map')
def _(ex, fr, st, c, a):
    it = it_arg(ex, st, a[0])
    step = lambda s, v: call_outs(ex, fr, s, a[1], [v], lambda s2, r: [(s2, ('norm', [One(ex.deep(s2, r) if False else r)]))])
    return ret_norm(ex.run_segs(st, it.segs, step, 'map'))
@model('Iterator::for_each')
def _(ex, fr, st, c, a):
    it = it_arg(ex, st, a[0])
    step = lambda s, v: call_outs(ex, fr, s, a[1], [v], lambda s2, r: [(s2, ('norm', []))])
    return ret_norm(ex.run_segs(st, it.segs, step, 'for_each'), lambda x: UNITV)
@model('Iterator::filter')
def _(ex, fr, st, c, a):
    it = it_arg(ex, st, a[0])
    def g(v):
        def h(s2, r): return [(s3, ('norm', [One(v)] if b else [])) for s3, b in ex.branch(s2, r)]
        return h
    return ret_norm(ex.run_segs(st, it.segs, lambda s, v: call_outs(ex, fr, s, a[1], [v], g(v)), 'filter'))
@model('Iterator::filter_map')
def _(ex, fr, st, c, a):
    it = it_arg(ex, st, a[0])
    def h(s2, r): return [(s3, ('norm', [One(w.fs[0])] if w.vn == 'Some' else [])) for s3, w in cases(ex, s2, r)]
    return ret_norm(ex.run_segs(st, it.segs, lambda s, v: call_outs(ex, fr, s, a[1], [v], h), 'filter_map'))
@model('Iterator::flat_map')
def _(ex, fr, st, c, a):
    it = it_arg(ex, st, a[0])
    def h(s2, r): return [(s2, ('norm', list(to_iter(ex, s2, r).segs)))]
    return ret_norm(ex.run_segs(st, it.segs, lambda s, v: call_outs(ex, fr, s, a[1], [v], h), 'flat_map'))
@model('Iterator::flatten')
def _(ex, fr, st, c, a):
    it = it_arg(ex, st, a[0])
    def h(s2, r):
        out = []
        for s3, w in cases(ex, s2, r): out.append((s3, ('norm', list(to_iter(ex, s3, w).segs))))
        return out
    return ret_norm(ex.run_segs(st, it.segs, lambda s, v: h(s, v), 'flatten'))
@model('Iterator::cloned', 'Iterator::copied', 'Iterator::fuse', 'Iterator::peekable', 'ParallelIterator::cloned')
def _(ex, fr, st, c, a): return it_arg(ex, st, a[0])
@model('Iterator::rev', 'DoubleEndedIterator::rev')
def _(ex, fr, st, c, a): return IterV(rev_segs(ex, it_arg(ex, st, a[0]).segs))
@model('Iterator::chain')
def _(ex, fr, st, c, a): return IterV(it_arg(ex, st, a[0]).segs + it_arg(ex, st, a[1]).segs)
@model('Iterator::enumerate')
def _(ex, fr, st, c, a):
    it = it_arg(ex, st, a[0]); out = []; off = ZERO
    for g in it.segs:
        if isinstance(g, One): out.append(One(Tup([off, g.v])))
        elif isinstance(g, Comp):
            r = ex.comp_range(g)
            if r is not None and len(g.body) == 1 and isinstance(g.body[0], One):
                out.append(Comp(g.var, g.cond, [One(Tup([iadd(off, isub(g.var, r[0])), g.body[0].v]))], g.order))
            elif len(g.body) == 1 and isinstance(g.body[0], One):
                kp = fresh_var(g.var.sort, 'p')
                rank = count(kp, and_(subst(g.cond, {g.var: kp}), ex.before(g.order, kp, g.var)))
                out.append(Comp(g.var, g.cond, [One(Tup([iadd(off, rank), g.body[0].v]))], g.order))
            else: raise Unsupported('enumerate nested')
        else: raise Unsupported('enumerate')
        off = iadd(off, ex.seg_len(g)) if g is not it.segs[-1] else off
    return IterV(out)
@model('Iterator::take')
def _(ex, fr, st, c, a):
    r = a[0]; it = to_iter(ex, st, r); n = D(ex, st, a[1])
    if isinstance(r, MRef): raise Unsupported('take by ref')
    inf = any(isinstance(g, Comp) and ex.comp_range(g) and ex.comp_range(g)[1] is None for g in it.segs)
    if inf:
        g = it.segs[0]; lo = ex.comp_range(g)[0]
        return IterV([Comp(g.var, and_(g.cond, lt(g.var, iadd(lo, n))), g.body, g.order)])
    l = ex.seq_len(Seq(it.segs)); out = []
    for s2, b in ex.branch(st, le(l, n)):
        out.append((s2, it if b else IterV(ex.seq_slice(s2, Seq(it.segs), ZERO, n).segs)))
    return out
@model('Iterator::skip')
def _(ex, fr, st, c, a):
    it = it_arg(ex, st, a[0]); n = D(ex, st, a[1])
    l = ex.seq_len(Seq(it.segs)); out = []
    for s2, b in ex.branch(st, le(l, n)):
        out.append((s2, IterV([]) if b else IterV(ex.seq_slice(s2, Seq(it.segs), n, l).segs)))
    return out
@model('Iterator::step_by')
def _(ex, fr, st, c, a):
    it = it_arg(ex, st, a[0]); n = D(ex, st, a[1])
    if len(it.segs) == 1 and isinstance(it.segs[0], Comp):
        g = it.segs[0]; r = ex.comp_range(g)
        if r and r[1] is not None:
            q = fresh_var('I', 'k'); cnt = idiv(iadd(isub(r[1], r[0]), isub(n, ONE)), n)
            s = {g.var: iadd(r[0], imul(q, n))}
            return IterV([Comp(q, and_(le(ZERO, q), lt(q, cnt)), [segsub(x, s) for x in g.body], g.order)])
    raise Unsupported('step_by')
def zip_segs(ex, st, A, B):
    A = ex.norm_segs(list(A)); B = ex.norm_segs(list(B)); out = []
    while A and B:
        x, y = A[0], B[0]
        if isinstance(x, Comp) and x.cond is FALSE: A.pop(0); continue
        if isinstance(y, Comp) and y.cond is FALSE: B.pop(0); continue
        if isinstance(x, One) and isinstance(y, One):
            out.append(One(Tup([x.v, y.v]))); A.pop(0); B.pop(0); continue
        if isinstance(x, One) or isinstance(y, One):
            # peel the comprehension
            P, g = (B, y) if isinstance(x, One) else (A, x)
            r = ex.comp_range(g) if isinstance(g, Comp) else None
            if r is None: raise Unsupported('zip peel %r with %r' % (x, y))
            nonempty = TRUE if r[1] is None else lt(r[0], r[1])
            if entails(st.pc, nonempty):
                nv = fresh_var('I', 'k')
                tail = Comp(nv, and_(le(iadd(r[0], ONE), nv), *([lt(nv, r[1])] if r[1] is not None else [])), [segsub(z, {g.var: nv}) for z in g.body], g.order)
                P[0:1] = [segsub(z, {g.var: r[0]}) for z in g.body] + [tail]; continue
            if entails(st.pc, not_(nonempty)): P.pop(0); continue
            raise Unsupported('zip peel undecided')
        if isinstance(x, Comp) and isinstance(y, Comp) and flat1([x, y]):
            rx, ry = ex.comp_range(x), ex.comp_range(y)
            k = fresh_var(x.var.sort, 'k')
            bx, by = x.body[0].v, y.body[0].v
            if rx and ry:
                lx = isub(rx[1], rx[0]) if rx[1] is not None else None
                ly = isub(ry[1], ry[0]) if ry[1] is not None else None
                mk = lambda n: Comp(k, and_(le(ZERO, k), *([lt(k, n)] if n is not None else [])), [One(Tup([vsub(bx, {x.var: iadd(rx[0], k)}), vsub(by, {y.var: iadd(ry[0], k)})]))], x.order)
                if lx is None and ly is None: out.append(mk(None)); return out
                if ly is None or (lx is not None and (lx is ly or entails(st.pc, eq(lx, ly)))):
                    out.append(mk(lx)); A.pop(0)
                    if ly is None:
                        nv = fresh_var('I', 'k'); B[0] = Comp(nv, le(iadd(ry[0], lx), nv), [segsub(z, {y.var: nv}) for z in y.body], y.order)
                    else: B.pop(0)
                    continue
                if lx is None:
                    out.append(mk(ly)); B.pop(0); nv = fresh_var('I', 'k'); A[0] = Comp(nv, le(iadd(rx[0], ly), nv), [segsub(z, {x.var: nv}) for z in x.body], x.order); continue
                if entails(st.pc, le(lx, ly)) or (len(A) == 1 and len(B) == 1 and entails(st.pc, le(lx, ly))):
                    out.append(mk(lx)); A.pop(0)
                    nv = fresh_var('I', 'k'); B[0] = Comp(nv, and_(le(iadd(ry[0], lx), nv), lt(nv, ry[1])), [segsub(z, {y.var: nv}) for z in y.body], y.order); continue
                if entails(st.pc, le(ly, lx)):
                    out.append(mk(ly)); B.pop(0)
                    nv = fresh_var('I', 'k'); A[0] = Comp(nv, and_(le(iadd(rx[0], ly), nv), lt(nv, rx[1])), [segsub(z, {x.var: nv}) for z in x.body], x.order); continue
                if len(A) == 1 and len(B) == 1:
                    out.append(Comp(k, and_(le(ZERO, k), lt(k, lx), lt(k, ly)), [One(Tup([vsub(bx, {x.var: iadd(rx[0], k)}), vsub(by, {y.var: iadd(ry[0], k)})]))], x.order)); return out
                raise Unsupported('zip lengths undecided')
            cx, cy = subst(x.cond, {x.var: k}), subst(y.cond, {y.var: k}) if y.var.sort == k.sort else None
            if cy is not None and x.order == y.order and (cx is cy or check(st.pc, [or_(and_(cx, not_(cy)), and_(cy, not_(cx)))]) == 'unsat'):
                out.append(Comp(k, cx, [One(Tup([vsub(bx, {x.var: k}), vsub(by, {y.var: k})]))], x.order)); A.pop(0); B.pop(0); continue
            # filtered against a range: rank indexing
            if rx is None and ry is not None or ry is None and rx is not None:
                f, g, fb, gb, rg = (x, y, bx, by, ry) if rx is None else (y, x, by, bx, rx)
                k = fresh_var(f.var.sort, 'k')
                kp = fresh_var(f.var.sort, 'p'); cf = subst(f.cond, {f.var: k})
                rank = count(kp, and_(subst(f.cond, {f.var: kp}), ex.before(f.order, kp, k)))
                n = ex.seg_len(f)
                e1 = vsub(fb, {f.var: k}); e2 = vsub(gb, {g.var: iadd(rg[0], rank)})
                pair = Tup([e1, e2] if f is x else [e2, e1])
                lg = isub(rg[1], rg[0]) if rg[1] is not None else None
                if lg is None or entails(st.pc, le(n, lg)):
                    out.append(Comp(k, cf, [One(pair)], f.order)); (A if f is x else B).pop(0)
                    rest = Comp(g.var, and_(g.cond, le(iadd(rg[0], n), g.var)), g.body, g.order)
                    if lg is not None and entails(st.pc, eq(n, lg)): (B if f is x else A).pop(0)
                    else: (B if f is x else A)[0] = rest
                    continue
                if len(A) == 1 and len(B) == 1:
                    out.append(Comp(k, and_(cf, lt(rank, lg)), [One(pair)], f.order)); return out
        raise Unsupported('zip %s with %s' % (repr(x)[:60], repr(y)[:60]))
    return out
@model('Iterator::zip', 'IndexedParallelIterator::zip')
def _(ex, fr, st, c, a):
    A = it_arg(ex, st, a[0]); B = it_arg(ex, st, a[1])
    return IterV(zip_segs(ex, st, A.segs, B.segs))
@model('Iterator::eq', 'Iterator::ne')
def _(ex, fr, st, c, a):
    A = it_arg(ex, st, a[0]); B = it_arg(ex, st, to_iter(ex, st, a[1]) if not isinstance(a[1], MRef) else a[1])
    def ident(it):
        if len(it.segs) == 1 and isinstance(it.segs[0], Comp) and it.segs[0].order == 'asc' and len(it.segs[0].body) == 1:
            g = it.segs[0]; o = g.body[0]
            if isinstance(o, One):
                v = D(ex, st, o.v)
                if v is g.var: return g
        return None
    ga, gb = ident(A), ident(B)
    if ga and gb and ga.var.sort == gb.var.sort:
        k = fresh_var(ga.var.sort, 'k'); x, y = subst(ga.cond, {ga.var: k}), subst(gb.cond, {gb.var: k})
        r = and_(forall(k, x, y), forall(k, y, x))
    else: r = val_eq(ex, st, Seq(A.segs), Seq(B.segs))
    return r if c.method == 'eq' else not_(r)
@model('Iterator::any', 'Iterator::all')
def _(ex, fr, st, c, a):
    it = it_arg(ex, st, a[0]); isany = c.method == 'any'
    def pred(s, v):
        outs = ex.call_value(fr, s.fork(), a[1], [v])
        if any(o[0] != 'ret' for _, o in outs): raise Unsupported('panic in any')
        d = []
        for s2, o in outs:
            dl = and_(*[x for x in s2.pc if x not in s.pc])
            d.append(and_(dl, o[1] if isany else not_(o[1])))
        return or_(*d)
    def go(s, segs):
        out = []
        for g in segs:
            if isinstance(g, One): out.append(pred(s, g.v))
            elif isinstance(g, Guard): out.append(and_(g.cond, go(s.fork().assume(g.cond), g.body)))
            elif isinstance(g, Comp):
                g = rename(g); s2 = s.fork().assume(g.cond); out.append(exists(g.var, g.cond, go(s2, g.body)))
            else: raise Unsupported('any over hole')
        return or_(*out)
    r = go(st, it.segs)
    return r if isany else not_(r)
def fold(ex, fr, st, it, init, f, wrap=lambda v: v):
    """fold with a synthetic accumulator cell"""
    key = ('acc', 'fold%d' % next(execu.terms_fresh))
    st.mem[key] = init
    def step(s, v):
        acc = s.mem[key]
        def g(s2, r): s2.mem[key] = r; return [(s2, ('norm', []))]
        return call_outs(ex, fr, s, f, [acc, v], g) if not callable(f) else g(s, f(s, acc, v))
    outs = ex.run_segs(st, it.segs, step, 'fold')
    res = []
    for s2, o in outs:
        if o[0] == 'norm':
            v = s2.mem.pop(key); res.append((s2, ('ret', wrap(v))))
        else: s2.mem.pop(key, None); res.append((s2, o))
    return res
def fold_result(ex, fr, st, it, init, f, kept, mk):
    """fold over a Result accumulator: the cell holds the Ok payload and the fold ends at the first Err.
    kept: the closure itself receives the Result (plain fold); it must then answer Err to Err for every element."""
    key = ('acc', 'fold%d' % next(execu.terms_fresh)); st.mem[key] = init
    loud = []
    def absorbs(s, segs):
        for g in segs:
            if isinstance(g, One):
                for s2, o in ex.call_value(fr, s.fork(), f, [err(ERRV), g.v]):
                    if o[0] == 'panic': loud.append(o); continue
                    for s3, r in cases(ex, s2, o[1]):
                        if need_enum(r).vn != 'Err': raise Unsupported('fold closure turns an error into a value')
            elif isinstance(g, Guard): absorbs(s.fork().assume(g.cond), g.body)
            elif isinstance(g, Comp): g = rename(g); absorbs(s.fork().assume(g.cond), g.body)
            else: raise Unsupported('fold over growing sequence')
    if kept: absorbs(st, it.segs)
    def step(s, v):
        acc = s.mem[key]; out = []
        for s2, o in ex.call_value(fr, s, f, [ok(acc) if kept else acc, v]):
            if o[0] != 'ret': out.append((s2, o)); continue
            for s3, r in cases(ex, s2, o[1]):
                r = need_enum(r)
                if r.vn == 'Ok': s3.mem[key] = r.fs[0]; out.append((s3, ('norm', [])))
                else:
                    for p in loud[:1]: out.append((s3.fork(), p))
                    out.append((s3, ('ret', r)))
        return out
    res = []
    for s2, o in ex.run_segs(st, it.segs, step, 'fold'):
        v = s2.mem.pop(key, None)
        res.append((s2, ('ret', mk(v)) if o[0] == 'norm' else o))
    return res
@model('Iterator::fold')
def _(ex, fr, st, c, a):
    it = it_arg(ex, st, a[0]); out = []
    if isinstance(a[1], Adt) and a[1].vn in ('Ok', 'Err') or isinstance(a[1], IteV):
        for s2, i in cases(ex, st, a[1]):
            if isinstance(i, Adt) and i.vn == 'Ok': out += fold_result(ex, fr, s2, it, i.fs[0], a[2], True, ok)
            elif isinstance(i, Adt) and i.vn == 'Err': raise Unsupported('fold from an error')
            else: out += fold(ex, fr, s2, it, i, a[2])
        return out
    return fold(ex, fr, st, it, a[1], a[2])
@model('Iterator::try_fold')
def _(ex, fr, st, c, a): return fold_result(ex, fr, st, it_arg(ex, st, a[0]), a[1], a[2], False, ok)
@model('ParallelIterator::reduce')
def _(ex, fr, st, c, a):
    it = it_arg(ex, st, a[0]); out = []
    for s2, o in ex.call_value(fr, st, a[1], []):
        out += fold(ex, fr, s2, it, o[1], a[2])
    return out
@model('Iterator::sum', 'ParallelIterator::sum')
def _(ex, fr, st, c, a):
    it = it_arg(ex, st, a[0])
    def go(segs):
        tot = None
        for g in segs:
            if isinstance(g, One): x = g.v
            elif isinstance(g, Guard): x = ite(g.cond, go(g.body), R0)
            elif isinstance(g, Comp):
                b = go(g.body); x = rsum(g.var, g.cond, b) if b.sort == 'F' else ex.isum(g.var, g.cond, b)
            else: raise Unsupported('sum')
            tot = x if tot is None else tot + x
        return tot
    r = go(it.segs)
    if r is None:
        t = c.gens[0] if c.gens else None
        return ZERO if t is not None and t.name in INTS else R0
    return r
@model('Iterator::count')
def _(ex, fr, st, c, a): return ex.seq_len(Seq(it_arg(ex, st, a[0]).segs))
@model('Iterator::last')
def _(ex, fr, st, c, a):
    v = Seq(it_arg(ex, st, a[0]).segs); n = ex.seq_len(v); out = []
    for s2, b in ex.branch(st, lt(ZERO, n)): out.append((s2, some(ex.seq_get(s2, v, isub(n, ONE))) if b else none()))
    return out
@model('Iterator::nth')
def _(ex, fr, st, c, a):
    v = Seq(it_arg(ex, st, a[0]).segs); i = D(ex, st, a[1]); n = ex.seq_len(v); out = []
    for s2, b in ex.branch(st, lt(i, n)): out.append((s2, some(ex.seq_get(s2, v, i)) if b else none()))
    return out
@model('Iterator::position')
def _(ex, fr, st, c, a): raise Unsupported(c.key)
@model('Iterator::find')
def _(ex, fr, st, c, a):
    it = it_arg(ex, st, a[0])
    step = lambda s, v: call_outs(ex, fr, s, a[1], [v], lambda s2, r: [(s3, ('ret', some(v)) if b else ('norm', [])) for s3, b in ex.branch(s2, r)])
    return ret_norm(ex.run_segs(st, it.segs, step, 'find'), lambda x: none())
@model('Iterator::find_map')
def _(ex, fr, st, c, a):
    it = it_arg(ex, st, a[0])
    step = lambda s, v: call_outs(ex, fr, s, a[1], [v], lambda s2, r: [(s3, ('ret', w) if w.vn == 'Some' else ('norm', [])) for s3, w in cases(ex, s2, r)])
    return ret_norm(ex.run_segs(st, it.segs, step, 'find_map'), lambda x: none())
@model('Iterator::inspect')
def _(ex, fr, st, c, a):
    it = it_arg(ex, st, a[0])
    return ret_norm(ex.run_segs(st, it.segs, lambda s, v: call_outs(ex, fr, s, a[1], [v], lambda s2, r: [(s2, ('norm', [One(v)]))]), 'inspect'))
@model('Iterator::try_for_each')
def _(ex, fr, st, c, a):
    it = it_arg(ex, st, a[0])
    def h(s2, r):
        out = []
        for s3, w in cases(ex, s2, r): out.append((s3, ('norm', []) if need_enum(w).vn in ('Ok', 'Some') else ('ret', w)))
        return out
    return ret_norm(ex.run_segs(st, it.segs, lambda s, v: call_outs(ex, fr, s, a[1], [v], h), 'try_for_each'), lambda x: ok(UNITV))
@model('Iterator::reduce')
def _(ex, fr, st, c, a):
    v = Seq(it_arg(ex, st, a[0]).segs); n = ex.seq_len(v); out = []
    for s2, b in ex.branch(st, lt(ZERO, n)):
        if not b: out.append((s2, none())); continue
        x = ex.seq_get(s2, v, ZERO); r = ex.seq_slice(s2, v, ONE, n)
        out += [(s3, ('ret', some(o[1])) if o[0] == 'ret' else o) for s3, o in fold(ex, fr, s2, r, x, a[1])]
    return out
@model('Iterator::take_while')
def _(ex, fr, st, c, a):
    it = it_arg(ex, st, a[0]); out = []
    segs = it.segs
    if not all(isinstance(g, One) for g in segs): raise Unsupported('take_while over a symbolic sequence')
    def go(s, i, acc):
        if i == len(segs): out.append((s, ('ret', IterV(acc)))); return
        for s2, o in ex.call_value(fr, s, a[1], [segs[i].v]):
            if o[0] != 'ret': out.append((s2, o)); continue
            for s3, b in ex.branch(s2, o[1]):
                if b: go(s3, i + 1, acc + [segs[i]])
                else: out.append((s3, ('ret', IterV(acc))))
    go(st, 0, []); return out
@model('Iterator::next')
def _(ex, fr, st, c, a): raise Unsupported('next on %s' % repr(D(ex, st, a[0]))[:80])
@model('Iterator::size_hint')
def _(ex, fr, st, c, a):
    n = ex.seq_len(Seq(to_iter(ex, st, a[0]).segs)); return Tup([n, some(n)])
@model('Iterator::unzip')
def _(ex, fr, st, c, a):
    it = it_arg(ex, st, a[0])
    def go(segs, i):
        out = []
        for g in segs:
            if isinstance(g, One): out.append(One(D(ex, st, g.v).fs[i]))
            elif isinstance(g, Comp): out.append(Comp(g.var, g.cond, go(g.body, i), g.order))
            elif isinstance(g, Guard): out.append(Guard(g.cond, go(g.body, i)))
        return out
    return Tup([Seq(go(it.segs, 0)), Seq(go(it.segs, 1))])
def collect_map(ex, fr, st, it, init, ref=None):
    """insert every item into a map"""
    key = ('acc', 'coll%d' % next(execu.terms_fresh)); st.mem[key] = init
    isset = init.val is UNITV
    def step(s, v):
        v = D(ex, s, v)
        kx, vx = (v, UNITV) if isset else (v.fs[0], v.fs[1])
        s.mem[key] = ex.models.map_insert(ex, s, s.mem[key], kx, vx)
        return [(s, ('norm', []))]
    outs = ex.run_segs(st, it.segs, step, 'collect')
    res = []
    for s2, o in outs:
        if o[0] == 'norm':
            v = s2.mem.pop(key)
            if ref is not None: setref(ex, s2, ref, v); v = UNITV
            res.append((s2, ('ret', v)))
        else: res.append((s2, o))
    return res
def empty_map(ex, ty):
    so = ex.sort_of(ty.args[0]) if ty is not None and ty.args else 'S'
    return MapV(fresh_var(so, 'key'), FALSE, UNITV if 'Set' in ty.name else None, 'asc' if ty.name.startswith('BT') else 'hash')
@model('Iterator::collect', 'FromIterator::from_iter', 'ParallelIterator::collect')
def _(ex, fr, st, c, a):
    it = it_arg(ex, st, a[0])
    ty = None
    if c.method == 'collect' and c.gens: ty = [g for g in c.gens if g is not None][-1]
    elif c.self_ty is not None: ty = c.self_ty
    ty = ex.subty(fr, ex.alias(ty)) if ty is not None else None
    return collect(ex, fr, st, it, ty)
def collect(ex, fr, st, it, ty):
    n = ty.name if ty is not None else 'Vec'
    if n in ('BTreeMap', 'HashMap', 'BTreeSet', 'HashSet'):
        # order-preserving identity: items straight from a map's own keys
        if len(it.segs) == 1 and isinstance(it.segs[0], Comp) and len(it.segs[0].body) == 1 and isinstance(it.segs[0].body[0], One):
            g = it.segs[0]; v = g.body[0].v
            kx = v if 'Set' in n else (v.fs[0] if isinstance(v, Tup) else None)
            if kx is g.var:
                return MapV(g.var, g.cond, UNITV if 'Set' in n else v.fs[1], 'asc' if n.startswith('BT') else (g.order if isinstance(g.order, tuple) else 'hash'))
        return collect_map(ex, fr, st, it, empty_map(ex, ty))
    if n in ('Result', 'Option'):
        inner = ty.args[0]
        def step(s, v):
            out = []
            for s2, w in cases(ex, s, v):
                if w.vn in ('Ok', 'Some'): out.append((s2, ('norm', [One(w.fs[0])])))
                else: out.append((s2, ('ret', w)))
            return out
        res = []
        for s2, o in ex.run_segs(st, it.segs, step, 'collect'):
            if o[0] == 'norm':
                for s3, o3 in ex.norm_out(s2, collect(ex, fr, s2, IterV(o[1]), inner)):
                    res.append((s3, ('ret', ok(o3[1]) if n == 'Result' else some(o3[1])) if o3[0] == 'ret' else o3))
            else: res.append((s2, o))
        return res
    if n in ('String',): return app('collect_str', (valterm(Seq(it.segs)),), 'S')
    return Seq(it.segs)

# ------------------------------------------------------------------ maps / sets
@model('BTreeMap::new', 'HashMap::new', 'BTreeSet::new', 'HashSet::new', 'HashMap::with_capacity', 'HashSet::with_capacity')
def _(ex, fr, st, c, a): return empty_map(ex, ex.subty(fr, c.self_ty))
def mapkey(ex, st, k): return scalar(ex, ex.deep(st, D(ex, st, k)))
@model('BTreeMap::insert', 'HashMap::insert')
def _(ex, fr, st, c, a):
    m = D(ex, st, a[0]); k = mapkey(ex, st, a[1])
    if isinstance(m, MapV) and m.dom is not FALSE: old = ite_val(subst(m.dom, {m.var: k}), some(vsub(m.val, {m.var: k})), none())
    elif isinstance(m, MapV): old = none()
    else: old = DEAD
    setref(ex, st, a[0], ex.models.map_insert(ex, st, m, k, a[2])); return old
@model('BTreeSet::insert', 'HashSet::insert')
def _(ex, fr, st, c, a):
    m = D(ex, st, a[0]); k = mapkey(ex, st, a[1])
    r = not_(subst(m.dom, {m.var: k})) if isinstance(m, MapV) else Obj('setins', base=m, key=k)
    setref(ex, st, a[0], ex.models.map_insert(ex, st, m, k, UNITV))
    if isinstance(r, Obj): return not_(map_has(m, k)) if map_has(m, k) is not None else insert_fresh(ex, st, m, k)
    return r
def map_has(m, k):
    """membership in a map under construction in a summarised loop: the prefix's domain is filled in once it is solved"""
    if isinstance(m, MapV): return subst(m.dom, {m.var: k})
    if isinstance(m, Obj) and m.kind == 'maphole': return app('mh:' + m.d['name'], (k,), 'B')
    if isinstance(m, Obj) and m.kind == 'mapins':
        b = map_has(m.d['base'], k)
        return None if b is None else or_(b, eq(scalar_key(m.d['key']), k))
    return None
def scalar_key(k): return k
def insert_fresh(ex, st, m, k):
    """truth of 'key was not present' while the set is being built in a summarised loop: only meaningful when unused"""
    return T('sym', ('deadbool!%d' % next(execu.terms_fresh),), 'B')
@model('BTreeMap::get', 'HashMap::get', 'BTreeSet::get', 'HashSet::get')
def _(ex, fr, st, c, a):
    m = D(ex, st, a[0]); k = mapkey(ex, st, a[1])
    if not isinstance(m, MapV): raise Unsupported('get on %s' % repr(m)[:60])
    if m.dom is FALSE: return none()
    return ite_val(subst(m.dom, {m.var: k}), some(vsub(m.val, {m.var: k}) if m.val is not UNITV else k), none())
@model('BTreeMap::get_mut', 'HashMap::get_mut')
def _(ex, fr, st, c, a):
    r = a[0]; m = D(ex, st, r); k = mapkey(ex, st, a[1]); out = []
    for s2, b in ex.branch(st, subst(m.dom, {m.var: k})):
        out.append((s2, some(MRef(r.fid, r.local, list(r.projs) + [('key', k)])) if b else none()))
    return out
@model('BTreeMap::contains_key', 'HashMap::contains_key', 'BTreeSet::contains', 'HashSet::contains')
def _(ex, fr, st, c, a):
    m = D(ex, st, a[0]); k = mapkey(ex, st, a[1])
    r = map_has(m, k)
    if r is None: raise Unsupported('contains on %s' % repr(m)[:60])
    return r
@model('BTreeMap::remove', 'HashMap::remove', 'BTreeSet::remove', 'HashSet::remove')
def _(ex, fr, st, c, a):
    m = D(ex, st, a[0]); k = mapkey(ex, st, a[1])
    if isinstance(m, Obj) and m.kind in ('maphole', 'mapins', 'mapdel') and 'Set' in c.key:
        setref(ex, st, a[0], Obj('mapdel', base=m, key=k)); return insert_fresh(ex, st, m, k)
    had = subst(m.dom, {m.var: k})
    setref(ex, st, a[0], MapV(m.var, and_(m.dom, not_(eq(m.var, k))), m.val, m.order))
    if 'Set' in c.key: return had
    return ite_val(had, some(vsub(m.val, {m.var: k})), none())
@model('BTreeMap::keys', 'HashMap::keys')
def _(ex, fr, st, c, a): return IterV([map_items(D(ex, st, a[0]), 'k')])
@model('BTreeMap::values', 'HashMap::values', 'BTreeMap::into_values')
def _(ex, fr, st, c, a): return IterV([map_items(D(ex, st, a[0]), 'v')])
def setop(ex, st, a, b, f):
    a = D(ex, st, a); b = D(ex, st, b)
    return MapV(a.var, f(a.dom, subst(b.dom, {b.var: a.var})), UNITV, a.order)
@model('Vec::retain', 'HashSet::retain', 'BTreeSet::retain', 'HashMap::retain', 'BTreeMap::retain')
def _(ex, fr, st, c, a):
    m = D(ex, st, a[0]); kind = c.key.split('::')[0]
    if isinstance(m, MapV): segs = [map_items(m)]
    elif isinstance(m, Seq): segs = list(m.segs)
    else: raise Unsupported('retain on %s' % repr(m)[:60])
    def step(s, v):
        def h(s2, r): return [(s3, ('norm', [One(v)] if b else [])) for s3, b in ex.branch(s2, r)]
        return call_outs(ex, fr, s, a[1], list(v.fs) if kind.endswith('Map') else [v], h)
    out = []
    for s2, o in ex.run_segs(st, segs, step, 'retain'):
        if o[0] != 'norm': out.append((s2, o)); continue
        if kind == 'Vec': setref(ex, s2, a[0], Seq(o[1])); out.append((s2, ('ret', UNITV))); continue
        for s3, o3 in ex.norm_out(s2, collect(ex, fr, s2, IterV(o[1]), Ty('path', name=kind, args=[]) if c.self_ty is None else ex.subty(fr, ex.alias(c.self_ty)))):
            if o3[0] == 'ret': setref(ex, s3, a[0], o3[1]); o3 = ('ret', UNITV)
            out.append((s3, o3))
    return out
@model('BTreeSet::difference', 'HashSet::difference')
def _(ex, fr, st, c, a): return IterV([map_items(setop(ex, st, a[0], a[1], lambda x, y: and_(x, not_(y))))])
@model('BTreeSet::union', 'HashSet::union', 'BTreeSet::append')
def _(ex, fr, st, c, a): return IterV([map_items(setop(ex, st, a[0], a[1], lambda x, y: or_(x, y)))])
@model('BTreeSet::intersection', 'HashSet::intersection')
def _(ex, fr, st, c, a): return IterV([map_items(setop(ex, st, a[0], a[1], lambda x, y: and_(x, y)))])
@model('BTreeSet::is_subset', 'HashSet::is_subset')
def _(ex, fr, st, c, a):
    x = D(ex, st, a[0]); y = D(ex, st, a[1]); return forall(x.var, x.dom, subst(y.dom, {y.var: x.var}))

# ------------------------------------------------------------------ misc
@model('fmt::format', 'ToString::to_string', 'Arguments::new', 'Argument::new_display', 'Argument::new_debug', 'Arguments::new_const', 'Arguments::new_v1', 'Arguments::from_str', 'str::to_string', 'Display::fmt', 'Debug::fmt', 'alloc::fmt::format', 'Argument::new_lower_hex')
def _(ex, fr, st, c, a):
    if a and isinstance(a[0], T) and a[0].sort == 'S' and c.method == 'to_string': return a[0]
    v = D(ex, st, a[0]) if a else UNITV
    try: return app('fmt', (valterm(ex.deep(st, v)),), 'S')
    except Unsupported: return ex.fresh('fmt', 'S')
@model('panicking::panic', 'panicking::panic_fmt', 'panic::panic_fmt', 'rt::begin_panic', 'panicking::assert_failed', 'rt::panic_fmt', 'panicking::unreachable_display', 'option::unwrap_failed', 'std::rt::begin_panic', 'panicking::panic_display', 'panicking::panic_explicit', 'rt::panic_display', 'panicking::begin_panic')
def _(ex, fr, st, c, a): return ('panic', 'explicit panic')
@model('u32::to_be_bytes', 'u64::to_be_bytes', 'u16::to_be_bytes', 'usize::to_be_bytes', 'u8::to_be_bytes')
def _(ex, fr, st, c, a):
    ty = c.key.split('::')[0]; n = {'u8': 1, 'u16': 2, 'u32': 4, 'u64': 8, 'usize': 8}[ty]
    return enc_int(a[0], n)
def enc_int(x, n):
    if x.op == 'num': return Seq([One(num((x.args[0] >> (8 * (n - 1 - i))) & 255)) for i in range(n)])
    k = fresh_var('I', 'k')
    return Seq([Comp(k, and_(le(ZERO, k), lt(k, num(n))), [One(app('bebyte%d:u8' % n, (x, k), 'I'))])])
@model('u32::from_be_bytes', 'u64::from_be_bytes', 'u16::from_be_bytes', 'usize::from_be_bytes')
def _(ex, fr, st, c, a):
    ty = c.key.split('::')[0]; n = {'u8': 1, 'u16': 2, 'u32': 4, 'u64': 8, 'usize': 8}[ty]
    return dec_int(ex, st, D(ex, st, a[0]), n, ty)
def dec_int(ex, st, v, n, ty):
    k = fresh_var('I', 'k')
    st2 = st.fork().assume(le(ZERO, k), lt(k, num(n)))
    try:
        e = ex.seq_get(st2, v, k)
        if isinstance(e, T) and e.op == 'app' and e.args[0] == 'bebyte%d:u8' % n and eq(e.args[2], k) is TRUE: return e.args[1]
    except Unsupported: pass
    bs = [ex.seq_get(st, v, num(i)) for i in range(n)]
    if all(b.op == 'num' for b in bs):
        r = 0
        for b in bs: r = r * 256 + b.args[0]
        return num(r)
    t = ZERO
    for b in bs: t = iadd(iscale(t, 256), b)
    return t
@model('str::as_bytes', 'String::as_bytes', 'AsRef::as_ref@str')
def _(ex, fr, st, c, a): return str_bytes(D(ex, st, a[0]))
def str_bytes(v):
    if isinstance(v, Seq): return v
    if v.op == 'str': return Seq([One(num(b)) for b in v.args[0].encode()])
    k = fresh_var('I', 'k')
    return Seq([Comp(k, and_(le(ZERO, k), lt(k, app('strlen.len', (v,), 'I'))), [One(app('strbyte:u8', (v, k), 'I'))])])
@model('String::new')
def _(ex, fr, st, c, a): return sstr('')
@model('Cursor::new')
def _(ex, fr, st, c, a): return Obj('cursor', data=D(ex, st, a[0]), pos=ZERO)
@model('Cursor::position')
def _(ex, fr, st, c, a): return D(ex, st, a[0]).pos
def reader_take(ex, st, ref, n):
    """read n bytes from a reader reference: [(state, bytes or None)]"""
    v = D(ex, st, ref)
    # &mut &[u8] or &mut Cursor, possibly behind further references
    if isinstance(v, Obj) and v.kind == 'cursor':
        data, pos = v.data, v.pos; out = []
        for s2, b in ex.branch(st, le(iadd(pos, n), ex.seq_len(data))):
            if b:
                w = ex.seq_slice(s2, data, pos, iadd(pos, n)); setref(ex, s2, ref, v.with_(pos=iadd(pos, n))); out.append((s2, w))
            else: out.append((s2, None))
        return out
    if isinstance(v, Seq):
        l = ex.seq_len(v); out = []
        for s2, b in ex.branch(st, le(n, l)):
            if b:
                w = ex.seq_slice(s2, v, ZERO, n)
                if is_mut(ref): setref(ex, s2, ref, ex.seq_slice(s2, v, n, l))
                out.append((s2, w))
            else: out.append((s2, None))
        return out
    raise Unsupported('reader %s' % repr(v)[:60])
@model('Read::read_exact')
def _(ex, fr, st, c, a):
    buf = D(ex, st, a[1]); n = ex.seq_len(buf); out = []
    for s2, w in reader_take(ex, st, a[0], n):
        if w is None: out.append((s2, err(ERRV)))
        else: setref(ex, s2, a[1], w); out.append((s2, ok(UNITV)))
    return out
@model('Write::write_all', 'Write::write')
def _(ex, fr, st, c, a):
    v = D(ex, st, a[0]); w = D(ex, st, a[1])
    setref(ex, st, a[0], ex.seq_concat([v, w])); return ok(UNITV if c.method == 'write_all' else ex.seq_len(w))
@model('rand::thread_rng', 'OsRng::new', 'rngs::OsRng', 'SeedableRng::from_entropy', 'thread_rng')
def _(ex, fr, st, c, a): return Obj('rng')
@model('Rng::gen_range')
def _(ex, fr, st, c, a): raise Unsupported('gen_range')
@model('RngCore::fill_bytes')
def _(ex, fr, st, c, a):
    v = D(ex, st, a[1]); n = ex.seq_len(v); k = fresh_var('I', 'k')
    nm = 'rndb!%d:u8' % next(execu.terms_fresh); ex.fresh_names.append(nm)
    setref(ex, st, a[1], Seq([Comp(k, and_(le(ZERO, k), lt(k, n)), [One(app(nm, (k,), 'I'))])])); return UNITV
@model('Zeroize::zeroize', 'Drop::drop', 'mem::drop', 'mem::forget')
def _(ex, fr, st, c, a):
    if c.method == 'zeroize' and isinstance(a[0], MRef): setref(ex, st, a[0], DEAD)
    return UNITV
@model('log::max_level', 'log::private_api_log', '__private_api::log', 'log::__private_api_log', '__private_api_log')
def _(ex, fr, st, c, a): return UNITV if 'log' == c.method else num(0)
@model('Default::default')
def _(ex, fr, st, c, a):
    t = ex.subty(fr, c.self_ty)
    return default(ex, t)
def default(ex, t):
    if t.k == 'path':
        if t.name in INTS: return ZERO
        if t.name == 'bool': return FALSE
        if t.name in ('String', 'str'): return sstr('')
        if t.name == 'Vec': return Seq([])
        if t.name == 'Option': return none()
        if 'Map' in t.name or 'Set' in t.name: return empty_map(ex, t)
        if ex.models.isring(t): return R0
    if t.k == 'tuple': return Tup([default(ex, x) for x in t.args])
    if t.k == 'array' and re.match(r'^\d+$', t.name):
        k = fresh_var('I', 'k'); return Seq([Comp(k, and_(le(ZERO, k), lt(k, num(int(t.name)))), [One(default(ex, t.args[0]))])])
    raise Unsupported('default %r' % t)
def intop(name, f):
    for t in INTS: STD['%s::%s' % (t, name)] = f
def _chk(f):
    def g(ex, fr, st, c, a):
        ty = c.key.split('::')[0]; v = f(D(ex, st, a[0]), D(ex, st, a[1])); lo, hi = RANGES[ty]; out = []
        for s2, b in ex.branch(st, and_(le(lo, v), le(v, hi))): out.append((s2, some(v) if b else none()))
        return out
    return g
intop('checked_add', _chk(iadd)); intop('checked_sub', _chk(isub)); intop('checked_mul', _chk(imul))
def _wr(f):
    def g(ex, fr, st, c, a): return ex.wrap(st, f(D(ex, st, a[0]), D(ex, st, a[1])), c.key.split('::')[0])
    return g
intop('wrapping_add', _wr(iadd)); intop('wrapping_sub', _wr(isub)); intop('wrapping_mul', _wr(imul))
def _sat(ex, fr, st, c, a):
    ty = c.key.split('::')[0]; v = {'saturating_add': iadd, 'saturating_sub': isub, 'saturating_mul': imul}[c.method](D(ex, st, a[0]), D(ex, st, a[1])); lo, hi = RANGES[ty]
    out = []
    for s2, b in ex.branch(st, lt(v, lo)):
        if b: out.append((s2, lo)); continue
        for s3, b2 in ex.branch(s2, lt(hi, v)): out.append((s3, hi if b2 else v))
    return out
for _n in ('saturating_add', 'saturating_sub', 'saturating_mul'): intop(_n, _sat)
def _pow(ex, fr, st, c, a):
    x, y = D(ex, st, a[0]), D(ex, st, a[1])
    if x.op == 'num' and y.op == 'num': return num(x.args[0] ** y.args[0])
    if y.op == 'num' and y.args[0] <= 8:
        r = ONE
        for _ in range(y.args[0]): r = imul(r, x)
        return r
    raise Unsupported('pow')
intop('pow', _pow)
def _ispow2(ex, fr, st, c, a):
    x = D(ex, st, a[0])
    if x.op == 'num': return TRUE if x.args[0] > 0 and x.args[0] & (x.args[0] - 1) == 0 else FALSE
    return app('is_pow2', (x,), 'B')
intop('is_power_of_two', _ispow2)
STD['size_of'] = STD['mem::size_of'] = lambda ex, fr, st, c, a: (_ for _ in ()).throw(Unsupported('size_of'))
@model('str::to_owned', 'String::from', 'str::into_string')
def _(ex, fr, st, c, a): return D(ex, st, a[0])

# ------------------------------------------------------------------ fixed-size encodings
def dec_chunk(ex, st, tag, n, w, sort, mk=None):
    """decode n bytes w; recognises the encoding of a value with the same tag, else a symbolic outcome"""
    if isinstance(w, IteV):
        return ite_val(w.c, dec_chunk(ex, st, tag, n, w.a, sort, mk), dec_chunk(ex, st, tag, n, w.b, sort, mk))
    try:
        k = fresh_var('I', 'k')
        w2 = w
        if isinstance(w, Seq): w2 = Seq(ex.norm_segs(w.segs))
        e = ex.seq_get(State(st.mem, st.pc + (ge(k, num(0)), lt(k, num(n) if isinstance(n, int) else n))), w2, k)
        if isinstance(e, T) and e.op == 'app' and e.args[0] == tag and e.args[2] is k and k not in fv(e.args[1]):
            return ok(mk(e.args[1]) if mk else e.args[1])
    except Unsupported: pass
    t = valterm(w)
    x = app('dec.' + tag, (t,), sort); x = fromatom(x) if sort == 'F' else x
    return ite_val(app('decok.' + tag, (t,), 'B'), ok(mk(x) if mk else x), err(ERRV))
# handwritten serde implementations: a serializer that keeps the string it is given, a deserializer that hands its string to the visitor
def _ser_newtype(ex, fr, st, c, a): return ok(D(ex, st, a[2]))
def _de_str(ex, fr, st, c, a):
    v = a[1]; n = '%s as Visitor::visit_str' % v.path.split('::')[-1] if isinstance(v, Adt) else None
    l = [i for k, x in ex.prog.byident.items() if n and (k == n or k.endswith('::' + n)) for i in x]
    if len(l) != 1: raise Unsupported('the visitor of deserialize_str')
    ex.inlined.add(l[0].ident)
    return ex.run_fn(l[0].fn, [v, a[0].w], st, {}, fr.depth + 1, l[0].crate)
STD['Serializer::serialize_newtype_struct'] = _ser_newtype; STD['Deserializer::deserialize_str'] = _de_str
STD['Error::custom'] = STD['de::Error::custom'] = lambda ex, fr, st, c, a: Obj('serdeerror')
