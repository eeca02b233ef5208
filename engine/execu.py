"""Modular symbolic executor over rustc MIR with loop summaries."""
PKDBG=0
import re, itertools, time, sys
from mirparse import *
from typedefs import TypeTable
from terms import *
from values import *
import solver
from solver import check, entails, infeasible, RANGES
sys.setrecursionlimit(200000)

class Limit(Unsupported): pass

INTS = set(RANGES)
import os
DBG = os.environ.get("DBGX")
def order_asc(o): return o == 'asc'
class State:
    __slots__ = ('mem', 'pc', 'notes')
    def __init__(s, mem=None, pc=(), notes=()): s.mem = mem if mem is not None else {}; s.pc = pc; s.notes = notes
    def fork(s): return State(dict(s.mem), s.pc, s.notes)
    def assume(s, *cs):
        for c in cs:
            for x in conj(c):
                if x is not TRUE and x not in s.pc: s.pc = s.pc + (x,)
        return s
    def feasible(s):
        if FALSE in s.pc: return False
        return check(s.pc) != 'unsat'

class Frame:
    __slots__ = ('id', 'fn', 'tysub', 'depth', 'loops', 'crate')
    ids = itertools.count(1)
    def __init__(s, fn, tysub, depth, crate): s.id = next(Frame.ids); s.fn = fn; s.tysub = tysub; s.depth = depth; s.crate = crate

PANIC = 'panic'

def succs(st):
    t = st[0]
    if t == 'goto': return [st[1]]
    if t == 'switch': return [b for _, b in st[2]] + ([st[3]] if st[3] is not None else [])
    if t == 'drop': return [st[2]]
    if t == 'assert': return [st[4]]
    if t == 'call': return [st[4]] if st[4] is not None else []
    return []

def find_loops(fn):
    """natural loops: header -> set of blocks"""
    if getattr(fn, '_loops', None) is not None: return fn._loops
    sc = {b: succs(fn.block(b)[-1]) if fn.block(b) else [] for b in fn.blocks}
    sc = {b: [x for x in v if x in fn.blocks] for b, v in sc.items()}
    preds = {}
    for b, v in sc.items():
        for x in v: preds.setdefault(x, []).append(b)
    color = {}; loops = {}
    stack = [(0, iter(sc.get(0, [])))]; color[0] = 1
    while stack:
        b, it = stack[-1]
        for x in it:
            if color.get(x) == 1:
                body = {x, b}; w = [b] if b != x else []
                while w:
                    y = w.pop()
                    for p in preds.get(y, []):
                        if p not in body: body.add(p); w.append(p)
                loops.setdefault(x, set()).update(body)
            elif x not in color:
                color[x] = 1; stack.append((x, iter(sc.get(x, [])))); break
        else:
            color[b] = 2; stack.pop()
    fn._loops = loops
    return loops

def strip_refs(t):
    while t.k in ('ref', 'refmut') or (t.k == 'path' and t.name in ('Box', 'Rc', 'Arc') and t.args): t = t.args[0]
    return t

class FnInfo:
    """index entry for a function in an impl"""
    __slots__ = ('fn', 'name', 'method', 'trait', 'self_ty', 'free', 'crate', 'ident', 'trait_args')

class Program:
    """all crates: MIR + type tables + function index"""
    def __init__(s, repo='/repo'):
        s.crates = {}; s.repo = repo; s.index = {}; s.tt = {}; s.closures = {}; s.byident = {}; s.infos = {}
        s._src = {}
    def load(s, crate, mir, exp):
        d = Dump(mir, crate); tt = TypeTable().load(exp); tt.exp = exp
        s.crates[crate] = d; s.tt[crate] = tt
        for n, f in d.fns.items():
            f.crate = crate
            if '{closure#' in n.split('::')[-1]:
                m = re.search(r'\(_1: (?:&(?:mut )?)?(\{closure@[^}]*\})', f.header)
                if m: s.closures.setdefault((crate, m.group(1)), []).append(f)
                continue
            s._index(crate, n, f, tt)
        return s
    def src(s, file, l1, c1, l2, c2):
        k = file
        if k not in s._src:
            try: s._src[k] = open(s.repo + '/' + file).read().split('\n')
            except OSError: s._src[k] = None
        L = s._src[k]
        if L is None: return ''
        if l1 == l2: return L[l1 - 1][c1 - 1:c2 - 1]
        return '\n'.join([L[l1 - 1][c1 - 1:]] + L[l1:l2 - 1] + [L[l2 - 1][:c2 - 1]])
    def impl_type(s, n):
        """type named in the header of the inherent impl an item name points into"""
        m = re.search(r'<impl at (.*?):(\d+):(\d+): (\d+):(\d+)>', n)
        txt = ' '.join(s.src(m.group(1), *map(int, m.groups()[1:])).split()) if m else ''
        m = re.match(r'impl(?:<[^>]*>)? (?:.* for )?([\w:]+)', txt)
        return m.group(1).split('::')[-1] if m else None
    def _index(s, crate, n, f, tt):
        i = FnInfo(); i.fn = f; i.name = n; i.crate = crate; i.trait = None; i.self_ty = None; i.trait_args = None
        n0 = n.split('#dup')[0]
        segs, _ = strip_path_generics(n0)
        i.method = segs[-1]
        impl = None
        for k, sg in enumerate(segs[:-1]):
            if sg.startswith('<impl at '): impl = (k, sg)
        nested = impl is not None and len(segs) - 1 - impl[0] > 1
        if nested: impl = None
        i.free = impl is None
        if impl:
            m = re.match(r'<impl at (.*?):(\d+):(\d+): (\d+):(\d+)>', impl[1])
            txt = s.src(m.group(1), *map(int, m.groups()[1:])) if m else ''
            txt = ' '.join(txt.split())
            mod = '::'.join(segs[:impl[0]])
            sig_self = None
            if txt.startswith('impl'):
                t = txt[4:]
                if t.startswith('<'):
                    e = match_angle(t, 1); t = t[e + 1:]
                t = t.strip()
                t = re.split(r'\bwhere\b', t)[0].strip().rstrip('{').strip()
                j = None
                mm = re.search(r' for ', t)
                # top-level ' for '
                idx = find_for(t)
                if idx is not None:
                    tr, se = t[:idx], t[idx + 5:]
                    i.trait = re.split(r'[<]', tr)[0].split('::')[-1].strip()
                    if '$' not in tr and '<' in tr:
                        try: i.trait_args = parse_ty(tr).args
                        except Exception: pass
                else: se = t
                if '$' not in se:
                    try: i.self_ty = tt._res(parse_ty(se.strip()), mod, {})
                    except Exception: pass
            elif txt:
                i.trait = txt.split('::')[-1]
                if i.trait == 'Fail' : i.trait = None
            if i.self_ty is None:
                h = f.header
                m2 = re.search(r'\(_1: ([^)]*?)[,)]', h[len('fn ') + len(n0):])
                dbg = any('debug self => _1' in ln for ln in f.lines[:12])
                try:
                    f.parse()
                    if dbg: i.self_ty = strip_refs(parse_ty(f.locals['_1']))
                    else:
                        r = parse_ty(f.ret)
                        if r.k == 'path' and r.name in ('Result', 'Option') and r.args: r = r.args[0]
                        i.self_ty = r
                        if i.method in ('from',) : i.self_ty = r
                except Exception: pass
            nm = tyname(i.self_ty) if i.self_ty is not None else '?'
            i.ident = (nm + ' as ' + i.trait if i.trait else nm) + '::' + i.method
        else:
            i.ident = '::'.join(segs)
        s.index.setdefault((crate, i.method), []).append(i)
        s.byident.setdefault(i.ident, []).append(i)
        s.infos[id(f)] = i
    def get(s, ident, crate=None, n=0):
        l = [i for i in s.byident.get(ident, []) if crate is None or i.crate == crate]
        if not l: raise Unsupported('no function %s' % ident)
        if isinstance(n, str):      # a module path, where several types share a name
            l = [i for i in l if i.fn.name.startswith(n + '::')]
            if not l: raise Unsupported('no function %s in %s' % (ident, n))
            return l[0]
        return l[n]

def find_for(t):
    ang = 0; d = 0
    for i, c in enumerate(t):
        if c in '([{': d += 1
        elif c in ')]}': d -= 1
        elif c == '<': ang += 1
        elif c == '>' and t[i - 1] not in '-=': ang -= 1
        elif ang == 0 and d == 0 and t.startswith(' for ', i): return i
    return None

def tyname(t):
    if t.k in ('ref', 'refmut'): return '&' + tyname(t.args[0])
    if t.k == 'slice': return '[%s]' % tyname(t.args[0])
    if t.k == 'array': return '[%s]' % tyname(t.args[0])
    if t.k == 'tuple': return '(%s)' % ','.join(tyname(a) for a in t.args)
    return t.name

def ty_match(a, b, sub=None):
    """structural compatibility of types; unknown generics/projections match anything"""
    if a is None or b is None: return True
    if is_generic(a) or is_generic(b): return True
    if a.k in ('proj', 'dyn', 'closure', 'fnptr') or b.k in ('proj', 'dyn', 'closure', 'fnptr'):
        return a.k == b.k or is_generic(a) or is_generic(b) or a.k in ('proj', 'dyn') or b.k in ('proj', 'dyn')
    if a.k != b.k: return False
    if a.k == 'path':
        if a.name != b.name: return False
        if '::' in a.full and '::' in b.full and a.full != b.full:
            x = a.full.split('::')[0]; y = b.full.split('::')[0]
            if not (a.full.endswith('::' + b.full) or b.full.endswith('::' + a.full)) and x not in ('std', 'core', 'alloc', 'failure') and len(a.full.split('::')) > 1 and a.full.split('::')[-2] != b.full.split('::')[-2]: return False
        if len(a.args) == len(b.args): return all(ty_match(x, y) for x, y in zip(a.args, b.args))
        return True
    if a.k == 'array' and a.name != b.name and re.match(r'^\d+$', a.name) and re.match(r'^\d+$', b.name): return False
    if len(a.args) != len(b.args): return False
    return all(ty_match(x, y) for x, y in zip(a.args, b.args))

def is_generic(t):
    return t.k == 'path' and not t.args and re.match(r'^[A-Z][A-Z0-9]?$', t.full) is not None and t.name not in ('G1', 'G2', 'GT', 'FP')

def is_unique(p):
    t = p[2] if len(p) > 2 else ''
    return str(t).startswith('std::ptr::Unique')
def int_leaves(segs):
    return all(isinstance(g.v, T) and g.v.sort == 'I' if isinstance(g, One) else int_leaves(g.body) for g in segs)
class Executor:
    MAXPATHS = 4000
    def contract_of(s, info):
        if s.ctab is None:
            s.ctab = {}
            for c in s.contracts:
                try: s.ctab[id(s.prog.get(c.ident, c.crate, c.n))] = c
                except (Unsupported, IndexError): pass
        return s.ctab.get(id(info))
    def __init__(s, prog, models, contracts=None, ringtypes=()):
        s.prog = prog; s.models = models; s.contracts = list(contracts.values()) if isinstance(contracts, dict) else list(contracts or [])
        s.ctab = None
        s.fresh_names = []; s.calls = set(); s.models_used = set(); s.contracts_used = set(); s.inlined = set(); s.assumed = set()
        s.steps = 0; s.deadline = None; s.nocontract = set(); s.generic = {}; s.loops = 0
        s.depth = 0; s.trace = False; s.argsyms = {}
    # ------------------------------------------------------------ symbols
    def fresh(s, hint, sort, log=True):
        n = '%s!%d' % (hint, next(terms_fresh))
        if log: s.fresh_names.append(n)
        return sym(n, sort) if sort != 'F' else fsym(n)
    def fresh_int(s, hint, ty='usize'):
        n = '%s!%d:%s' % (hint, next(terms_fresh), ty)
        s.fresh_names.append(n); return sym(n, 'I')
    def mk_sym(s, ty, name, args=(), crate=None, depth=0):
        """symbolic value of a type, as applications name(args)"""
        if depth > 12: raise Unsupported('mk_sym depth %r' % ty)
        ty = s.alias(ty)
        A = lambda n, so: app(n, args, so)
        k = ty.k
        if k in ('ref', 'refmut'): return s.mk_sym(ty.args[0], name, args, crate, depth)
        if k == 'tuple': return Tup([s.mk_sym(t, '%s.%d' % (name, i), args, crate, depth + 1) for i, t in enumerate(ty.args)])
        if k in ('slice', 'array') or (k == 'path' and ty.name in ('Vec', 'VecDeque', 'FieldElementVector', 'G1Vector', 'G2Vector', 'GroupElementVector') and (ty.args or 'Vector' in ty.name)):
            if 'Vector' in ty.name and not ty.args: et = Ty('path', 'FieldElement' if 'Field' in ty.name else ('G1' if 'G1' in ty.name else 'G2'), (), 'FieldElement')
            else: et = ty.args[0]
            if k == 'array' and re.match(r'^\d+$', ty.name): n = num(int(ty.name))
            else: n = A(name + '.len', 'I')
            v = fresh_var('I', 'k')
            return Seq([Comp(v, and_(le(ZERO, v), lt(v, n)), [One(s.mk_sym(et, name + '.at', args + (v,), crate, depth + 1))])])
        if k == 'path':
            n = ty.name
            if n in INTS or n == 'char': return A('%s:%s' % (name, n), 'I')
            if n == 'bool': return A(name, 'B')
            if n in ('str', 'String') : return A(name, 'S')
            if n in ('Box', 'Rc', 'Arc', 'Cow') and ty.args: return s.mk_sym(ty.args[-1], name, args, crate, depth)
            h = s.models.typ(ty)
            if h is not None: return h(s, ty, name, args)
            if n == 'Option': return ite_val(A(name + '.some', 'B'), some(s.mk_sym(ty.args[0], name + '.v', args, crate, depth + 1)), none())
            if n == 'Result': return ite_val(A(name + '.ok', 'B'), ok(s.mk_sym(ty.args[0], name + '.v', args, crate, depth + 1)), err(ERRV))
            if n in ('BTreeMap', 'HashMap', 'BTreeSet', 'HashSet'):
                so = s.sort_of(ty.args[0]); kv = fresh_var(so, 'key')
                kt = kv
                dom = app(name + '.has', args + (kv,), 'B')
                val = s.mk_sym(ty.args[1], name + '.get', args + (kv,), crate, depth + 1) if 'Map' in n else UNITV
                if so == 'I':
                    rng = RANGES.get(ty.args[0].name)
                return MapV(kv, dom, val, 'asc' if n.startswith('BT') else ('h', name) + args)
            for c in ([crate] if crate else []) + [c for c in s.prog.tt if c != crate]:
                tt = s.prog.tt[c]
                d = tt.find(ty)
                if d:
                    vs = []
                    for vi, (vn, fs) in enumerate(d.variants):
                        pre = name + '.' if d.kind == 'struct' else '%s.%s.' % (name, vn)
                        vals = []
                        for fn_, ft in fs:
                            vals.append(s.mk_sym(tt.field_ty(d, ft, ty.args), pre + fn_, args, c, depth + 1))
                        vs.append(Adt(d.path, vi, vn, vals))
                    if d.kind == 'struct': return vs[0]
                    disc = A(name + '.disc:u8', 'I')
                    r = vs[-1]
                    for vi in range(len(vs) - 2, -1, -1): r = ite_val(eq(disc, num(vi)), vs[vi], r)
                    return r
            if n == 'PhantomData': return UNITV
        return Obj('opaque', ty=repr(ty), term=A(name, 'X'))
    def alias(s, ty):
        r = s.models.alias(ty)
        return r if r is not None else ty
    def sort_of(s, ty):
        ty = strip_refs(s.alias(ty))
        if ty.k == 'path':
            if ty.name in INTS or ty.name == 'char': return 'I'
            if ty.name == 'bool': return 'B'
            if ty.name in ('str', 'String'): return 'S'
            if s.models.isring(ty): return 'F'
        return 'S'
    # ------------------------------------------------------------ memory
    def read(s, st, key, projs):
        v = st.mem.get(key, None)
        if v is None: raise Unsupported('read of unset %r' % (key,))
        return s.project(st, v, projs)
    def deref(s, st, v):
        while isinstance(v, MRef): v = s.read(st, (v.fid, v.local), v.projs)
        return v
    def deep(s, st, v):
        """resolve all mutable references inside v (snapshot)"""
        if isinstance(v, MRef): return s.deep(st, s.deref(st, v))
        if isinstance(v, Adt) and v.fs: return Adt(v.path, v.vi, v.vn, [s.deep(st, x) for x in v.fs])
        if isinstance(v, Tup) and v.fs: return Tup([s.deep(st, x) for x in v.fs])
        if isinstance(v, IteV): return ite_val(v.c, s.deep(st, v.a), s.deep(st, v.b))
        if isinstance(v, (Seq, IterV)):
            def g(x):
                if isinstance(x, One): return One(s.deep(st, x.v))
                if isinstance(x, Comp): return Comp(x.var, x.cond, [g(y) for y in x.body], x.order)
                if isinstance(x, Guard): return Guard(x.cond, [g(y) for y in x.body])
                return x
            return type(v)([g(x) for x in v.segs])
        return v
    def project(s, st, v, projs):
        for p in projs:
            v = s.proj1(st, v, p)
        return v
    def proj1(s, st, v, p):
        k = p[0]
        if k == 'deref':
            return s.read(st, (v.fid, v.local), v.projs) if isinstance(v, MRef) else v
        if k == 'f' and isinstance(v, (MRef, Seq)) and is_unique(p): return v
        if isinstance(v, MRef): v = s.deref(st, v)
        if isinstance(v, IteV):
            v2 = s.pick(st, v)
            if not isinstance(v2, IteV): return s.proj1(st, v2, p)
            if k in ('f', 'v', 'n'):
                try: a = s.proj1(st, v.a, p)
                except Unsupported: a = None
                try: b = s.proj1(st, v.b, p)
                except Unsupported: b = None
                if a is None and b is None: raise Unsupported('proj %r of %r' % (p, v))
                if a is None: return b
                if b is None: return a
                return ite_val(v.c, a, b)
            return ite_val(v.c, s.proj1(st, v.a, p), s.proj1(st, v.b, p))
        if k == 'f':
            if isinstance(v, (Adt, Tup)):
                if p[1] < len(v.fs): return v.fs[p[1]]
                raise Unsupported('field %r of %r' % (p, v))
            if isinstance(v, Closure): return v.caps[p[1]]
            r = s.models.field(s, st, v, p)
            if r is not None: return r
            raise Unsupported('field %r of %s' % (p[1:], repr(v)[:200]))
        if k == 'v':
            if isinstance(v, Adt):
                if v.vn == p[1] or p[1].startswith('variant#'): return v
                raise Unsupported('variant %s of %r' % (p[1], v))
            if isinstance(v, (Obj, T)): return v
            raise Unsupported('variant %r of %r' % (p, v))
        if k == 'at': return s.seq_get(st, v, p[1])
        if k == 'ci':
            if p[2]: return s.seq_get(st, v, isub(s.seq_len(v), num(abs(p[1]))))
            return s.seq_get(st, v, num(p[1]))
        if k == 'sub':
            n = s.seq_len(v)
            return s.seq_slice(st, v, num(p[1]), isub(n, num(p[2])) if p[3] else num(p[2]))
        if k == 'key': return s.models.map_get(s, st, v, p[1])
        if k == 'range': return s.seq_slice(st, v, p[1], p[2])
        raise Unsupported('proj %r' % (p,))
    def pick(s, st, v):
        while isinstance(v, IteV):
            if entails(st.pc, v.c): v = v.a
            elif entails(st.pc, not_(v.c)): v = v.b
            else: return v
        return v
    def write(s, st, key, projs, val):
        if not projs: st.mem[key] = val; return
        base = st.mem.get(key)
        st.mem[key] = s.upd(st, base, list(projs), val)
    def upd(s, st, v, projs, val):
        """functional update; writes through nested MRefs go to their target"""
        if not projs: return val
        p = projs[0]; k = p[0]
        if isinstance(v, MRef):
            rest = projs[1:] if k == 'deref' else projs
            s.write(st, (v.fid, v.local), list(v.projs) + rest, val); return v
        if k == 'deref': return s.upd(st, v, projs[1:], val)
        if k == 'v': return s.upd(st, v, projs[1:], val)
        if isinstance(v, IteV):
            v = s.pick(st, v)
            if isinstance(v, IteV): return IteV(v.c, s.upd(st, v.a, projs, val), s.upd(st, v.b, projs, val))
        if k == 'f':
            if v is None or isinstance(v, Dead):
                raise Unsupported('partial init')
            if isinstance(v, Adt):
                fs = list(v.fs); fs[p[1]] = s.upd(st, fs[p[1]], projs[1:], val); return Adt(v.path, v.vi, v.vn, fs)
            if isinstance(v, Tup):
                fs = list(v.fs); fs[p[1]] = s.upd(st, fs[p[1]], projs[1:], val); return Tup(fs)
            if isinstance(v, Closure):
                cs = list(v.caps); cs[p[1]] = s.upd(st, cs[p[1]], projs[1:], val); return Closure(v.name, cs, v.parent)
        if k == 'at':
            if projs[1:]: val = s.upd(st, s.seq_get(st, v, p[1]), projs[1:], val)
            return s.seq_set(st, v, p[1], val)
        if k == 'key':
            if projs[1:]: val = s.upd(st, s.models.map_get(s, st, v, p[1]), projs[1:], val)
            return s.models.map_insert(s, st, v, p[1], val)
        if k == 'range':
            sub = s.upd(st, s.seq_slice(st, v, p[1], p[2]), projs[1:], val)
            n = s.seq_len(v)
            return s.seq_concat([s.seq_slice(st, v, ZERO, p[1]), sub, s.seq_slice(st, v, p[2], n)])
        if k == 'ci':
            i = isub(s.seq_len(v), num(abs(p[1]))) if p[2] else num(p[1])
            return s.upd(st, v, [('at', i)] + projs[1:], val)
        raise Unsupported('update %r in %s' % (p, repr(v)[:120]))
    def resolve_place(s, fr, st, place):
        """-> (key, projs) with mutable references followed"""
        key = (fr.id, place[0]); projs = []
        for p in place[1]:
            if p[0] == 'i': p = ('at', s.deref(st, st.mem[(fr.id, p[1])]))
            if p[0] == 'deref':
                v = s.read(st, key, projs) if (key in st.mem) else None
                if isinstance(v, IteV): v = s.pick(st, v)
                if isinstance(v, MRef): key = (v.fid, v.local); projs = list(v.projs)
                continue
            projs.append(p)
        return key, projs
    def get_place(s, fr, st, place):
        key = (fr.id, place[0])
        v = st.mem.get(key)
        if v is None: raise Unsupported('unset local %s in %s' % (place[0], fr.fn.name))
        for p in place[1]:
            if p[0] == 'i': p = ('at', s.deref(st, st.mem[(fr.id, p[1])]))
            v = s.proj1(st, v, p)
        return v
    # ------------------------------------------------------------ sequences
    def seg_len(s, g):
        if isinstance(g, One): return ONE
        if isinstance(g, Hole): return g.len
        if isinstance(g, Guard): return ite(g.cond, s.segs_len(g.body), ZERO)
        if isinstance(g, Comp):
            n = s.segs_len(g.body)
            if g.var in fv(n):
                # Σ of guarded lengths
                return s.isum(g.var, g.cond, n)
            return imul(n, count(g.var, g.cond))
        raise Unsupported('len')
    def isum(s, v, cond, n):
        """integer sum of n over v"""
        if n.op == 'ite' and not dep(n.args[1], v) and not dep(n.args[2], v):
            return iadd(imul(n.args[1], count(v, and_(cond, n.args[0]))), imul(n.args[2], count(v, and_(cond, not_(n.args[0])))))
        c, d = lin(n)
        out = imul(num(c), count(v, cond)) if c else ZERO
        for a, k in d.items():
            if not dep(a, v): out = iadd(out, imul(iscale(a, k), count(v, cond)))
            elif a.op == 'ite': out = iadd(out, iscale(iadd(s.isum(v, and_(cond, a.args[0]), a.args[1]), s.isum(v, and_(cond, not_(a.args[0])), a.args[2])), k))
            else:
                nv = bvar(max(depth(cond), depth(a)) + 1, v.sort)
                out = iadd(out, iscale(T('isum', (nv, subst(cond, {v: nv}), subst(a, {v: nv})), 'I'), k))
        return out
    def segs_len(s, segs):
        n = ZERO
        for g in segs: n = iadd(n, s.seg_len(g))
        return n
    def seq_len(s, v):
        if isinstance(v, IteV): return ite(v.c, s.seq_len(v.a), s.seq_len(v.b))
        if isinstance(v, Seq): return s.segs_len(v.segs)
        r = s.models.len_(s, v)
        if r is not None: return r
        raise Unsupported('len of %s' % repr(v)[:100])
    def seq_concat(s, vs):
        out = []
        for v in vs:
            if isinstance(v, IteV): raise Unsupported('concat ite')
            if not isinstance(v, Seq): raise Unsupported('concat of %s' % repr(v)[:100])
            out += v.segs
        return Seq(s.norm_segs(out))
    def norm_segs(s, segs):
        out = []
        for g in segs:
            if isinstance(g, Guard):
                if g.cond is TRUE: out += s.norm_segs(g.body); continue
                if g.cond is FALSE or not g.body: continue
            elif isinstance(g, Comp):
                if g.cond is FALSE or not g.body: continue
                r = s.comp_range(g)
                if r and r[1] is not None and iadd(r[0], num(1)) is r[1]:
                    out += s.norm_segs([segsub(x, {g.var: r[0]}) for x in g.body]); continue
            out.append(g)
        return out
    def comp_range(s, g):
        """(lo, hi) when the Comp runs over a pure integer range, hi may be None (unbounded)"""
        if g.var.sort != 'I': return None
        r = range_of(g.var, g.cond)
        if r and not r[2]: return r[0], r[1]
        cs = conj(g.cond)
        if len(cs) == 1 and cs[0].op == 'le':
            k, d = lin(cs[0].args[0])
            if d.get(g.var) == -1 and len([a for a in d if dep(a, g.var)]) == 1:
                d.pop(g.var); return mklin(k, d), None
        return None
    def seq_get(s, st, v, i):
        if isinstance(v, MRef): v = s.deref(st, v)
        if isinstance(v, IteV):
            p = s.pick(st, v)
            if not isinstance(p, IteV): return s.seq_get(st, p, i)
            return ite_val(v.c, s.seq_get(st, v.a, i), s.seq_get(st, v.b, i))
        if not isinstance(v, Seq):
            r = s.models.index(s, st, v, i)
            if r is not None: return r
            raise Unsupported('index of %s' % repr(v)[:100])
        return s.segs_get(st, v.segs, i, st.pc)
    def segs_get(s, st, segs, i, pc):
        if not segs: raise Unsupported('index out of segments')
        g = segs[0]
        n = s.seg_len(g)
        last = len(segs) == 1
        inside = TRUE if last else lt(i, n)
        if last or inside is TRUE or entails(pc, inside): return s.seg_get(st, g, i, pc)
        if inside is FALSE or entails(pc, not_(inside)): return s.segs_get(st, segs[1:], isub(i, n), pc)
        a = s.seg_get(st, g, i, pc + (inside,)); b = s.segs_get(st, segs[1:], isub(i, n), pc + (not_(inside),))
        return ite_val(inside, a, b)
    def seg_get(s, st, g, i, pc):
        if isinstance(g, One): return g.v
        if isinstance(g, Guard): return s.segs_get(st, g.body, i, pc)
        if isinstance(g, Hole):
            if g.elem is not None: return g.elem(i)
            raise Unsupported('index into growing sequence '+str(g.name))
        r = s.comp_range(g)
        m = s.segs_len(g.body)
        if r is not None:
            if m is ONE and len(g.body) == 1 and isinstance(g.body[0], One):
                return vsub(g.body[0].v, {g.var: iadd(r[0], i)})
            if not dep(m, g.var) and m.op == 'num':
                # find q with i = m*q + r
                q = s.split_div(i, m.args[0], pc)
                if q is not None:
                    return s.segs_get(st, [segsub(x, {g.var: iadd(r[0], q[0])}) for x in g.body], q[1], pc)
        elif m is ONE and len(g.body) == 1 and isinstance(g.body[0], One):
            j = s.unrank(i, g, pc)
            if j is not None: return vsub(g.body[0].v, {g.var: j})
        raise Unsupported('index into %s at %r' % (repr(g)[:100], i))
    def unrank(s, i, g, pc):
        """i == #{v' < j : cond(v')} with cond(j) known: the element is body(j)"""
        c, d = lin(i)
        for a, k in d.items():
            if a.op == 'count' and k == 1 and c == 0 and len(d) == 1:
                # upper bounds among conjuncts of count's condition
                v, cond = a.args
                for x in conj(cond):
                    if x.op == 'le':
                        kk, dd = lin(x.args[0])
                        if dd.get(v) == 1 and len(dd) == 2:
                            dd.pop(v)
                            j = iscale(mklin(kk - 1, dd), -1)
                            if entails(pc, subst(g.cond, {g.var: j})):
                                w = fresh_var('I'); 
                                lhs = and_(subst(g.cond, {g.var: w}), lt(w, j)); rhs = subst(cond, {v: w})
                                if check(pc, [or_(and_(lhs, not_(rhs)), and_(rhs, not_(lhs)))]) == 'unsat': return j
        # rank zero / single element
        return None
    def split_div(s, i, m, pc):
        if m == 1: return i, ZERO
        c, d = lin(i)
        q = {a: k // m for a, k in d.items() if k % m == 0}
        rest = {a: k for a, k in d.items() if k % m}
        cq, cr = divmod(c, m)
        qq = mklin(cq, q); r = mklin(cr, rest)
        if entails(pc, and_(le(ZERO, r), lt(r, num(m)))): return qq, r
        if rest:
            # remainder may exceed: try shifting by small constants
            for dlt in (-1, 1):
                r2 = iadd(r, num(-dlt * m))
                if entails(pc, and_(le(ZERO, r2), lt(r2, num(m)))): return iadd(qq, num(dlt)), r2
        return None
    def seq_slice(s, st, v, a, b):
        if isinstance(v, MRef): v = s.deref(st, v)
        if isinstance(v, IteV):
            p = s.pick(st, v)
            if not isinstance(p, IteV): return s.seq_slice(st, p, a, b)
            return ite_val(v.c, s.seq_slice(st, v.a, a, b), s.seq_slice(st, v.b, a, b))
        if not isinstance(v, Seq):
            r = s.models.slice_(s, st, v, a, b)
            if r is not None: return r
            raise Unsupported('slice of %s' % repr(v)[:80])
        if eq(a, b) is TRUE: return Seq([])
        if a is ZERO and eq(b, s.seq_len(v)) is TRUE: return v
        try: return Seq(s.norm_segs(s.segs_slice(st, v.segs, a, b, st.pc)))
        except Unsupported as e:
            # a cut at a fixed place in bytes of unknown lengths: bytes of which nothing is known
            if not (a.op == b.op == 'num' and 'ambiguous' in str(e) and int_leaves(v.segs)): raise
            import models; k = fresh_var('I', 'k')
            return Seq([Comp(k, and_(le(ZERO, k), lt(k, isub(b, a))), [One(app('slice.byte', (models.valterm(v), iadd(a, k)), 'I'))])])
    def segs_slice(s, st, segs, a, b, pc):
        out = []; off = ZERO
        for ix, g in enumerate(segs):
            n = s.seg_len(g); end = iadd(off, n)
            # overlap of [a,b) with [off,end)
            if entails(pc, le(b, off)): break
            if entails(pc, le(end, a)): off = end; continue
            full_lo = entails(pc, le(a, off)); full_hi = entails(pc, le(end, b))
            if full_lo and full_hi: out.append(g); off = end; continue
            lo = off if full_lo else a; hi = end if full_hi else b
            if not full_lo and not entails(pc, le(off, a)): raise Unsupported('slice start ambiguous %r %r' % (a, off))
            if not full_hi and not entails(pc, le(b, end)): raise Unsupported('slice end ambiguous %r %r' % (b, end))
            out += s.seg_slice(st, g, isub(lo, off), isub(hi, off), pc)
            off = end
        return out
    def seg_slice(s, st, g, a, b, pc):
        """elements [a,b) of g, 0<=a<=b<=len"""
        if isinstance(g, One):
            if entails(pc, and_(eq(a, ZERO), eq(b, ONE))): return [g]
            if entails(pc, eq(a, b)): return []
            raise Unsupported('slice one')
        if isinstance(g, Comp):
            r = s.comp_range(g); m = s.segs_len(g.body)
            if r is not None:
                lo = r[0]
                if m is ONE:
                    nv = fresh_var('I', 'k')
                    hi = r[1] if r[1] is not None and b is s.seg_len(g) else iadd(lo, b)
                    return [Comp(nv, and_(le(iadd(lo, a), nv), lt(nv, hi)), [segsub(x, {g.var: nv}) for x in g.body], g.order)]
                if m.op == 'num':
                    qa = s.split_div(a, m.args[0], pc); qb = s.split_div(b, m.args[0], pc)
                    if qa and qb:
                        body = lambda q: [segsub(x, {g.var: iadd(lo, q)}) for x in g.body]
                        if qa[0] is qb[0] or entails(pc, eq(qa[0], qb[0])):
                            return s.segs_slice(st, body(qa[0]), qa[1], qb[1], pc)
                        out = []
                        start = qa[0]
                        if qa[1] is not ZERO:
                            out += s.segs_slice(st, body(qa[0]), qa[1], m, pc); start = iadd(start, ONE)
                        nv = fresh_var('I', 'k')
                        if not (start is qb[0]):
                            out.append(Comp(nv, and_(le(iadd(lo, start), nv), lt(nv, iadd(lo, qb[0]))), [segsub(x, {g.var: nv}) for x in g.body], g.order))
                        if qb[1] is not ZERO: out += s.segs_slice(st, body(qb[0]), ZERO, qb[1], pc)
                        return out
            elif m.op == 'num' and m is not ONE and g.var.sort == 'I' and g.order == 'asc':
                # elements of a set of numbers in ascending order: the one whose rank is asked for
                qa = s.split_div(a, m.args[0], pc); qb = s.split_div(b, m.args[0], pc)
                j = (s.unrank(qa[0], g, pc) or (app('nth', (mklam(g.var, (g.cond,)), qa[0]), 'I') if qa[0] is ZERO else None)) if qa and qb else None
                if j is not None:
                    body = [segsub(x, {g.var: j}) for x in g.body]
                    if qa[0] is qb[0] or entails(pc, eq(qa[0], qb[0])): return s.segs_slice(st, body, qa[1], qb[1], pc)
                    if qb[1] is ZERO and entails(pc, eq(iadd(qa[0], ONE), qb[0])): return s.segs_slice(st, body, qa[1], m, pc)
            if s.segs_len(g.body) is ONE:
                # a run of the elements in an order nothing is known of: some of them
                from models import valterm
                return [Comp(g.var, and_(g.cond, app('slice.in', (valterm(Seq([g])), a, b, g.var), 'B')), g.body, g.order)]
        if isinstance(g, Guard): return [Guard(g.cond, s.segs_slice(st, g.body, a, b, pc + (g.cond,)))]
        raise Unsupported('slice of seg %s [%r,%r)' % (repr(g)[:80], a, b))
    def seq_set(s, st, v, i, val):
        if isinstance(v, IteV): return ite_val(v.c, s.seq_set(st, v.a, i, val), s.seq_set(st, v.b, i, val))
        if not isinstance(v, Seq): raise Unsupported('set in %s' % repr(v)[:80])
        if len(v.segs) == 1 and isinstance(v.segs[0], Hole) and v.segs[0].elem is not None:
            return Seq([SetSeg(v.segs[0], i, val)])
        n = s.seq_len(v)
        a = s.segs_slice(st, v.segs, ZERO, i, st.pc); b = s.segs_slice(st, v.segs, iadd(i, ONE), n, st.pc)
        return Seq(s.norm_segs(a + [One(val)] + b))
    # ------------------------------------------------------------ operands
    def operand(s, fr, st, op):
        if op[0] == 'place': return s.get_place(fr, st, op[1])
        return s.const(fr, st, op[1])
    def const(s, fr, st, c):
        c = c.strip()
        m = re.match(r'^(-?\d+)_(\w+)$', c)
        if m: return num(int(m.group(1)))
        if c == 'true': return TRUE
        if c == 'false': return FALSE
        if c == '()': return UNITV
        if c.startswith('"'): return sstr(unescape(c[1:-1]))
        if c.startswith('b"'):
            bs = unescape_bytes(c[2:-1]); return Seq([One(num(x)) for x in bs])
        if c.startswith("'"):
            t = unescape(c[1:-1]); return num(ord(t))
        m = re.match(r'^(usize|u8|u16|u32|u64|u128|i8|i16|i32|i64|i128|isize)::(MAX|MIN)$', c) or re.match(r'^.*<impl (\w+)>::(MAX|MIN)$', c)
        if m: return RANGES[m.group(1)][1 if m.group(2) == 'MAX' else 0]
        if c.startswith('{alloc') or c.startswith('{transmute') or c.startswith('Indirect'):
            m = re.match(r'\{alloc\d+: &([\w:]+)\}$', c)
            if m: return Obj('static', name=m.group(1))
            raise Unsupported('const %s' % c[:60])
        r = s.models.const(s, fr, st, c)
        if r is not None: return r
        d = s.prog.crates[fr.crate]
        cc = c
        body = None
        if 'promoted[' in cc: body = getattr(fr.fn, 'promoted', {}).get(re.search(r'promoted\[\d+\]$', cc).group(0))
        if body is None: body = d.consts.get(cc)
        if body is None:
            # promoted / associated: match by suffix
            base = re.sub(r'::<[^<>]*>', '', cc)
            body = d.consts.get(base)
        if body is None and 'promoted[' in cc:
            k = re.search(r'promoted\[\d+\]$', cc).group(0)
            key = fr.fn.name.split('#dup')[0] + '::' + k
            body = d.consts.get(key)
        if body is None:
            last = cc.split('::')[-1]
            if re.match(r'^[A-Z_0-9a-z]+$', last):
                cands = [n for n in d.consts if n.split('::')[-1] == last and 'promoted' not in n]
                if len(cands) == 1: body = d.consts[cands[0]]
                elif len(cands) > 1:
                    b2 = [n for n in cands if cc.endswith(n) or n.endswith(cc)]
                    if len(b2) == 1: body = d.consts[b2[0]]
                    elif '::' in cc:
                        # associated constant of a type: the impl whose header names it
                        ty = cc.split('::')[-2]
                        b3 = [n for n in cands if s.prog.impl_type(n) == ty]
                        if len(b3) == 1: body = d.consts[b3[0]]
            for oc, od in s.prog.crates.items():
                if body is not None: break
                cands = [n for n in od.consts if n.split('::')[-1] == last and 'promoted' not in n]
                if len(cands) == 1: body = od.consts[cands[0]]
        if body is not None:
            if isinstance(body, tuple): return s.const(fr, st, body[2].replace('const ', '', 1) if body[2].startswith('const ') else body[2])
            body.parse()
            if getattr(body, 'crate', None) is None: body.crate = fr.crate
            outs = s.run_fn(body, [], State({}, ()), {}, fr.depth + 1, fr.crate)
            if len(outs) == 1 and outs[0][1][0] == 'ret': return outs[0][1][1]
            raise Unsupported('const eval %s' % c)
        # enum unit variant / unit struct
        a = s.adt_by_path(fr, c)
        if a: 
            path, vi, vn, nf = a
            if nf == 0: return Adt(path, vi, vn, ())
            return FnVal(('ctor', path, vi, vn))
        if re.match(r'^[<\w{]', c): return FnVal(('fn', c, fr))
        raise Unsupported('const %s' % c)
    def adt_by_path(s, fr, path):
        """constructor path -> (def path, variant idx, variant name, nfields)"""
        p = re.sub(r'::<.*', '', path) if '::<' in path else path
        segs, _ = strip_path_generics(path)
        last = segs[-1]
        if last in ('Some', 'None'): return ('Option', 1 if last == 'Some' else 0, last, 1 if last == 'Some' else 0)
        if len(segs) >= 2 and segs[-2] == 'Result': return ('Result', 0 if last == 'Ok' else 1, last, 1)
        if len(segs) >= 2 and segs[-2] == 'ControlFlow': return ('ControlFlow', 0 if last == 'Continue' else 1, last, 1)
        if len(segs) >= 2 and segs[-2] == 'Ordering': return ('Ordering', {'Less': 0, 'Equal': 1, 'Greater': 2}[last], last, 0)
        if last in ('RangeFull', 'Range', 'RangeFrom', 'RangeTo', 'RangeInclusive', 'RangeToInclusive'): return (last, 0, last, {'Range': 2, 'RangeFrom': 1, 'RangeTo': 1}.get(last, 0))
        for c in [fr.crate] + [x for x in s.prog.tt if x != fr.crate]:
            tt = s.prog.tt[c]
            full = '::'.join(segs)
            d = tt.defs.get(full)
            e = tt.defs.get('::'.join(segs[:-1])) if d is None else None
            if d is None and not (e is not None and e.kind == 'enum'):
                t = Ty('path', last, (), full)
                d2 = tt.find(t)
                if d2 is not None and d2.kind == 'struct': d = d2
            if d is not None and d.kind == 'struct': return (d.path, 0, d.name, len(d.variants[0][1]))
            if len(segs) >= 2:
                d = tt.defs.get('::'.join(segs[:-1])) or tt.find(Ty('path', segs[-2], (), '::'.join(segs[:-1])))
                if d is not None and d.kind == 'enum':
                    for vi, (vn, fs) in enumerate(d.variants):
                        if vn == last: return (d.path, vi, vn, len(fs))
        return None
    # ------------------------------------------------------------ rvalues
    def rvalue(s, fr, st, rv, lty):
        k = rv[0]
        if k == 'use': return s.operand(fr, st, rv[1])
        if k == 'ref':
            if not rv[1][1] and fr.fn.locals.get(rv[1][0], '').startswith('*mut ') and isinstance(st.mem.get((fr.id, rv[1][0])), MRef): return MRef(fr.id, rv[1][0], [])   # what a raw pointer points to may be written through a shared reference to it
            return s.deep(st, s.get_place(fr, st, rv[1]))
        if k == 'refmut':
            key, projs = s.resolve_place(fr, st, rv[1])
            return MRef(key[0], key[1], projs)
        if k == 'bin':
            a = s.operand(fr, st, rv[2]); b = s.operand(fr, st, rv[3])
            return s.binop(fr, st, rv[1], s.deref(st, a), s.deref(st, b), s.op_ty(fr, rv[2]), s.op_ty(fr, rv[3]))
        if k == 'un':
            a = s.deref(st, s.operand(fr, st, rv[2]))
            if rv[1] == 'Not':
                if a.sort == 'B': return not_(a)
                raise Unsupported('int not')
            if rv[1] == 'Neg': return isub(ZERO, a) if a.sort == 'I' else rneg(a)
            if rv[1] == 'PtrMetadata': return s.seq_len(a)
        if k == 'len': return s.seq_len(s.deref(st, s.get_place(fr, st, rv[1])))
        if k == 'discr':
            v = s.deref(st, s.get_place(fr, st, rv[1]))
            return s.discr(st, v)
        if k == 'cast':
            v = s.operand(fr, st, rv[1]); to = s.subty(fr, parse_ty(rv[2]))
            if rv[3].startswith('IntToInt'):
                if v.sort == 'B': v = ite(v, ONE, ZERO)
                return s.wrap(st, v, to.name)
            if rv[3].startswith(('PointerCoercion', 'PtrToPtr', 'Transmute', 'Subtype', 'BoxDerefTransmute')): return v
            raise Unsupported('cast %s' % rv[3])
        if k == 'repeat':
            v = s.operand(fr, st, rv[1]); n = rv[2]
            m = re.match(r'^(\d+)', n)
            if m: nn = num(int(m.group(1)))
            else: nn = s.const(fr, st, n.replace('const ', ''))
            kv = fresh_var('I', 'k')
            return Seq([Comp(kv, and_(le(ZERO, kv), lt(kv, nn)), [One(v)])])
        if k == 'array': return Seq([One(s.operand(fr, st, x)) for x in rv[1]])
        if k == 'tuple': return Tup([s.operand(fr, st, x) for x in rv[1]]) if rv[1] else UNITV
        if k == 'closure': return Closure(rv[1], [s.operand(fr, st, x) for _, x in rv[2]], fr.fn.name)
        if k == 'adt':
            a = s.adt_by_path(fr, rv[1])
            vals = [s.operand(fr, st, x) for _, x in rv[2]]
            if a is None:
                nm = strip_path_generics(rv[1])[0][-1]
                return Adt(nm, 0, nm, vals)
            path, vi, vn, nf = a
            if rv[2] and rv[2][0][0] is not None and path not in ('Range', 'RangeFrom', 'RangeTo'):
                # named: reorder by definition
                for tt in [s.prog.tt[fr.crate]] + list(s.prog.tt.values()):
                    d = tt.defs.get(path)
                    if d:
                        names = [f for f, _ in d.variants[vi][1]]
                        if set(names) == set(n for n, _ in rv[2]):
                            dd = {n: v for (n, _), v in zip(rv[2], vals)}
                            vals = [dd[n] for n in names]; break
            return Adt(path, vi, vn, vals)
        if k == 'sizeof':
            raise Unsupported('sizeof')
        raise Unsupported('rvalue %r' % (rv,))
    def discr(s, st, v):
        if isinstance(v, IteV):
            v = s.pick(st, v)
            if isinstance(v, IteV): return ite(v.c, s.discr(st, v.a), s.discr(st, v.b))
        if isinstance(v, Adt):
            if v.path == 'Ordering': return num(v.vi - 1)
            return num(v.vi)
        if isinstance(v, Obj) and v.kind == 'err': raise Unsupported('inspecting error value')
        r = s.models.discr(s, st, v)
        if r is not None: return r
        raise Unsupported('discriminant of %s' % repr(v)[:100])
    def op_ty(s, fr, op):
        """static type of an operand"""
        if op[0] == 'const':
            m = re.match(r'^-?\d+_(\w+)$', op[1].strip())
            if m: return parse_ty(m.group(1))
            if op[1].strip() in ('true', 'false'): return parse_ty('bool')
            return None
        return s.place_ty(fr, op[1])
    def place_ty(s, fr, place):
        t = fr.fn.locals.get(place[0])
        if t is None: return None
        t = parse_ty(t)
        for p in place[1]:
            if p[0] == 'deref':
                if t.k in ('ref', 'refmut', 'ptr'): t = t.args[0]
                elif t.k == 'path' and t.args: t = t.args[0]
                else: return None
            elif p[0] == 'f': t = parse_ty(p[2])
            elif p[0] in ('i', 'ci'):
                if not t.args: return None
                t = t.args[0]
            elif p[0] == 'sub': pass
        return s.subty(fr, t)
    def subty(s, fr, t):
        if not fr.tysub: return t
        return s._subty(t, fr.tysub)
    def _subty(s, t, sub):
        if t.k == 'path' and not t.args and t.full in sub: return sub[t.full]
        if t.args: return Ty(t.k, t.name, [s._subty(a, sub) for a in t.args], t.full)
        if t.k == 'proj':                              # <P as Trait>::Item
            m = re.match(r'<(\w+) as ', t.name); r = sub.get(m.group(1)) if m else None
            if r is not None and r.k == 'path' and not r.args: return Ty('proj', '<%s%s' % (r.full, t.name[m.end() - 4:]), t.args, '<%s%s' % (r.full, t.name[m.end() - 4:]))
        return t
    def wrap(s, st, v, ty):
        r = RANGES.get(ty)
        if r is None: raise Unsupported('cast to %s' % ty)
        lo, hi = r
        if v.op == 'num':
            n = hi.args[0] - lo.args[0] + 1
            x = (v.args[0] - lo.args[0]) % n + lo.args[0]
            return num(x)
        if entails(st.pc, and_(le(lo, v), le(v, hi))): return v
        n = hi.args[0] - lo.args[0] + 1
        if lo is ZERO: return imod(v, num(n))
        return iadd(imod(isub(v, lo), num(n)), lo)
    def binop(s, fr, st, op, a, b, ta, tb):
        if isinstance(a, Tup) or isinstance(a, Adt):
            raise Unsupported('binop on aggregate')
        ty = ta.name if ta is not None and ta.k == 'path' else (tb.name if tb is not None else None)
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if op == 'Eq': return eq(a, b)
            if op == 'Ne': return not_(eq(a, b))
            if a.sort == 'B': raise Unsupported('bool order')
            return {'Lt': lt, 'Le': le, 'Gt': gt, 'Ge': ge}[op](a, b)
        if op.endswith('WithOverflow'):
            v = {'A': iadd, 'S': isub, 'M': imul}[op[0]](a, b)
            r = RANGES.get(ty)
            if r is None: raise Unsupported('overflow type %r' % (ty,))
            okc = and_(le(r[0], v), le(v, r[1]))
            return Tup([v, not_(okc)])
        if op in ('Add', 'AddUnchecked'): return s.wrap(st, iadd(a, b), ty)
        if op in ('Sub', 'SubUnchecked'): return s.wrap(st, isub(a, b), ty)
        if op in ('Mul', 'MulUnchecked'): return s.wrap(st, imul(a, b), ty)
        if op == 'Div':
            if entails(st.pc, and_(le(ZERO, a), lt(ZERO, b))): return idiv(a, b)
            raise Unsupported('signed div')
        if op == 'Rem':
            if entails(st.pc, and_(le(ZERO, a), lt(ZERO, b))): return imod(a, b)
            raise Unsupported('signed rem')
        if op == 'BitAnd':
            if a.sort == 'B': return and_(a, b)
            if a.op == 'num' and b.op == 'num': return num(a.args[0] & b.args[0])
            for x, y in ((a, b), (b, a)):
                if y.op == 'num' and (y.args[0] & (y.args[0] + 1)) == 0: return imod(x, num(y.args[0] + 1))
                if y.op == 'num' and y.args[0] > 0 and (y.args[0] & (y.args[0] - 1)) == 0:
                    p = y.args[0]; return iscale(imod(idiv(x, num(p)), num(2)), p)
            return app('bitand', (a, b), 'I')
        if op == 'BitOr':
            if a.sort == 'B': return or_(a, b)
            if a.op == 'num' and b.op == 'num': return num(a.args[0] | b.args[0])
            # disjoint ranges
            return app('bitor', tuple(sorted((a, b), key=lambda x: x.id)), 'I')
        if op == 'BitXor':
            if a.sort == 'B': return not_(eq(a, b))
            if a.op == 'num' and b.op == 'num': return num(a.args[0] ^ b.args[0])
            return app('bitxor', tuple(sorted((a, b), key=lambda x: x.id)), 'I')
        if op == 'Shl':
            if b.op == 'num': return s.wrap(st, iscale(a, 2 ** b.args[0]), ty)
            if a.op == 'num': return s.wrap(st, iscale(app('pow2', (b,), 'I'), a.args[0]), ty)
        if op == 'Shr':
            if b.op == 'num' and entails(st.pc, le(ZERO, a)): return idiv(a, num(2 ** b.args[0]))
            if entails(st.pc, le(ZERO, a)): return idiv(a, app('pow2', (b,), 'I'))
        raise Unsupported('binop %s' % op)
    # ------------------------------------------------------------ function execution
    def run_fn(s, fn, args, st, tysub, depth, crate=None):
        """-> [(State, ('ret', v) | ('panic', msg))]"""
        if depth > 60: raise Limit('call depth')
        fn.parse()
        fr = Frame(fn, tysub, depth, crate or fn.crate)
        st = st.fork()
        names = fn.args if fn.kind == 'fn' else []
        if len(args) != len(names): raise Unsupported('arity %s' % fn.name)
        for n, a in zip(names, args): st.mem[(fr.id, n)] = a
        outs = s.run_blocks(fr, st, 0, None)
        res = []
        for st2, o in outs:
            for k in [k for k in st2.mem if k[0] == fr.id]: del st2.mem[k]
            res.append((st2, o))
        return res
    def run_blocks(s, fr, st, bb, stop):
        """run from block bb; stop = (header, blockset) or None"""
        fn = fr.fn
        loops = find_loops(fn)
        work = [(st, bb, True, {})]; outs = []
        npaths = 0
        while work:
            st, bb, start, cnt = work.pop()
            if s.deadline and time.time() > s.deadline: raise Limit('time limit')
            if stop is not None and not start:
                if bb == stop[0]: outs.append((st, ('cont',))); continue
                if bb not in stop[1]: outs.append((st, ('exit', bb))); continue
            if bb in loops and not start or (bb in loops and stop is None):
                if not (stop is not None and bb == stop[0]):
                    r = s.while_loop(fr, st, bb, loops[bb], cnt)
                    if r is not None:
                        for st2, o in r:
                            if o[0] in ('ret', 'panic'): outs.append((st2, o))
                            else: work.append((st2, o[1], False, dict(cnt)))
                        continue
            npaths += 1
            if npaths > s.MAXPATHS: raise Limit('paths in %s' % fn.name)
            s.steps += 1
            nxt = s.run_block(fr, st, bb, stop, cnt)
            for st2, o in nxt:
                if o[0] == 'go': work.append((st2, o[1], False, cnt if len(nxt) == 1 else dict(cnt)))
                elif o[0] == 'go!': work.append((st2, o[1], True, cnt))   # re-enter loop header without stop check
                else: outs.append((st2, o))
        return outs
    def run_block(s, fr, st, bb, stop, cnt):
        fn = fr.fn
        stmts = fn.block(bb)
        for x in stmts:
            k = x[0]
            if k == 'assign':
                try: v = s.rvalue(fr, st, x[2], None)
                except Unsupported as e:
                    if x[2][0] in ('use', 'ref') : 
                        # unreadable temporaries become Dead (reported when used)
                        if s.trace: print('dead', e)
                        raise
                    raise
                s.assign(fr, st, x[1], v)
            elif k == 'goto': return [(st, ('go', x[1]))]
            elif k == 'drop': return [(st, ('go', x[2]))]
            elif k == 'return':
                return [(st, ('ret', st.mem.get((fr.id, '_0'), UNITV)))]
            elif k == 'unreachable': return []
            elif k == 'resume': return []
            elif k == 'setdiscr': raise Unsupported('set_discriminant')
            elif k == 'nop': continue
            elif k == 'switch':
                v = s.deref(st, s.operand(fr, st, x[1]))
                return s.switch(st, v, x[2], x[3])
            elif k == 'assert':
                c = s.deref(st, s.operand(fr, st, x[2]))
                good = not_(c) if x[1] else c
                res = []
                for st2, b in s.branch(st, good):
                    if b: res.append((st2, ('go', x[4])))
                    else: res.append((st2, ('panic', x[3][:80])))
                return res
            elif k == 'call':
                return s.do_call(fr, st, bb, x, stop, cnt)
            else: raise Unsupported('stmt %r' % (x,))
        return []
    def assign(s, fr, st, place, v):
        if not place[1]: st.mem[(fr.id, place[0])] = v; return
        key, projs = s.resolve_place(fr, st, place)
        s.write(st, key, projs, v)
    def negligible(s, c, pc=()):
        """equation whose probability over the fresh random elements is negligible: a polynomial in them
        with a coefficient (of positive degree) that is known to be non-zero"""
        if c.op == 'feq0': return s.nonzero_poly(c.args[0], pc)
        if c.op == 'or': return all(s.negligible(x, pc) for x in c.args)
        if c.op == 'and': return any(s.negligible(x, tuple(pc) + tuple(y for y in c.args if y is not x)) for x in c.args)
        if c.op == 'exists' : return s.negligible(c.args[1], pc)
        if c.op == 'not' and c.args[0].op == 'forall':
            return s.negligible(not_(c.args[0].args[1]), pc)
        return False
    def is_rnd(s, a):
        if a.op in ('sym', 'app') and str(a.args[0]).startswith('rnd'): return True
        return a.op == 'app' and str(a.args[0]).startswith('hash')
    def nonzero_poly(s, p, pc):
        if not s.has_rnd(p): return False
        p = solver.clear_denoms(p)
        nzs = None; groups = {}
        for m, c in mons(p).items():
            g = tuple((a, e) for a, e in m if s.is_rnd(a)); r = tuple((a, e) for a, e in m if not s.is_rnd(a))
            groups.setdefault(g, []).append((r, c))
        for g, cs in groups.items():
            if not g or len(cs) != 1: continue
            r, c = cs[0]
            if not r: return True
            if nzs is None: nzs = {x.args[0].args[0] for x in pc if x.op == 'not' and x.args[0].op == 'feq0'}
            if mkpoly({r: 1}) in nzs or all(fromatom(a) in nzs for a, _ in r): return True
        return False
    def has_rnd(s, t):
        return any(str(a.args[0]).startswith(('rnd', 'hash')) for a in atoms_of(t))
    def branch(s, st, c):
        """fork on boolean c -> [(state, bool)]"""
        c = s.simp(st, c)
        if c is TRUE: return [(st, True)]
        if c is FALSE: return [(st, False)]
        out = []
        a = st.fork().assume(c)
        nc = not_(c)
        b = st.fork().assume(nc)
        fa = not s.dead(a, c); fb = not s.dead(b, nc)
        if fa: out.append((a, True))
        if fb: out.append((b, False))
        if len(out) == 1:
            # decided: keep the path condition unchanged when entailed
            st2, v = out[0]
            if not s.negligible(nc if v else c, st.pc): st2.pc = st.pc
        return out
    def dead(s, st, c):
        if s.negligible(c, st.pc):
            s.assumed.add('negligible-probability event excluded: %s' % show_short(c)); return True
        for x in conj(c):
            if x.op == 'not' and x.args[0].op == 'feq0' and solver.ring_zero(x.args[0].args[0], st.pc): return True
        return check(st.pc) == 'unsat'
    def simp(s, st, c):
        if c in st.pc: return TRUE
        if not_(c) in st.pc: return FALSE
        if c.op == 'or':
            xs = [s.simp(st, x) for x in c.args]
            return or_(*xs)
        if c.op == 'and':
            xs = [s.simp(st, x) for x in c.args]
            return and_(*xs)
        if c.op == 'feq0' and solver.ring_zero(c.args[0], st.pc): return TRUE
        return c
    def switch(s, st, v, cases, other):
        if isinstance(v, T) and v.sort == 'B':
            d = dict(cases)
            fb = d.get(0, other); tb = d.get(1, other)
            res = []
            for st2, b in s.branch(st, v): res.append((st2, ('go', tb if b else fb)))
            return res
        if not isinstance(v, T): raise Unsupported('switch on %r' % (v,))
        res = []; cur = st
        for k, b in cases:
            c = eq(v, num(k))
            outs = s.branch(cur, c)
            cur = None
            for st2, t in outs:
                if t: res.append((st2, ('go', b)))
                else: cur = st2
            if cur is None: break
        if cur is not None and other is not None: res.append((cur, ('go', other)))
        return res
    # ------------------------------------------------------------ calls
    def do_call(s, fr, st, bb, x, stop, cnt):
        _, dest, f, argops, ret = x
        args = [s.operand(fr, st, a) for a in argops]
        atys = [s.op_ty(fr, a) for a in argops]
        if f[0] == 'op':
            fv_ = s.deref(st, s.operand(fr, st, f[1])); callee = None
            outs = s.call_value(fr, st, fv_, args)
        else:
            callee = parse_callee(f[1])
            if callee.method == 'next' and callee.trait == 'Iterator' and len(args) == 1 and isinstance(args[0], MRef):
                it = s.deref(st, args[0])
                if isinstance(it, IterV): return s.iter_next(fr, st, bb, args[0], it, dest, ret, stop, cnt)
            if s.trace: print('  ' * fr.depth, 'call', f[1][:100], [repr(a)[:60] for a in args])
            outs = s.call(fr, st, callee, args, atys, s.place_ty(fr, dest))
        res = []
        for st2, o in outs:
            if o[0] == 'ret':
                if ret is None: continue
                s.assign(fr, st2, dest, o[1])
                res.append((st2, ('go', ret)))
            else: res.append((st2, o))
        return res
    def call_value(s, fr, st, f, args):
        """call a closure / fn value with args"""
        f = s.deref(st, f)
        if isinstance(f, Closure):
            return s.call_closure(fr, st, f, args)
        if isinstance(f, FnVal):
            if f.callee[0] == 'ctor': return [(st, ('ret', Adt(f.callee[1], f.callee[2], f.callee[3], args)))]
            if f.callee[0] == 'py': return f.callee[1](s, st, args)
            c = parse_callee(f.callee[1])
            return s.call(f.callee[2], st, c, args, [None] * len(args), None)
        raise Unsupported('call of %r' % (f,))
    def call_closure(s, fr, st, clo, args):
        cands = []
        for c in ([fr.crate] if fr else []) + list(s.prog.crates):
            cands = s.prog.closures.get((c, clo.name), [])
            if cands: break
        if len(cands) > 1:
            base = clo.parent.split('#dup')[0]
            cands = [f for f in cands if f.name.startswith(base)] or cands
            if '#dup' in clo.parent:
                k = clo.parent.rsplit('#dup', 1)[1]
                cands = [f for f in cands if f.uname.endswith('#dup' + k)] or cands
        if not cands: raise Unsupported('closure body %s' % clo.name)
        fn = cands[0]; fn.parse()
        if len(fn.args) != 1 + len(args):
            # args passed as one tuple
            raise Unsupported('closure arity')
        return s.run_fn(fn, [clo] + list(args), st, getattr(fr, 'tysub', {}) if fr else {}, (fr.depth if fr else 0) + 1, fn.crate)
    def call(s, fr, st, callee, args, atys, rty):
        """resolve and run a call"""
        if callee.method == 'as_array' and len(args) == 1: return [(st, ('ret', args[0]))]     # arrayref: same bytes as an array
        info = s.resolve(fr, st, callee, args, atys, rty) if not callee.raw.startswith('std::boxed::Box::<') else None
        s.calls.add(callee.key)
        if callee.method == 'as_array' and len(args) == 1: return [(st, ('ret', args[0]))]     # arrayref: same bytes as an array
        if info is not None and s.err_fn(info) and s.models.override(info, callee) is None:
            return [(st, ('ret', ERRV))]
        if info is not None:
            m = s.models.override(info, callee)
            if m is not None:
                s.models_used.add(info.ident)
                return s.norm_out(st, m(s, fr, st, callee, args))
            c = s.contract_of(info)
            if c is not None and info.ident not in s.nocontract:
                s.contracts_used.add(info.ident)
                return c.apply(s, fr, st, args)
            s.inlined.add(info.ident)
            tysub = s.bind_generics(fr, info, callee, args, atys, rty)
            return s.run_fn(info.fn, args, st, tysub, fr.depth + 1, info.crate)
        m = s.models.lookup(s, fr, st, callee, args, atys)
        if m is None:
            d = s.default_method(fr, callee)
            if d is None: raise Unsupported('no model for %s (%s)' % (callee.key, callee.raw[:120]))
            s.inlined.add(d.ident)
            tysub = s.bind_generics(fr, d, callee, args, atys, rty); tysub['Self'] = strip_refs(s.subty(fr, callee.self_ty))
            return s.run_fn(d.fn, args, st, tysub, fr.depth + 1, d.crate)
        s.models_used.add(callee.key)
        return s.norm_out(st, m(s, fr, st, callee, args))
    def default_method(s, fr, callee):
        """a method a trait of this crate provides and no impl overrides"""
        if callee.trait is None or callee.self_ty is None: return None
        end = '%s::%s' % (callee.trait.split('::')[-1], callee.method)
        l = [i for i in s.prog.index.get((fr.crate, callee.method), ()) if i.free and (i.name == end or i.name.endswith('::' + end))]
        return l[0] if len(l) == 1 else None
    def err_fn(s, info):
        """constructors of error values: errors carry no information in this logic"""
        f = info.fn
        if not getattr(f, 'parsed_ret', None):
            f.parse(); 
            try: f.parsed_ret = parse_ty(f.ret)
            except Exception: f.parsed_ret = Ty('path', '?', (), '?')
        r = f.parsed_ret
        return r.k == 'path' and (r.name.endswith('Error') or r.name.endswith('ErrorKind') or (r.name == 'Context' and r.args))
    def norm_out(s, st, r):
        if isinstance(r, list): return [(a, b if isinstance(b, tuple) and b and b[0] in ('ret', 'panic') else ('ret', b)) for a, b in r]
        if isinstance(r, tuple) and r and r[0] == 'panic': return [(st, r)]
        return [(st, ('ret', r))]
    def bind_generics(s, fr, info, callee, args, atys, rty=None):
        """type-parameter substitution by unifying declared arg types with static operand types"""
        sub = {}
        f = info.fn; f.parse()
        def uni(a, b):
            if a is None or b is None: return
            if a.k == 'path' and not a.args and is_generic(a):
                if not is_generic(b): sub.setdefault(a.full, b)
                return
            if a.k == b.k and len(a.args) == len(b.args):
                for x, y in zip(a.args, b.args): uni(x, y)
        for n, t in zip(f.args, atys):
            if t is not None: uni(parse_ty(f.locals[n]), s.subty(fr, t))
        if info.self_ty is not None and callee.self_ty is not None: uni(info.self_ty, s.subty(fr, callee.self_ty))
        if len(callee.gens) == 1 and callee.gens[0] is not None:     # f::<Type>, the parameter being named in the body only
            if not hasattr(f, 'tparams'): f.tparams = {x for t in re.findall(r'<([A-Z]) as |::<([A-Z])>|: (?:&(?:mut )?)?([A-Z]);', '\n'.join(f.lines)) for x in t if x}
            left = [x for x in f.tparams if x not in sub]
            g = s.subty(fr, callee.gens[0])
            if len(left) == 1 and not is_generic(g): sub[left[0]] = g
        if not f.args and rty is not None:
            try: uni(parse_ty(f.ret), s.subty(fr, rty))
            except Exception: pass
        return sub
    def resolve(s, fr, st, callee, args, atys, rty):
        key = callee.method
        cands = []
        for c in [fr.crate] + [x for x in s.prog.crates if x != fr.crate]:
            l = s.prog.index.get((c, key))
            if l: cands += l
        if not cands: return None
        if callee.trait is None and callee.self_ty is None:
            # free function
            fs = [i for i in cands if i.free and i.name.split('#dup')[0].split('::')[-1] == key]
            if not fs: return None
            raw = '::'.join(callee.segs)
            ex = [i for i in fs if i.name == raw]
            if ex: return ex[0]
            return fs[0] if len(fs) == 1 else None
        out = []
        sty = s.subty(fr, callee.self_ty) if callee.self_ty is not None else None
        if sty is not None: sty = s.alias(sty)
        nargs = len(args)
        raw = '::'.join(callee.segs)
        for i in cands:
            i.fn.parse()
            if len(i.fn.args) != nargs: continue
            if i.free:
                if callee.trait is None:
                    if i.name == raw: return i
                    if raw.endswith('::' + i.name) : 
                        r0 = raw.split('::')[0].replace('-', '_')
                        if s.models.crate_alias(r0) == i.crate: return i
                    # nested fn: path printed relative: to_bytes::as_array
                    if sty is not None and i.name.endswith('::' + '::'.join(callee.segs[-2:])) and '{' not in i.name: out.append(i)
                    elif sty is not None and len(callee.segs) >= 2 and re.match(r'^[a-z_0-9]+$', callee.segs[-2]) and i.name.split('::')[-1] == key and len(i.name.split('::')) >= 2 and i.name.split('::')[-2] == callee.segs[-2]: out.append(i)
                continue
            if callee.trait is not None and i.trait is not None and i.trait != callee.trait: continue
            if callee.trait is None and i.trait is not None: continue
            if callee.trait is not None and i.trait is None and i.self_ty is not None and not i.name.count('<impl'): continue
            t = sty
            if t is not None and i.self_ty is not None:
                a = strip_refs(s.alias(i.self_ty)); b = strip_refs(t)
                if callee.trait is not None and is_generic(b):
                    # dispatch on the runtime value of the first argument
                    if not args: continue
                    v = s.deref(st, args[0])
                    if not s.value_has_type(v, a): continue
                elif not ty_match(a, b): continue
                elif callee.trait is not None and a.k == 'path' and a.name == b.name and '::' in b.full and a.full.split('::')[0] != b.full.split('::')[0] and b.full.split('::')[0] not in s.prog.crates and ('::' in a.full) and b.full.split('::')[0] in s.models.externals: continue
            elif i.self_ty is None: continue
            if t is not None and not is_generic(strip_refs(t)):
                # external type with same method name
                b = strip_refs(t)
                if b.k == 'path' and b.full.split('::')[0] in ('std', 'core', 'alloc') and (i.self_ty is None or not ty_match(strip_refs(i.self_ty), b)): continue
            out.append(i)
        if not out: return None
        if sty is not None and strip_refs(sty).k == 'dyn' and len(out) > 1: return None
        ring_self = callee.trait is not None and sty is not None and strip_refs(sty).k == 'path' and strip_refs(sty).name in s.models.RING and len(args) == 2
        if len(out) > 1 or ring_self:
            o2 = []
            for i in out:
                okk = True
                for n, t, v in zip(i.fn.args, atys, args):
                    pt = parse_ty(i.fn.locals[n])
                    if t is not None and not ty_match(s.alias_deep(pt), s.alias_deep(s.subty(fr, t))): okk = False; break
                if okk and rty is not None and not ty_match(s.alias_deep(parse_ty(i.fn.ret)), s.alias_deep(rty)): okk = False
                if okk: o2.append(i)
            if o2: out = o2
            elif ring_self: return None                # an operator of an external type with other operands
        if len(out) > 1 and callee.trait is not None and any(i.trait == callee.trait for i in out): out = [i for i in out if i.trait == callee.trait]
        if len(out) > 1 and callee.trait_args:
            o2 = [i for i in out if i.trait_args is None or all(ty_match(a, b) for a, b in zip(i.trait_args, callee.trait_args))]
            if o2: out = o2
        if len(out) > 1:
            ex = [i for i in out if i.self_ty is not None and sty is not None and strip_refs(i.self_ty).full == strip_refs(sty).full]
            if ex: out = ex
        if len(out) > 1:
            out = [i for i in out if i.crate == fr.crate] or out
        if len(out) > 1:
            ids = set(i.ident for i in out)
            if len(ids) > 1: raise Unsupported('ambiguous call %s -> %s' % (callee.raw[:100], [i.name[:80] for i in out]))
        return out[0]
    def alias_deep(s, t):
        t = s.alias(t)
        if t.args: return Ty(t.k, t.name, [s.alias_deep(a) for a in t.args], t.full)
        return t
    def value_has_type(s, v, t):
        if isinstance(v, IteV): return s.value_has_type(v.a, t)
        if isinstance(v, Adt): return t.k == 'path' and (v.path == t.full or v.path.split('::')[-1] == t.name)
        if isinstance(v, T):
            if v.sort == 'F': return s.models.isring(t)
            if v.sort == 'I': return t.k == 'path' and t.name in INTS
            if v.sort == 'S': return t.k == 'path' and t.name in ('str', 'String')
            return t.k == 'path' and t.name == 'bool'
        if isinstance(v, Seq): return t.k in ('slice', 'array') or (t.k == 'path' and t.name == 'Vec')
        return False
    # ------------------------------------------------------------ iteration
    def iter_next(s, fr, st, bb, ref, it, dest, ret, stop, cnt):
        """iterator step; a comprehension segment inside a loop header is summarised"""
        segs = list(it.segs)
        key = (ref.fid, ref.local)
        while segs:
            g = segs[0]
            if isinstance(g, One):
                s.write(st, key, ref.projs, IterV(segs[1:]))
                s.assign(fr, st, dest, some(g.v))
                return [(st, ('go', ret))]
            if isinstance(g, Guard):
                res = []
                for st2, b in s.branch(st, g.cond):
                    s.write(st2, key, ref.projs, IterV(list(g.body) + segs[1:] if b else segs[1:]))
                    res.append((st2, ('go!', bb)) if False else (st2, ('go', bb)))
                # re-run this block's call with the reduced iterator
                out = []
                for st2, _ in res: out += s.iter_next(fr, st2, bb, ref, s.deref(st2, ref), dest, ret, stop, cnt)
                return out
            if isinstance(g, Comp):
                if g.cond is FALSE: segs = segs[1:]; continue
                loops = find_loops(fr.fn)
                L = s.driving_loop(fr.fn, bb, loops)
                if L is None:
                    return s.peel_next(fr, st, ref, segs, dest, ret)
                H, blocks = L
                s.loops += 1
                rest = segs[1:]
                def step(st1, v):
                    # hold the iterator out of the state while the body runs
                    s.assign(fr, st1, dest, some(v))
                    outs = s.run_blocks(fr, st1, ret, (H, blocks)) if ret != H else [(st1, ('cont',))]
                    return [(a, ('norm', []) if o[0] == 'cont' else o) for a, o in outs]
                s.write(st, key, ref.projs, IterV([]))
                outs = s.summarise(st, g, step, 'loop %s bb%d' % (fr.fn.name[-60:], H))
                res = []
                for st2, o in outs:
                    if o[0] == 'norm':
                        s.write(st2, key, ref.projs, IterV(rest))
                        res += s.iter_next(fr, st2, bb, ref, IterV(rest), dest, ret, stop, cnt)
                    elif o[0] == 'exit':
                        # leave to block o[1]
                        s.write(st2, key, ref.projs, DEAD)
                        res.append((st2, ('go', o[1])))
                    else: res.append((st2, o))
                return res
            raise Unsupported('iterate %r' % (g,))
        s.write(st, key, ref.projs, IterV([]))
        s.assign(fr, st, dest, none())
        return [(st, ('go', ret))]
    def driving_loop(s, fn, bb, loops):
        """loop whose header leads straight to bb"""
        best = None
        for H, blocks in loops.items():
            if bb not in blocks: continue
            b = H; seen = set()
            while b != bb and b not in seen:
                seen.add(b)
                sc = succs(fn.block(b)[-1]); 
                if len(sc) != 1: b = None; break
                b = sc[0]
            if b == bb:
                if best is None or len(blocks) < len(best[1]): best = (H, blocks)
        return best
    def peel_next(s, fr, st, ref, segs, dest, ret):
        g = segs[0]; key = (ref.fid, ref.local)
        r = s.comp_range(g)
        if r is None:
            raise Unsupported('peel filtered')
        lo, hi = r
        nonempty = TRUE if hi is None else lt(lo, hi)
        res = []
        for st2, b in s.branch(st, nonempty):
            if b:
                body = [segsub(x, {g.var: lo}) for x in g.body]
                nv = fresh_var('I', 'k')
                tail = Comp(nv, and_(le(iadd(lo, ONE), nv), *( [lt(nv, hi)] if hi is not None else [])), [segsub(x, {g.var: nv}) for x in g.body], g.order)
                s.write(st2, key, ref.projs, IterV(body + [tail] + segs[1:]))
                res += s.iter_next_plain(fr, st2, ref, dest, ret)
            else:
                s.write(st2, key, ref.projs, IterV(segs[1:]))
                res += s.iter_next_plain(fr, st2, ref, dest, ret)
        return res
    def iter_next_plain(s, fr, st, ref, dest, ret):
        it = s.deref(st, ref); segs = list(it.segs)
        if not segs:
            s.assign(fr, st, dest, none()); return [(st, ('go', ret))]
        if isinstance(segs[0], One):
            s.write(st, (ref.fid, ref.local), ref.projs, IterV(segs[1:]))
            s.assign(fr, st, dest, some(segs[0].v)); return [(st, ('go', ret))]
        return s.peel_next(fr, st, ref, segs, dest, ret)
    # run step over a list of segments: step(st, value) -> [(st, ('norm', [segs]) | other)]
    def run_segs(s, st, segs, step, what='iter'):
        cur = [(st, [])]; outs = []
        for g in segs:
            nxt = []
            for st1, acc in cur:
                if isinstance(g, One): r = step(st1, g.v)
                elif isinstance(g, Comp): r = s.summarise(st1, g, step, what)
                elif isinstance(g, Guard):
                    r = []
                    for st2, b in s.branch(st1, g.cond):
                        if b: r += s.run_segs(st2, g.body, step, what)
                        else: r.append((st2, ('norm', [])))
                elif isinstance(g, SetSeg): raise Unsupported('iterate while updating')
                else: raise Unsupported('iterate growing sequence')
                for st2, o in r:
                    if o[0] == 'norm': nxt.append((st2, acc + list(o[1])))
                    else: outs.append((st2, o))
            cur = nxt
        return [(a, ('norm', b)) for a, b in cur] + outs
    def before(s, order, a, b):
        """a comes before b in the iteration"""
        if a.sort == 'I':
            if order == 'asc': return lt(a, b)
            if order == 'desc': return lt(b, a)
        return app('before', (sstr(repr(order)), a, b), 'B')
    def summarise(s, st, g, step, what, peeled=False):
        body = list(g.body); k = fresh_var(g.var.sort, 'k')
        r = {g.var: k}
        cond = subst(g.cond, r); body = [segsub(x, r) for x in body]
        if len(body) == 1 and isinstance(body[0], Guard): cond = and_(cond, body[0].cond); body = list(body[0].body)
        sp = s.rank_split(st, k, cond, body, g.order)
        if sp is not None: return s.run_segs(st, sp, step, what)
        # very small constant ranges are unrolled; larger ones only if summarising fails
        rg = range_of(k, cond) if k.sort == 'I' else None
        if rg and not rg[2] and order_asc(g.order):
            n = isub(rg[1], rg[0])
            if n.op == 'num' and n.args[0] <= s.models.unroll and rg[0].op == 'num':
                segs = []
                for i in range(max(0, n.args[0])): segs += [segsub(x, {k: iadd(rg[0], num(i))}) for x in body]
                return s.run_segs(st, segs, step, what)
        try:
            return s._summarise(st, k, cond, body, g.order, step, what)
        except Limit: raise
        except Unsupported as e:
            if PKDBG: print("PEEL", what, peeled, str(e)[:150], range_of(k, cond) if k.sort=="I" else None)
            rg = range_of(k, cond) if k.sort == 'I' else None
            if rg and not rg[2]:
                n = isub(rg[1], rg[0])
                if n.op == 'num' and n.args[0] <= 96:
                    segs = []
                    for i in range(max(0, n.args[0])):
                        segs += [segsub(x, {k: iadd(rg[0], num(i))}) for x in body]
                    return s.run_segs(st, segs, step, what)
                if order_asc(g.order) and not peeled:
                    # the first iteration may differ from the others: run it by itself
                    out = []
                    for st1, b in s.branch(st, lt(rg[0], rg[1])):
                        if not b: out.append((st1, ('norm', []))); continue
                        kk = fresh_var('I', 'k')
                        rest = Comp(kk, and_(le(iadd(rg[0], ONE), kk), lt(kk, rg[1])), [segsub(x, {k: kk}) for x in body], 'asc')
                        first = s.run_segs(st1, [segsub(x, {k: rg[0]}) for x in body], step, what)
                        out += [x for x in first if x[1][0] != 'norm']
                        for st2, o in s.join(st1, [x for x in first if x[1][0] == 'norm']):
                            for st3, o3 in s.summarise(st2, rest, step, what, True):
                                out.append((st3, ('norm', list(o[1]) + list(o3[1])) if o3[0] == 'norm' else o3))
                    return out
            if '[' not in str(e)[:1]: e = type(e)('[%s] %s' % (what, e))
            raise e
    def join(s, base, conts):
        """one state for several ways to reach the same point"""
        if len(conts) <= 1: return conts
        n = len(base.pc); ds = [and_(*a.pc[n:]) for a, _ in conts]
        if any(tuple(a.pc[:n]) != tuple(base.pc) for a, _ in conts): return conts
        com = [c for c in conts[0][0].pc[n:] if all(c in a.pc for a, _ in conts)]
        ds = [and_(*[c for c in a.pc[n:] if c not in com]) for a, _ in conts]
        st = base.fork(); st.assume(*com); last = conts[-1][0]
        merge = lambda vs: merge_vals(vs, ds)
        for l in [l for l in last.mem if all(l in a.mem for a, _ in conts)]:
            if any(a.mem[l] is not last.mem[l] for a, _ in conts): st.mem[l] = merge([a.mem[l] for a, _ in conts])
            else: st.mem[l] = last.mem[l]
        st.assume(or_(*ds))
        return [(st, ('norm', merge([Seq(o[1]) for _, o in conts]).segs if any(o[1] for _, o in conts) else []))]
    def rank_split(s, st, k, cond, body, order):
        """range of length c + count(..): iterate over the counted set instead of its ranks"""
        if k.sort != 'I' or order != 'asc': return None
        rg = range_of(k, cond)
        if not rg or rg[2]: return None
        lo, hi = rg[0], rg[1]
        c, d = lin(isub(hi, lo))
        cnts = [a for a in d if a.op == 'count']
        if len(cnts) != 1 or len(d) != 1 or d[cnts[0]] != 1 or c < 0 or c > 8: return None
        a = cnts[0]
        v0, cc = a.args
        v = fresh_var(v0.sort, 'k'); cc = subst(cc, {v0: v})
        if v.sort != 'I': return None
        r = range_of(v, cc)
        if r and not r[2]: return None
        p = fresh_var(v.sort, 'p')
        rk = count(p, and_(subst(cc, {v: p}), lt(p, v)))
        out = []
        for i in range(c): out += [segsub(x, {k: iadd(lo, num(i))}) for x in body]
        s_ = {k: iadd(iadd(lo, num(c)), rk)}
        out.append(Comp(v, cc, [segsub(x, s_) for x in body], 'asc'))
        return out
    def _summarise(s, st, k, cond, body, order, step, what):
        base = st
        if check(st.pc, [cond]) == 'unsat': return [(st, ('norm', []))]
        M = {}; LIN = {}; badlin = set()
        rg0 = range_of(k, cond) if k.sort == 'I' and order == 'asc' else None
        def rank(kk):
            if rg0 and not rg0[2]: return isub(kk, rg0[0])
            kp_ = fresh_var(k.sort, 'p')
            return count(kp_, and_(subst(cond, {k: kp_}), s.before(order, kp_, kk)))
        total = count(k, cond)
        for rnd in range(12):
            st1 = base.fork()
            for loc, ph in M.items(): st1.mem[loc] = ph
            st1.assume(cond)
            for d_ in LIN.values():
                if d_[0] == 'seq': st1.assume(le(imul(rank(k), d_[1]), d_[2]))
            pc0 = st1.pc
            nfresh = len(s.fresh_names)
            before_keys = dict(st1.mem)
            outs = s.run_segs(st1, body, step, what)
            conts = [(a, o) for a, o in outs if o[0] == 'norm']
            exits = [(a, o) for a, o in outs if o[0] != 'norm']
            changed = []
            for a, o in conts:
                for loc, v in before_keys.items():
                    if loc in M or loc in changed: continue
                    w = a.mem.get(loc)
                    if w is not v and (w is None or not same(w, v)): changed.append(loc)
            # candidate linear invariants must be inductive
            redo = False
            for path, d_ in list(LIN.items()):
                for a, o in conts:
                    w = at_path(a.mem[path[0]], path[1:])
                    if not s.lin_ok(a, d_, w, rank(k), at_path(base.mem[path[0]], path[1:])):
                        if DBG: print('BADLIN', path, w, 'want', s.lin_value(a, d_, at_path(base.mem[path[0]], path[1:]), iadd(rank(k), ONE)), a.pc)
                        badlin.add(path); LIN.pop(path, None); redo = True; break
            if redo:
                for loc in list(M): M[loc] = s.placeholder(base.mem[loc], loc, (loc,), LIN, rank(k), s, base)
                continue
            if not changed: break
            if DBG: print('ROUND', rnd, changed, [repr(base.mem[l])[:200] for l in changed], list(LIN))
            for loc in changed:
                for path, d_ in s.lin_cands(base.mem[loc], [a.mem.get(loc) for a, _ in conts], (loc,), names_dep=set(s.fresh_names[nfresh:]) , k=k):
                    if path not in badlin: LIN[path] = d_
                M[loc] = s.placeholder(base.mem[loc], loc, (loc,), LIN, rank(k), s, base)
        else: raise Unsupported('loop does not stabilise')
        names = s.fresh_names[nfresh:]
        # refine element-update holes: handled in placeholder/solve
        # merge continuing states
        def delta(a): return and_(*[c for c in a.pc if c not in pc0]) if len(a.pc) > len(pc0) or a.pc != pc0 else TRUE
        deltas = [delta(a) for a, _ in conts]
        contcond = or_(*deltas) if conts else FALSE
        # what all continuing branches share holds in every completed iteration: it need not guard the merged values
        cj = [set(conj(d)) for d in deltas]
        short = [and_(*[c for c in conj(d) if not all(c in x for x in cj)]) for d in deltas]
        short = distinguishing(short)
        phs = {}   # leaf placeholders
        finals = {}; prefixes = {}
        if conts:
            merged = {}
            for loc in M:
                merged[loc] = merge_vals([a.mem[loc] for a, _ in conts], short)
            payload = s.merge_payload(conts, short)
        else:
            merged = {loc: M[loc] for loc in M}; payload = []
        solved = s.solve_leaves(base, M, merged, k, cond, contcond, order, names, LIN, rank, total)
        pre_t, pre_h, fin = solved   # term substitution for prefix at k, hole fill at k, final values
        sk = lambda v, kk: skolem_val(v, names, kk)
        def at(v, kk):
            """instantiate a body-level value at iteration kk: placeholders -> prefix(kk)"""
            v = sk(v, k)
            v = vfill_sub(v, pre_t, pre_h)
            return vsub(v, {k: kk}) if kk is not k else v
        results = []
        cc = at(contcond, k)
        if cc is not TRUE and entails(st.pc + tuple(conj(cond)) if isinstance(st.pc, tuple) else tuple(st.pc) + tuple(conj(cond)), cc): cc = TRUE
        j = fresh_var(k.sort, 'j')
        # normal completion
        if conts or True:
            stn = base.fork()
            if cc is not TRUE:
                stn.assume(forall(k, cond, cc))
            feas = True
            if cc is FALSE or cc is not TRUE: feas = stn.feasible()
            if feas:
                for loc, v in fin.items(): stn.mem[loc] = v
                pl = [segat(x, at, k) for x in payload]
                segs = [mkcomp(k, cond, pl, order)] if pl else []
                results.append((stn, ('norm', segs)))
        for a, o in exits:
            kk = fresh_var(k.sort, 'k')
            d = at(delta(a), kk)
            ste = base.fork()
            ste.assume(subst(cond, {k: kk}))
            if cc is not TRUE:
                ste.assume(forall(j, and_(subst(cond, {k: j}), s.before(order, j, kk)), vsub(cc, {k: j})))
            ste.assume(d)
            if not ste.feasible(): continue
            for loc, v in a.mem.items():
                if loc in base.mem and base.mem[loc] is v and loc not in M: continue
                try: ste.mem[loc] = at(v, kk)
                except Unsupported: ste.mem[loc] = DEAD
            if o[0] == 'exit': results.append((ste, o))
            elif o[0] in ('ret',): results.append((ste, ('ret', at(o[1], kk))))
            elif len(o) > 1 and isinstance(o[1], (T, V)): results.append((ste, (o[0], at(o[1], kk)) + tuple(o[2:])))
            else: results.append((ste, o))
        return results
    def merge_payload(s, conts, deltas):
        if len(conts) == 1: return list(conts[0][1][1])
        pls = [tuple(o[1]) for _, o in conts]
        if all(len(p) == 0 for p in pls): return []
        return list(merge_vals([Seq(p) for p in pls], deltas).segs)
    def lin_cands(s, init, afters, path, names_dep, k):
        """leaves that move by a constant per iteration: [(path, ('int', d) | ('seq', d, len))]"""
        out = []
        if any(a is None for a in afters): return out
        if afters and all(same(a, init) for a in afters): return [(path, ('const',))]
        if isinstance(init, T):
            if init.sort == 'I' and all(isinstance(a, T) and a.sort == 'I' for a in afters):
                ds = [isub(a, init) for a in afters]
                if all(d is ds[0] for d in ds) and ds[0].op == 'num' and ds[0] is not ZERO: out.append((path, ('int', ds[0])))
            return out
        if isinstance(init, (Adt, Tup)):
            if all(type(a) is type(init) and len(a.fs) == len(init.fs) for a in afters) and (isinstance(init, Tup) or all(a.vi == init.vi for a in afters)):
                for i in range(len(init.fs)):
                    out += s.lin_cands(init.fs[i], [a.fs[i] for a in afters], path + (i,), names_dep, k)
            return out
        if isinstance(init, Obj) and init.kind not in ('maphole', 'mapins', 'err'):
            if all(isinstance(a, Obj) and a.kind == init.kind for a in afters):
                for kk in init.d:
                    if isinstance(init.d[kk], (T, V)): out += s.lin_cands(init.d[kk], [a.d[kk] for a in afters], path + (kk,), names_dep, k)
            return out
        if isinstance(init, Seq) and init.segs:
            canon = s.canon_seq(init)
            if canon is None: return out
            r0 = s.comp_range(canon.segs[0]); n = r0 and isub(r0[1], r0[0])
            ds = []
            for a in afters:
                if not isinstance(a, Seq): return out
                try:
                    ca = s.canon_seq(a); r1 = ca and s.comp_range(ca.segs[0])
                    if not r1: return out
                    d = isub(n, isub(r1[1], r1[0])); ds.append(d)
                    if d.op != 'num': return out
                    i = fresh_var('I', 'i'); st = State({}, (le(ZERO, i), lt(i, isub(n, d))))
                    if not same(s.seq_get(st, a, i), vsub(canon.segs[0].body[0].v, {canon.segs[0].var: iadd(iadd(r0[0], i), d)})): return out
                except Unsupported: return out
            if ds and all(d is ds[0] for d in ds) and ds[0].args[0] > 0: out.append((path, ('seq', ds[0], n, canon)))
        return out
    def canon_seq(s, v):
        """the sequence as a single comprehension over its index, or None"""
        if len(v.segs) == 1 and isinstance(v.segs[0], Comp):
            g = v.segs[0]; r = s.comp_range(g)
            if r is not None and r[1] is not None and len(g.body) == 1 and isinstance(g.body[0], One): return v
        if all(isinstance(g, One) for g in v.segs) and len(v.segs) > 8: return None
        try:
            n = s.seq_len(v); k = fresh_var('I', 'k'); c = and_(le(ZERO, k), lt(k, n))
            e = s.seq_get(State({}, tuple(conj(c))), v, k)
            return Seq([Comp(k, c, [One(e)])])
        except Unsupported: return None
    def lin_value(s, st, d, init, r):
        if d[0] == 'const': return init
        if d[0] == 'int': return iadd(init, imul(d[1], r))
        g = d[3].segs[0]; lo, hi = s.comp_range(g); nv = fresh_var('I', 'k')
        return Seq([Comp(nv, and_(le(iadd(lo, imul(d[1], r)), nv), lt(nv, hi)), [segsub(x, {g.var: nv}) for x in g.body], g.order)])
    def lin_ok(s, a, d, w, r, init):
        if d[0] == 'const': return same(w, init)
        if d[0] == 'int': return isinstance(w, T) and entails(a.pc, eq(w, iadd(init, imul(d[1], iadd(r, ONE)))))
        want = s.lin_value(a, d, init, iadd(r, ONE))
        if not (isinstance(w, Seq) and len(w.segs) == 1 and isinstance(w.segs[0], Comp)): return False
        r1 = s.comp_range(w.segs[0]); r2 = s.comp_range(want.segs[0])
        return r1 is not None and entails(a.pc, and_(eq(r1[0], r2[0]), eq(r1[1], r2[1]))) and same(vsub(w.segs[0].body[0].v, {w.segs[0].var: want.segs[0].var}), want.segs[0].body[0].v) and entails(a.pc, le(imul(iadd(r, ONE), d[1]), d[2]))
    def placeholder(s, v, loc, path=None, lin=None, r=None, _s=None, st=None):
        n = next(terms_fresh)
        if lin and path in lin: return s.lin_value(st, lin[path], v, r)
        sub = lambda x, i: s.placeholder(x, loc, path + (i,) if path is not None else None, lin, r, _s, st)
        if isinstance(v, T):
            if v.sort == 'F': return fromatom(T('var', ('ph!%d' % n,), 'F'))
            return T('var', ('ph!%d%s' % (n, ''), ), v.sort)
        if isinstance(v, Adt): return Adt(v.path, v.vi, v.vn, [sub(x, i) for i, x in enumerate(v.fs)])
        if isinstance(v, Tup): return Tup([sub(x, i) for i, x in enumerate(v.fs)])
        if isinstance(v, Seq): return Seq([Hole('h!%d' % n, T('var', ('ph!%d.len' % n,), 'I'))])
        if isinstance(v, MapV): return Obj('maphole', name='m!%d' % n, init=v, reads=[])
        if isinstance(v, Obj):
            return Obj(v.kind, **{k: sub(x, k) if isinstance(x, (T, V)) else x for k, x in v.d.items()})
        return PH(n, v)
    def solve_leaves(s, base, M, merged, k, cond, contcond, order, names, LIN={}, rank=None, total=None):
        """-> (prefix term substitution, prefix hole fill, final values by location)"""
        leaves = []   # (path, ph, init, res)
        s.base_pc = base.pc
        fin = {}
        def collect(path, ph, init, res):
            if path in LIN:
                put(fin, path, s.lin_value(base, LIN[path], init, total)); return
            if isinstance(res, T) and isinstance(ph, T): leaves.append([path, ph, init, res]); return
            if same(ph, res): leaves.append([path, ph, init, 'same']); return
            if isinstance(ph, Adt) and isinstance(res, Adt) and ph.vi == res.vi and len(ph.fs) == len(res.fs):
                for i, (a, b, c) in enumerate(zip(ph.fs, init.fs, res.fs)): collect(path + (i,), a, b, c)
                return
            if isinstance(ph, Tup) and isinstance(res, Tup) and len(ph.fs) == len(res.fs):
                for i, (a, b, c) in enumerate(zip(ph.fs, init.fs, res.fs)): collect(path + (i,), a, b, c)
                return
            if isinstance(ph, Obj) and isinstance(res, Obj) and ph.kind == res.kind and ph.kind != 'maphole' and ph.kind != 'err':
                for kk in ph.d:
                    if isinstance(ph.d[kk], (T, V)): collect(path + (kk,), ph.d[kk], init.d[kk], res.d[kk])
                    elif ph.d[kk] != res.d[kk]: leaves.append([path, ph, init, 'dead']); return
                return
            leaves.append([path, ph, init, res])
        for loc in M: collect((loc,), M[loc], base.mem[loc], merged[loc])
        pre_t = {}; pre_h = {}; lens = {}
        todo = list(leaves)
        kp = fresh_var(k.sort, 'p')      # earlier iterations
        rngp = lambda kk: and_(subst(cond, {k: kp}), s.before(order, kp, kk))
        names_ = names
        phatoms = set()
        for l in leaves:
            if isinstance(l[1], T): phatoms |= set(fv(l[1]))
            if isinstance(l[1], Seq) and l[1].segs and isinstance(l[1].segs[0], Hole): phatoms.add(l[1].segs[0].len)
        holes = {l[1].segs[0].name for l in leaves if isinstance(l[1], Seq) and l[1].segs and isinstance(l[1].segs[0], Hole)}
        def unsolved_in(v, own=()):
            out = set()
            for t in vterms(v) if not isinstance(v, T) else [v]:
                for x in fv(t):
                    if x in phatoms and x not in pre_t and x not in own: out.add(x)
                if mh_open(t, pre_h): out.add('mh')
            if not isinstance(v, T) and has_ph(v, pre_h, own): out.add('hole')
            return out
        def inst(v):
            """solved placeholders replaced by prefix(k); fresh symbols skolemised"""
            return vfill_sub(skolem_val(v, names_, k), pre_t, pre_h)
        progress = True
        while todo and progress:
            progress = False
            for l in list(todo):
                path, ph, init, res = l
                r = s.solve_leaf(ph, init, res, k, kp, cond, rngp, inst, unsolved_in, order, names_)
                if r is None: continue
                todo.remove(l); progress = True
                kind, prefix, final = r
                put(fin, path, final)
                if kind == 'ok' and prefix is not None:
                    if isinstance(ph, T):
                        a = next(iter(fv(ph))); pre_t[a] = prefix
                    elif isinstance(ph, Seq):
                        h = ph.segs[0]; pre_h[h.name] = prefix.segs
                        try: pre_t[h.len] = s.seq_len(prefix)
                        except Unsupported: pass
                    elif isinstance(ph, Obj) and ph.kind == 'maphole': pre_h[ph.d['name']] = prefix
        for l in todo: put(fin, l[0], DEAD)
        out = {}
        for loc in M:
            out[loc] = rebuild_val(M[loc], fin[loc])
        return pre_t, pre_h, out
    def elog_cases(s, r, a):
        """conditional update acc' = acc * x mod n or acc, by cases of the indicators: (n, log of the factor)"""
        inds = set(); ns = set()
        for m, c in mons(r).items():
            for x, e in m:
                if x.op == 'ind': inds.add(x)
                elif x.op == 'app' and x.args[0] == 'E': ns.add(x.args[1])
        if len(ns) != 1 or not 0 < len(inds) <= 4: return None, None
        n_ = ns.pop(); la = lg(n_, fromatom(a)); inds = sorted(inds, key=str); tot = R0
        for v in range(1 << len(inds)):
            sub = {x: (R1 if v >> i & 1 else R0) for i, x in enumerate(inds)}
            y = subst(r, {x.args[0]: (TRUE if v >> i & 1 else FALSE) for i, x in enumerate(inds)})
            w = R1
            for i, x in enumerate(inds): w = rmul(w, fromatom(x) if v >> i & 1 else rsub(R1, fromatom(x)))
            if y is fromatom(a) or rconst(w) == 0 or w is R0: continue
            L = eapp(y, n_)
            if L is None:
                # an impossible combination of cases never counts
                t = and_(*[x.args[0] if v >> i & 1 else not_(x.args[0]) for i, x in enumerate(inds)])
                if t is FALSE or contradiction(list(s.base_pc) + conj(t)): continue
                return None, None
            B = rsub(L, la)
            if a in fv(B): return None, None
            tot = radd(tot, rmul(w, B))
        return n_, tot
    def solve_leaf(s, ph, init, res, k, kp, cond, rngp, inst, unsolved_in, order, names):
        """None = not yet; ('ok', prefix(k) value, final value)"""
        if res == 'same': return ('ok', init, init)
        if res == 'dead': return ('dead', None, DEAD)
        sub_p = lambda v: vsub(v, {k: kp})
        if isinstance(ph, T):
            a = next(iter(fv(ph)))
            if not isinstance(res, T) or res.sort != ph.sort: return ('dead', None, DEAD)
            if unsolved_in(res, (a,)): return None
            r = inst(res)
            if a not in fv(r):
                # last value: usable only through Dead unless init equal
                if r is init: return ('ok', init, init)
                return s.last_value(init, r, k, kp, cond, rngp, order)
            if ph.sort == 'F':
                L = eapp(r)
                if L is not None: n_ = r.args[0][0][0][0][0].args[1]; la = lg(n_, fromatom(a)); Bm = rsub(L, la)
                else: n_, Bm = s.elog_cases(r, a)
                if Bm is not None:
                    # acc' = acc * x mod n: a sum of logs
                    if a in fv(n_): return ('dead', None, DEAD)
                    if a in fv(Bm): return ('dead', None, DEAD)
                    mk = lambda S_, cnt: E(n_, radd(lg(n_, init), S_)) if init is R1 or eapp(init, n_) is not None else ite(eq(cnt, ZERO), init, E(n_, radd(lg(n_, init), S_)))
                    return ('ok', mk(rsum(kp, rngp(k), sub_p(Bm)), count(kp, rngp(k))), mk(rsum(k, cond, Bm), count(k, cond)))
                A = {}; B = {}
                for m, c in mons(r).items():
                    da = [e for x, e in m if x is a]
                    rest = tuple((x, e) for x, e in m if x is not a)
                    if any(a in fv(x) for x, _ in rest): return ('dead', None, DEAD)
                    if not da: B[rest] = B.get(rest, 0) + c
                    elif da == [1]: A[rest] = A.get(rest, 0) + c
                    else: return ('dead', None, DEAD)
                A = mkpoly(A); B = mkpoly(B)
                if rconst(A) == 1 and rconst(B) is not None and (s.open_while or cond is le(ZERO, k)):
                    pc = tuple(s.base_pc); of = lambda n: rmul(B, HOOKS["i2f"](n))
                    return ('ok', radd(init, of(count_in(kp, rngp(k), pc + tuple(conj(cond))))), DEAD if cond is le(ZERO, k) else radd(init, of(count_in(k, cond, pc))))
                if rconst(A) == 1:
                    return ('ok', radd(init, rsum(kp, rngp(k), sub_p(B))), radd(init, rsum(k, cond, B)))
                if rconst(B) == 0:
                    if not dep(A, k):
                        pc = tuple(s.base_pc)
                        pre = rpow(A, count_in(kp, rngp(k), pc + tuple(conj(cond)))); fin = rpow(A, count_in(k, cond, pc))
                    else: pre = rprod(kp, rngp(k), sub_p(A)); fin = rprod(k, cond, A)
                    return ('ok', rmul(init, pre), rmul(init, fin))
                if not dep(A, k):
                    pc = tuple(s.base_pc); ck = pc + tuple(conj(cond)); cp = ck + tuple(conj(rngp(k)))
                    n = count_in(k, cond, pc); rk = count_in(kp, rngp(k), ck)
                    kq = fresh_var(k.sort, 'q')
                    rkp = count_in(kq, and_(subst(cond, {k: kq}), s.before(order, kq, kp)), cp)
                    rkk = count_in(kp, rngp(k), ck)
                    pre = radd(rmul(rpow(A, rk), init), rsum(kp, rngp(k), rmul(rpow(A, isub(isub(rk, ONE), rkp)), sub_p(B))))
                    fin = radd(rmul(rpow(A, n), init), rsum(k, cond, rmul(rpow(A, isub(isub(n, ONE), rkk)), B)))
                    return ('ok', pre, fin)
                return ('dead', None, DEAD)
            if ph.sort == 'I':
                d = isub(r, ph)
                if a in fv(d):
                    q = lin(r)
                    # scaling by a constant: 2*a
                    if q[0] == 0 and len(q[1]) == 1 and list(q[1])[0] is a and q[1][a] > 1:
                        b = q[1][a]
                        mk = lambda e: app('ipow', (num(b), e), 'I') if b != 2 else app('pow2', (e,), 'I')
                        return ('ok', imul(init, mk(count(kp, rngp(k)))), imul(init, mk(count(k, cond))))
                    if d.op == 'ite' or True:
                        pass
                    return ('dead', None, DEAD)
                if not dep(d, k):
                    return ('ok', iadd(init, imul(d, count(kp, rngp(k)))), iadd(init, imul(d, count(k, cond))))
                return ('ok', iadd(init, s.isum(kp, rngp(k), sub_p(d))), iadd(init, s.isum(k, cond, d)))
            if ph.sort == 'B':
                # r = a and t / a or t / general monotone
                t1 = subst(r, {a: TRUE}); t0 = subst(r, {a: FALSE})
                if t0 is FALSE:
                    return ('ok', and_(init, forall(kp, rngp(k), sub_p(t1))), and_(init, forall(k, cond, t1)))
                if t1 is TRUE:
                    return ('ok', or_(init, exists(kp, rngp(k), sub_p(t0))), or_(init, exists(k, cond, t0)))
                return ('dead', None, DEAD)
            return ('dead', None, DEAD)
        if isinstance(ph, Seq):
            h = ph.segs[0]
            if not isinstance(res, Seq):
                return ('dead', None, DEAD)
            segs = list(res.segs)
            if segs and isinstance(segs[0], Hole) and segs[0].name == h.name:
                ext = segs[1:]
                if has_hole(Seq(ext), h.name): return ('dead', None, DEAD)
                if unsolved_in(Seq(ext), (h.len,)): return None
                e = inst(Seq(ext))
                if any(h.len in fv(t) for t in vterms(e)):
                    # position-dependent pushes: length known when extras have constant length
                    L = s.segs_len(e.segs)
                    if h.len in fv(L): return ('dead', None, DEAD)
                    lk = iadd(s.seq_len(init), s.isum(kp, rngp(k), vsub(L, {k: kp})) if dep(L, k) else imul(L, count(kp, rngp(k))))
                    e = vsub(e, {h.len: lk})
                pre = Seq(list(init.segs) + ([mkcomp(kp, rngp(k), [segsub(x, {k: kp}) for x in e.segs], order)] if e.segs else []))
                fin = Seq(list(init.segs) + ([mkcomp(k, cond, e.segs, order)] if e.segs else []))
                return ('ok', pre, fin)
            if segs and isinstance(segs[-1], Hole) and segs[-1].name == h.name:
                # prepending
                ext = segs[:-1]
                if unsolved_in(Seq(ext), (h.len,)) : return None
                e = inst(Seq(ext))
                if any(h.len in fv(t) for t in vterms(e)) or has_hole(e, h.name): return ('dead', None, DEAD)
                r = range_of(k, cond) if k.sort == 'I' else None
                if order == 'asc' and r and not r[2]:
                    tot = iadd(r[0], isub(r[1], ONE)); nk = fresh_var('I', 'k')
                    rs = {k: isub(tot, nk)}
                    fin = Seq([Comp(nk, subst(cond, rs), [segsub(x, rs) for x in e.segs], order)] + list(init.segs))
                    nk2 = fresh_var('I', 'k')
                    totp = iadd(r[0], isub(k, ONE)); rs2 = {k: isub(totp, nk2)}
                    pre = Seq([Comp(nk2, and_(le(r[0], nk2), lt(nk2, k)), [segsub(x, rs2) for x in e.segs], order)] + list(init.segs))
                    return ('ok', pre, fin)
            return ('dead', None, DEAD)
        if isinstance(ph, Obj) and ph.kind == 'maphole':
            return s.models.solve_map(s, ph, init, res, k, kp, cond, rngp, inst, unsolved_in, order)
        return ('dead', None, DEAD)
    def last_value(s, init, r, k, kp, cond, rngp, order):
        """variable overwritten in every iteration with r(k)"""
        rg = range_of(k, cond) if k.sort == 'I' else None
        if order == 'asc' and rg and not rg[2] and isinstance(r, T) and r.sort in 'FIB':
            lo, hi = rg[0], rg[1]
            fin = ite(lt(lo, hi), subst(r, {k: isub(hi, ONE)}), init)
            pre = ite(lt(lo, k), subst(r, {k: isub(k, ONE)}), init)
            if subst(r, {k: isub(lo, ONE)}) is init:        # the value before the loop continues the same law
                pre = subst(r, {k: isub(k, ONE)}); fin = subst(r, {k: isub(hi if lo is ZERO and is_nonneg(hi) else ite(lt(lo, hi), hi, lo), ONE)})
            return ('ok', pre, fin)
        if order == 'asc' and cond is le(ZERO, k) and isinstance(r, T) and r.sort in 'FIB':        # no last iteration in sight
            p_ = subst(r, {k: isub(k, ONE)})
            return ('ok', p_ if subst(r, {k: num(-1)}) is init else ite(lt(ZERO, k), p_, init), DEAD)
        return ('dead', None, DEAD)
    # ------------------------------------------------------------ while loops
    def while_loop(s, fr, st, H, blocks, cnt):
        """summarise a loop that is not driven by an iterator; None = let the path run concretely"""
        fn = fr.fn
        # iterator-driven?
        b = H; seen = set()
        while b not in seen:
            seen.add(b)
            t = fn.block(b)[-1]
            if t[0] == 'call' and t[2][0] == 'fn':
                c = parse_callee(t[2][1])
                if c.method == 'next' and c.trait == 'Iterator': return None
            sc = succs(t)
            if len(sc) != 1 or sc[0] not in blocks: break
            b = sc[0]
        # concrete iteration?
        n = cnt.get(H, 0)
        probe = st.fork()
        outs = s.run_blocks(fr, probe, H, (H, blocks))
        if not any(o[0] == 'cont' for _, o in outs):
            return [(a, ('go', o[1]) if o[0] == 'exit' else o) for a, o in outs]
        if len(outs) == 1 and outs[0][0].pc == st.pc and n < 600:
            cnt[H] = n + 1
            a, o = outs[0]
            return [(a, ('go', H) if o[0] == 'cont' else (('go', o[1]) if o[0] == 'exit' else o))]
        r = s.counted_while(fr, st, H, blocks, outs)
        return r if r is not None else s.summ_while(fr, st, H, blocks)
    def counted_while(s, fr, st, H, blocks, outs):
        """a while loop whose guard bounds a local counter with constant stride runs like a `for` over the iteration number"""
        conts = [a for a, o in outs if o[0] == 'cont']
        ctr = {}
        for loc, v in st.mem.items():
            if loc[0] != fr.id or not isinstance(v, T) or v.sort != 'I': continue
            ds = set()
            for a in conts:
                w = a.mem.get(loc)
                d = isub(w, v) if isinstance(w, T) and w.sort == 'I' else None
                ds.add(d.args[0] if d is not None and d.op == 'num' else 0)
            if len(ds) == 1 and 0 not in ds: ctr[loc] = (v, ds.pop())
        if not ctr: return None
        try:
            s.loops += 1
            at = lambda kk: {loc: iadd(v, iscale(kk, c)) for loc, (v, c) in ctr.items()}
            # the guard: the header's own branch, with the counters in iteration k
            k = fresh_var('I', 'it'); probe = st.fork(); probe.mem.update(at(k)); probe.assume(le(ZERO, k))
            pc0 = probe.pc; cur = [(probe, H)]; stay = []
            for _ in range(12):
                nxt = []
                for a, b in cur:
                    for a2, o in s.run_block(fr, a, b, (H, blocks), {}):
                        if o[0] != 'go': continue
                        if o[1] in blocks: nxt.append((a2, o[1]))
                if not nxt: return None
                cur = nxt
                if any(a.pc != pc0 for a, _ in cur): break
            else: return None
            hi = None
            if len(cur) != 1: return None
            for c in [x for c in cur[0][0].pc if c not in pc0 for x in conj(c)]:
                if c.op == 'le':
                    c0, d = lin(c.args[0])
                    if d.get(k, 0) >= 1 and not any(dep(x, k) for x in d if x is not k):
                        a = d.pop(k); r = iscale(mklin(c0, d), -1)
                        if a != 1 and not is_nonneg(r): continue
                        hi = iadd(r, ONE) if a == 1 else iadd(idiv(r, num(a)), ONE); break
                if c.op == 'not' and c.args[0].op == 'ieq':
                    c0, d = lin(c.args[0].args[0])
                    if abs(d.get(k, 0)) == 1 and not any(dep(x, k) for x in d if x is not k):
                        a = d.pop(k); r = iscale(mklin(c0, d), -a)
                        if entails(st.pc, le(ZERO, r)): hi = r; break
            if hi is None: return None
            base = {loc: v for loc, (v, c) in ctr.items()}
            def step(st1, v):
                v = v if isinstance(v, T) else s.deref(st1, v)
                st1.mem.update(at(v)); res = []
                for a, o in s.run_blocks(fr, st1, H, (H, blocks)):
                    if o[0] == 'cont':
                        for loc, (v0, c) in ctr.items():
                            if a.mem.get(loc) is not iadd(iadd(v0, iscale(v, c)), num(c)): raise Unsupported('counter %r' % (loc,))
                        a.mem.update(base); res.append((a, ('norm', [])))
                    elif o[0] == 'exit':
                        if entails(a.pc, lt(v, hi)) and not a.feasible(): continue
                        res.append((a, o))
                    else: res.append((a, o))
                return res
            kk = fresh_var('I', 'it')
            res = []
            for a, o in s.run_segs(st.fork(), [Comp(kk, and_(le(ZERO, kk), lt(kk, hi)), [One(kk)], 'asc')], step, 'while'):
                if o[0] == 'norm':
                    N = hi if (is_nonneg(hi) or entails(a.pc, le(ZERO, hi))) else T('nneg', (hi,), 'I')
                    a.mem.update(at(N))
                    for a2, o2 in s.run_blocks(fr, a, H, (H, blocks)):
                        if o2[0] == 'cont': raise Unsupported('counted while: bound')
                        res.append((a2, ('go', o2[1]) if o2[0] == 'exit' else o2))
                else: res.append((a, ('go', o[1]) if o[0] == 'exit' else o))
            return res
        except Limit: raise
        except Unsupported as e:
            if s.trace: print('counted while', e)
            return None
    open_while = False
    def summ_while(s, fr, st, H, blocks):
        s.loops += 1
        k = fresh_var('I', 'it')
        def step(st1, v):
            outs = s.run_blocks(fr, st1, H, (H, blocks))
            return [(a, ('norm', []) if o[0] == 'cont' else o) for a, o in outs]
        # pass 1: find the bound from exits that are linear in the iteration number
        was = s.open_while; s.open_while = False
        try: res = s._while(st.fork(), k, step)
        finally: s.open_while = was
        return [(a, ('go', o[1]) if o[0] == 'exit' else o) for a, o in res]
    def _while(s, base, k, step):
        cond0 = le(ZERO, k)
        M = {}
        for rnd in range(8):
            st1 = base.fork()
            for loc, ph in M.items(): st1.mem[loc] = ph
            st1.assume(cond0)
            # facts: counters stay in range because every path keeps them there (checked per iteration)
            for loc, ph in M.items():
                pass
            pc0 = st1.pc; nfresh = len(s.fresh_names); bk = dict(st1.mem)
            outs = step(st1, None)
            conts = [(a, o) for a, o in outs if o[0] == 'norm']; exits = [(a, o) for a, o in outs if o[0] != 'norm']
            changed = []
            for a, o in conts:
                for loc, v in bk.items():
                    if loc in M or loc in changed: continue
                    w = a.mem.get(loc)
                    if w is not v and (w is None or not same(w, v)): changed.append(loc)
            if not changed: break
            for loc in changed:
                for a, o in conts: base.mem[loc] = widened(s.models, base.mem[loc], a.mem.get(loc))
                M[loc] = s.placeholder(base.mem[loc], loc)
        else: raise Unsupported('while loop does not stabilise')
        if not conts: raise Unsupported('while loop without iteration')
        names = s.fresh_names[nfresh:]
        delta = lambda a: and_(*[c for c in a.pc if c not in pc0])
        deltas = [delta(a) for a, _ in conts]
        merged = {}
        for loc in M:
            v = conts[-1][0].mem[loc]
            for (a, _), d in list(zip(conts, deltas))[-2::-1]: v = ite_val(d, a.mem[loc], v)
            merged[loc] = v
        # counters first, over the unbounded range, to express guards in k
        pre_t, pre_h, fin0 = s.solve_leaves(base, M, merged, k, cond0, or_(*deltas), 'asc', names)
        at = lambda v, kk: vsub(vfill_sub(skolem_val(v, names, k), pre_t, pre_h), {k: kk}) if kk is not k else vfill_sub(skolem_val(v, names, k), pre_t, pre_h)
        cc = at(or_(*deltas), k)
        # bound: a conjunct of cc of the form  a*k + r <= 0, a>0, r independent of k
        hi = None
        for c in conj(cc):
            if c.op == 'le':
                c0, d = lin(c.args[0])
                if d.get(k, 0) >= 1 and not any(dep(x, k) for x in d if x is not k):
                    a = d.pop(k); r = iscale(mklin(c0, d), -1)   # a*k <= r
                    b = iadd(r, ONE) if a == 1 else iadd(idiv(r, num(a)), ONE)
                    if a != 1 and not is_nonneg(r): continue
                    hi = b; guard = c; break
            if c.op == 'not' and c.args[0].op == 'ieq':
                c0, d = lin(c.args[0].args[0])
                if abs(d.get(k, 0)) == 1 and not any(dep(x, k) for x in d if x is not k):
                    a = d.pop(k); r = iscale(mklin(c0, d), -a)
                    if entails(base.pc, le(ZERO, r)): hi = r; guard = c; break
        opened_ = None
        if hi is None:
            # no bound in sight (partial correctness): the loop leaves after the first iteration number whose guard fails
            hi = first_fail(k, cc); s.open_while = True; guard = cc; opened_ = not_(subst(cc, {k: hi}))
        N = hi if (is_nonneg(hi) or entails(base.pc, le(ZERO, hi))) else T('nneg', (hi,), 'I')
        cond = and_(le(ZERO, k), lt(k, hi))
        # redo with the bounded range (stronger facts available in the body)
        M2 = {}
        for rnd in range(8):
            st1 = base.fork()
            for loc, ph in M2.items(): st1.mem[loc] = ph
            st1.assume(cond)
            # counters: tie placeholders to their solved form
            for loc, ph in M2.items():
                for (p, f) in zip(leaves_of(ph), leaves_of(M[loc])) if loc in M else []:
                    if isinstance(p, T) and p.sort in 'I':
                        a = next(iter(fv(f)))
                        if a in pre_t: st1.assume(eq(p, pre_t[a]))
            pc0 = st1.pc; nfresh = len(s.fresh_names); bk = dict(st1.mem)
            outs = step(st1, None)
            conts = [(a, o) for a, o in outs if o[0] == 'norm']; exits = [(a, o) for a, o in outs if o[0] != 'norm']
            changed = []
            for a, o in conts:
                for loc, v in bk.items():
                    if loc in M2 or loc in changed: continue
                    w = a.mem.get(loc)
                    if w is not v and (w is None or not same(w, v)): changed.append(loc)
            if not changed: break
            for loc in changed: M2[loc] = s.placeholder(base.mem[loc], loc)
        names = s.fresh_names[nfresh:]
        delta = lambda a: and_(*[c for c in a.pc if c not in pc0])
        deltas = [delta(a) for a, _ in conts]
        if not conts: raise Unsupported('while: no continuing path')
        merged = {}
        for loc in M2:
            v = conts[-1][0].mem[loc]
            for (a, _), d in list(zip(conts, deltas))[-2::-1]: v = ite_val(d, a.mem[loc], v)
            merged[loc] = v
        cc0 = or_(*deltas)
        pre_t, pre_h, fin = s.solve_leaves(base, M2, merged, k, cond, cc0, 'asc', names)
        cc = at2(s, cc0, k, k, names, pre_t, pre_h)
        results = []
        # early exits at kk < hi
        j = fresh_var('I', 'j')
        for a, o in exits if opened_ is None else []:      # in an open loop the guard holds before hi, so nothing leaves there
            kk = fresh_var('I', 'k')
            ste = base.fork(); ste.assume(subst(cond, {k: kk}))
            if cc is not TRUE: ste.assume(forall(j, and_(subst(cond, {k: j}), lt(j, kk)), vsub(cc, {k: j})))
            ste.assume(at2(s, delta(a), k, kk, names, pre_t, pre_h))
            if not ste.feasible(): continue
            for loc, v in a.mem.items():
                if loc in base.mem and base.mem[loc] is v and loc not in M2: continue
                try: ste.mem[loc] = at2(s, v, k, kk, names, pre_t, pre_h)
                except Unsupported: ste.mem[loc] = DEAD
            if o[0] == 'ret': o = ('ret', at2(s, o[1], k, kk, names, pre_t, pre_h))
            results.append((ste, o))
        # completion of all hi iterations, then one more header pass which must leave
        stn = base.fork()
        if cc is not TRUE: stn.assume(forall(k, cond, cc))
        if stn.feasible():
            for loc, v in fin.items(): stn.mem[loc] = v
            if opened_ is not None: stn.assume(opened_)
            last = step(stn.fork(), None)
            for a, o in last:
                if o[0] == 'norm':
                    if a.feasible(): raise Unsupported('while bound not exact')
                    continue
                results.append((a, o))
        return results

def first_fail(k, guard):
    """the least k >= 0 for which guard fails (when there is one), as a term"""
    return T('nneg', (app('first.fail', (T('val', (mklam(k, (guard,)),), 'X'),), 'I'),), 'I')

def widened(models, v, w):
    """v in the representation w has, where the models know one that means the same"""
    if isinstance(v, Adt) and isinstance(w, Adt) and v.vi == w.vi and len(v.fs) == len(w.fs):
        fs = [widened(models, x, y) for x, y in zip(v.fs, w.fs)]
        return v if all(x is y for x, y in zip(fs, v.fs)) else Adt(v.path, v.vi, v.vn, fs)
    return models.widen(v, w)

def at2(s, v, k, kk, names, pre_t, pre_h):
    v = vfill_sub(skolem_val(v, names, k), pre_t, pre_h)
    return vsub(v, {k: kk}) if kk is not k else v

def at_path(v, path):
    for p in path:
        v = v.d[p] if isinstance(v, Obj) else v.fs[p]
    return v
def leaves_of(v):
    if isinstance(v, (Adt, Tup)):
        out = []
        for x in v.fs: out += leaves_of(x)
        return out
    return [v]

class PH(V):
    def __init__(s, n, init): s.n = n; s.init = init
    def __repr__(s): return 'PH%d' % s.n
class SetSeg:
    def __init__(s, hole, i, v): s.hole = hole; s.i = i; s.v = v

def has_ph(v, pre_h, own):
    found = []
    def go(v):
        if isinstance(v, Obj):
            if v.kind == 'maphole' and v.d['name'] not in pre_h: found.append(1)
            for x in v.d.values():
                if isinstance(x, V): go(x)
        elif isinstance(v, (Adt, Tup)):
            for x in v.fs: go(x)
        elif isinstance(v, (Seq, IterV)): gs(v.segs)
        elif isinstance(v, IteV): go(v.a); go(v.b)
        elif isinstance(v, Closure):
            for x in v.caps: go(x)
        elif isinstance(v, PH): found.append(1)
    def gs(segs):
        for g in segs:
            if isinstance(g, Hole) and g.name not in pre_h: found.append(1)
            elif isinstance(g, One): go(g.v)
            elif isinstance(g, (Comp, Guard)): gs(g.body)
    go(v)
    return bool(found)

def count_in(v, cond, pc):
    """number of v with cond where pc holds: redundant bounds are dropped"""
    n = count(v, cond)
    if n.op == 'count':
        cs = list(conj(cond))
        for c in list(cs):
            if len(cs) > 1 and dep(c, v) and c.op == 'le':
                o = [x for x in cs if x is not c]
                if entails(tuple(pc) + tuple(o), c): cs = o
        n = count(v, and_(*cs))
    if n.op == 'nneg' and entails(pc, le(ZERO, n.args[0])): n = n.args[0]
    return n
def put(fin, path, v):
    d = fin.setdefault(path[0], {})
    d[path[1:]] = v
def rebuild_val(ph, d):
    if () in d: return d[()]
    def go(ph, path):
        if path in d: return d[path]
        if isinstance(ph, Adt): return Adt(ph.path, ph.vi, ph.vn, [go(x, path + (i,)) for i, x in enumerate(ph.fs)])
        if isinstance(ph, Tup): return Tup([go(x, path + (i,)) for i, x in enumerate(ph.fs)])
        if isinstance(ph, Obj): return Obj(ph.kind, **{k: go(x, path + (k,)) if isinstance(x, (T, V)) else x for k, x in ph.d.items()})
        return ph
    return go(ph, ())

def segat(g, at, k):
    if isinstance(g, One): return One(at(g.v, k))
    if isinstance(g, Guard): return Guard(at(g.cond, k), [segat(x, at, k) for x in g.body])
    if isinstance(g, Comp): return Comp(g.var, at(g.cond, k), [segat(x, at, k) for x in g.body], g.order)
    raise Unsupported('segat')

def vfill_sub(v, pre_t, pre_h):
    for _ in range(6):
        w = v
        if pre_h and not isinstance(v, T): v = fill_all(v, pre_h)
        if pre_t: v = vsub(v, pre_t)
        v = mh_fill(v, pre_h)
        if v is w: break
        ts = [v] if isinstance(v, T) else vterms(v)
        if not any(x in pre_t for t in ts for x in fv(t)): break
    return v
def mh_open(t, pre_h=()):
    """names of unsolved map holes whose membership t asks for"""
    return {a.args[0][3:] for a in atoms_of(t) if a.op == 'app' and a.args[0].startswith('mh:') and a.args[0][3:] not in pre_h}
def mh_fill(v, pre_h):
    maps = {n: x for n, x in pre_h.items() if isinstance(x, MapV)}
    if not maps: return v
    memo = {}
    def go(t):
        if t in memo: return memo[t]
        if not any(a.op == 'app' and a.args[0][:3] == 'mh:' and a.args[0][3:] in maps for a in atoms_of(t)): r = t
        elif t.op == 'app' and t.args[0][:3] == 'mh:' and t.args[0][3:] in maps:
            m = maps[t.args[0][3:]]; r = subst(m.dom, {m.var: go(t.args[1])})
        else: r = rebuild(t, go)
        memo[t] = r; return r
    return go(v) if isinstance(v, T) else vmap(v, go)
def fill_all(v, pre_h):
    segs = {n: x for n, x in pre_h.items() if not isinstance(x, V)}
    maps = {n: x for n, x in pre_h.items() if isinstance(x, V)}
    v = fill(v, segs)
    if maps:
        def go(v):
            if isinstance(v, Obj):
                if v.kind == 'maphole' and v.d['name'] in maps: return maps[v.d['name']]
                return Obj(v.kind, **{k: go(x) if isinstance(x, V) else x for k, x in v.d.items()})
            if isinstance(v, Adt): return Adt(v.path, v.vi, v.vn, [go(x) for x in v.fs])
            if isinstance(v, Tup): return Tup([go(x) for x in v.fs])
            if isinstance(v, IteV): return IteV(v.c, go(v.a), go(v.b))
            if isinstance(v, Closure): return Closure(v.name, [go(x) for x in v.caps], v.parent)
            return v
        v = go(v)
    return v

_sk = {}
def skolem(t, names, k):
    ns = names if isinstance(names, frozenset) else frozenset(names)
    if not ns: return t
    key = (t, ns, k)
    r = _sk.get(key)
    if r is not None: return r
    def go(x):
        if x.op in ('sym', 'app') and x.args and x.args[0] in ns:
            a = tuple(go2(y) for y in x.args[1:])
            return app(x.args[0], a + (k,), x.sort)
        if not x.args or x.op in ('num', 'str', 'var', 'sym'): return x
        if not any(a.args[0] in ns for a in atoms_of(x)): return x
        return rebuild(x, go)
    def go2(y): return go(y) if isinstance(y, T) else (tuple(go2(z) for z in y) if isinstance(y, tuple) else y)
    r = go(t); _sk[key] = r
    return r
def skolem_val(v, names, k):
    if not names: return v
    ns = frozenset(names)
    return vmap(v, lambda t: skolem(t, ns, k))

terms_fresh = itertools.count(1)
def show_short(c):
    r = repr(c); return r if len(r) < 160 else r[:157] + '...'

def unescape(x):
    def f(m):
        g = m.group(0)
        if g[1] == 'n': return '\n'
        if g[1] == 't': return '\t'
        if g[1] == 'r': return '\r'
        if g[1] == '0': return '\0'
        if g[1] == 'x': return chr(int(g[2:4], 16))
        if g[1] == 'u': return chr(int(g[3:-1], 16))
        return g[1]
    return re.sub(r'\\(x[0-9a-fA-F]{2}|u\{[0-9a-fA-F]+\}|.)', f, x, flags=re.S)
def unescape_bytes(x): return [ord(c) & 255 for c in unescape(x)]

# ---- field access by name (used by contracts)
def distinguishing(ds):
    """guards that tell the (mutually exclusive) branches apart: a condition one branch has and another branch's negation of it"""
    cs = [set(conj(d)) for d in ds]
    if len(ds) < 2 or any(TRUE in c for c in cs): return ds
    neg = [{not_(x) for x in c} for c in cs]
    keep = [set() for _ in ds]
    for i in range(len(ds)):
        for j in range(len(ds)):
            if i == j: continue
            t = cs[i] & neg[j]
            if not t: return ds
            keep[i] |= t
    return [and_(*[c for c in conj(d) if c in k]) for d, k in zip(ds, keep)]
def merge_vals(vs, ds):
    # equal values first, so that a value shared by several branches appears once
    gs = []
    for v, d in zip(vs, ds):
        for g in gs:
            if g[0] is v or same(g[0], v): g[1].append(d); break
        else: gs.append([v, [d]])
    if len(gs) > 1 and len(gs) < len(vs): gs.sort(key=lambda g: -len(g[1]))
    else: gs.reverse()
    v = gs[0][0]
    for w, d in gs[1:]: v = ite_val(or_(*d), w, v)
    return v
def _tdef(s, path):
    for c, tt in s.prog.tt.items():
        d = tt.defs.get(path)
        if d: return c, tt, d
    n = path.split('::')[-1]
    for c, tt in s.prog.tt.items():
        ds = tt.byname.get(n, [])
        if ds: return c, tt, ds[0]
    return None
def _fieldnames(s, a):
    r = _tdef(s, a.path)
    if not r: return None
    vs = r[2].variants
    if a.vi >= len(vs): return None
    fs = [f for f, _ in vs[a.vi][1]]
    return fs if len(fs) == len(a.fs) else None
def _getf(s, st, v, path):
    for p in path.split('.'):
        v = s.deref(st, v)
        if isinstance(v, IteV):
            v2 = s.pick(st, v)
            if isinstance(v2, IteV):
                v = ite_val(v2.c, _getf(s, st, v2.a, p), _getf(s, st, v2.b, p)); continue
            v = v2
        if p.isdigit(): v = v.fs[int(p)]; continue
        if isinstance(v, Obj): v = v.d[p]; continue
        nm = _fieldnames(s, v)
        if not nm or p not in nm: raise Unsupported('no field %s in %s' % (p, repr(v)[:80]))
        v = v.fs[nm.index(p)]
    return v
def _mkadt(s, crate, name, kw):
    tt = s.prog.tt[crate]
    full = [d for d in tt.defs.values() if d.path == name]
    ds = full or tt.byname.get(name.split('::')[0], [])
    if full: name = full[0].name
    if '::' in name and not ds: raise Unsupported('type %s' % name)
    if not ds: raise Unsupported('type %s' % name)
    d = ds[0]
    vn = name.split('::')[1] if '::' in name else None
    for vi, (n, fs) in enumerate(d.variants):
        if vn is not None and n != vn: continue
        names = [f for f, _ in fs]
        kk = {k.lstrip('_') if k[0] == '_' else k: v for k, v in kw.items()}
        if set(names) != set(kk): raise Unsupported('fields of %s are %s' % (name, names))
        return Adt(d.path, vi, n, [kk[f] for f in names])
    raise Unsupported('variant %s' % name)
Executor.fieldnames = _fieldnames; Executor.getf = _getf; Executor.mkadt = _mkadt
