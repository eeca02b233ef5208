"""Models for bulletproofs_amcl: amcl_wrapper (models_amcl) and the merlin transcript as the list of what was fed to it."""
from models_amcl import *
import models_amcl
R1 = {}
def tr(t):
    """the transcript as an object holding the list of what was fed to it"""
    return t if 'data' in t.d else Obj('transcript', data=Seq([One(app('tr.start', (t.d.get('term', sstr('t')),), 'S'))]))
def _msg(ex, fr, st, c, a):
    t = tr(D(ex, st, a[0]))
    for s2, w in cases(ex, st, D(ex, st, a[2])):
        setref(ex, s2, a[0], t.with_(data=ex.seq_concat([t.data, Seq([One(app('tr.msg', (valterm(D(ex, s2, a[1])), valterm(w)), 'S'))])])))
    return UNITV
R1['Transcript::append_message'] = _msg
def _u64(ex, fr, st, c, a):
    t = tr(D(ex, st, a[0])); setref(ex, st, a[0], t.with_(data=ex.seq_concat([t.data, Seq([One(app('tr.u64', (valterm(D(ex, st, a[1])), D(ex, st, a[2])), 'S'))])]))); return UNITV
R1['Transcript::append_u64'] = _u64
def _chal(ex, fr, st, c, a):
    t = tr(D(ex, st, a[0])); lb = valterm(D(ex, st, a[1])); h = valterm(t.data); n = ex.seq_len(D(ex, st, a[2])); k = fresh_var('I', 'k')
    setref(ex, st, a[2], Seq([Comp(k, and_(le(ZERO, k), lt(k, n)), [One(app('tr.bytes:u8', (h, lb, k), 'I'))])]))
    setref(ex, st, a[0], t.with_(data=ex.seq_concat([t.data, Seq([One(app('tr.chal', (lb,), 'S'))])]))); return UNITV
R1['Transcript::challenge_bytes'] = _chal
R1['Transcript::new'] = lambda ex, fr, st, c, a: Obj('transcript', data=Seq([One(app('tr.new', (valterm(D(ex, st, a[0])),), 'S'))]))
def fe_bytes(w):
    """the field element of a byte string"""
    if len(w.segs) == 1 and isinstance(w.segs[0], Comp) and len(w.segs[0].body) == 1 and isinstance(w.segs[0].body[0], One):
        x = w.segs[0].body[0].v
        if isinstance(x, T) and x.op == 'app' and x.args[0] == 'tr.bytes:u8' and x.args[3] is w.segs[0].var: return fapp('rnd.nz.chal', (x.args[1], x.args[2]))
    return fapp('fe.from', (valterm(w),))
R1['FieldElement::From::from'] = lambda ex, fr, st, c, a: D(ex, st, a[0]) if c.trait_args and tystr(c.trait_args[0]).endswith('FieldElement') else fe_bytes(D(ex, st, a[0])) if isinstance(D(ex, st, a[0]), Seq) else int_to_ring(D(ex, st, a[0]))
R1['commitment::commit_to_field_element'] = lambda ex, fr, st, c, a: radd(rmul(F(ex, st, a[0]), F(ex, st, a[2])), rmul(F(ex, st, a[1]), F(ex, st, a[3])))
def le_int(ex, fr, st, c, a):
    """little-endian bytes of a fixed width integer"""
    x = D(ex, st, a[0]); n = {'u8': 1, 'u16': 2, 'u32': 4, 'u64': 8, 'usize': 8}[c.key.split('::')[0]]
    if x.op == 'num': return Seq([One(num((x.args[0] >> (8 * i)) & 255)) for i in range(n)])
    k = fresh_var('I', 'k')
    return Seq([Comp(k, and_(le(ZERO, k), lt(k, num(n))), [One(app('le.byte:u8', (x, k), 'I'))])])
def cnum(f):
    """a function of concrete machine integers"""
    def g(ex, fr, st, c, a):
        xs = [D(ex, st, x) for x in a]
        if any(x.op != 'num' for x in xs): return app(c.key.replace('::', '.'), tuple(xs), 'I')
        return num(f(*(x.args[0] for x in xs)))
    return g
for _t, _w in (('u8', 8), ('u16', 16), ('u32', 32), ('u64', 64), ('usize', 64)):
    R1[_t + '::to_le_bytes'] = le_int
    R1[_t + '::trailing_zeros'] = cnum(lambda x, w=_w: w if x == 0 else (x & -x).bit_length() - 1)
    R1[_t + '::leading_zeros'] = cnum(lambda x, w=_w: w - x.bit_length())
    R1[_t + '::max_value'] = lambda ex, fr, st, c, a, w=_w: num((1 << w) - 1)
    R1[_t + '::count_ones'] = cnum(lambda x: bin(x).count('1'))
    R1[_t + '::next_power_of_two'] = cnum(lambda x: 1 if x <= 1 else 1 << (x - 1).bit_length())
def ones(ex, st, v):
    """the elements of a sequence of known length"""
    v = D(ex, st, v)
    if not all(isinstance(g, One) for g in v.segs): raise Unsupported('sequence of unknown length %s' % repr(v)[:60])
    return [g.v for g in v.segs]
def _binv(ex, fr, st, c, a):
    """the inverses of all elements and their product (panics on an empty slice; a zero has no inverse: its result is not specified)"""
    xs = [F(ex, st, x) for x in ones(ex, st, a[0])]
    if not xs: return ('panic', 'batch_invert of nothing')
    p = rnum(1)
    for x in xs: p = rmul(p, rinv(x))
    return Tup([Seq([One(rinv(x)) for x in xs]), p])
R1['FieldElement::batch_invert'] = _binv
def _cvec(ex, fr, st, c, a):
    """commit to two vectors: all generators against all elements, in order"""
    g = ex.seq_concat([D(ex, st, a[0]), D(ex, st, a[1]), Seq([One(D(ex, st, a[2]))])]); x = ex.seq_concat([D(ex, st, a[3]), D(ex, st, a[4]), Seq([One(D(ex, st, a[5]))])])
    return models_amcl.vdot(ex, st, g, x)
R1['commitment::commit_to_field_element_vectors'] = _cvec
R1['G1::binary_scalar_mul'] = lambda ex, fr, st, c, a: radd(rmul(F(ex, st, a[0]), F(ex, st, a[2])), rmul(F(ex, st, a[1]), F(ex, st, a[3])))
R1['iter::once'] = lambda ex, fr, st, c, a: IterV([One(a[0])])
def _into(ex, fr, st, c, a):
    to = ex.subty(fr, c.trait_args[0]) if c.trait_args else None
    if to is not None and to.k == 'path' and to.name.endswith('LinearCombination'): return models.STD['Into::into'](ex, fr, st, c, a)
    return models_amcl.AM['Into::into'](ex, fr, st, c, a)
R1['Into::into'] = _into
# HashMap<Variable, FieldElement>: a list of pairs (the iteration order of a HashMap is not specified; the list keeps the order of insertion)
def _entry(ex, fr, st, c, a):
    r = a[0]; m = D(ex, st, r); k = D(ex, st, a[1]); out = []
    if isinstance(m, MapV):
        if m.dom is not FALSE: raise Unsupported('entry of a map')
        m = Seq([])
    if not isinstance(m, Seq): raise Unsupported('entry of %s' % repr(m)[:60])
    kk = [D(ex, st, p.fs[0]) for p in ones(ex, st, m)]
    def go(s, n):
        if n == len(kk):
            setref(ex, s, r, Seq(list(m.segs) + [One(Tup([k, R0]))])); out.append((s, Obj('ventry', n=n, new=True, ref=r))); return
        for s2, b in ex.branch(s, models.val_eq(ex, s, kk[n], k)):
            if b: setref(ex, s2, r, m); out.append((s2, Obj('ventry', n=n, new=False, ref=r)))
            else: go(s2, n + 1)
    go(st, 0); return out
R1['HashMap::entry'] = _entry
def _orins(ex, fr, st, c, a):
    e = a[0]
    if not (isinstance(e, Obj) and e.kind == 'ventry'): raise Unsupported('or_insert of %s' % repr(e)[:60])
    r = e.d['ref']; p = MRef(r.fid, r.local, list(r.projs) + [('at', num(e.d['n'])), ('f', 1)])
    if e.d['new']: setref(ex, st, p, a[1])
    return p
R1['Entry::or_insert'] = _orins
def _repeat(ex, fr, st, c, a):
    k = fresh_var('I', 'k'); return IterV([Comp(k, le(ZERO, k), [One(a[0])])])
R1['iter::repeat'] = _repeat
def _collect(ex, fr, st, c, a):
    ty = [g for g in c.gens if g is not None][-1] if c.method == 'collect' and c.gens else None
    ty = ex.subty(fr, ex.alias(ty)) if ty is not None else None
    if ty is not None and ty.name.split('::')[-1] == 'LinearCombination':
        info = ex.prog.get('LinearCombination as FromIterator::from_iter', 'bulletproofs_amcl', 0); ex.inlined.add(info.ident)
        it = models.it_arg(ex, st, a[0])
        return ex.run_fn(info.fn, [it], st, {'T': parse_ty('Vec<X>')}, 1, 'bulletproofs_amcl')
    return models.STD['Iterator::collect'](ex, fr, st, c, a)
R1['Iterator::collect'] = _collect
def _cint(x):
    """the integer of a constant field element, None if it is not one"""
    k = rconst(x)
    return int(k) if k is not None and k == int(k) and k >= 0 else None
def _shr(ex, fr, st, c, a):
    x, k = F(ex, st, a[0]), D(ex, st, a[1]); n = _cint(x)
    return rnum(n >> k.args[0]) if n is not None and k.op == 'num' else fapp('fe.shr', (x, k))
R1['FieldElement::shift_right'] = _shr
def _odd(want):
    def f(ex, fr, st, c, a):
        n = _cint(F(ex, st, a[0])); o = app('fe.odd', (F(ex, st, a[0]),), 'B')
        if n is not None: return TRUE if n % 2 == want else FALSE
        return o if want else not_(o)
    return f
R1['FieldElement::is_odd'] = _odd(1); R1['FieldElement::is_even'] = _odd(0)
class R1CSModels(AmclModels):
    unroll = 64
    def __init__(s):
        super().__init__(); s.tables = s.tables + [R1]
