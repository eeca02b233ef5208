"""Models of pairing_plus / ff / blake2 as used by the bbs crate (trusted base).
Groups of prime order are represented by discrete logarithms: G1, G2, GT and Fr values are elements of one
field F; group addition is +, scalar multiplication and the pairing are *, the identity is 0."""
from models import *
import models, execu, terms
BBS = {}
def bm(*keys):
    def d(f):
        for k in keys: BBS[k] = f
        return f
    return d
RINGS = ('Fr', 'G1', 'G2', 'G1Affine', 'G2Affine', 'Fq12', 'G1Prepared', 'G2Prepared', 'Fq', 'Fq2')
def F(ex, st, v):
    v = D(ex, st, v)
    if isinstance(v, T) and v.sort == 'F': return v
    if isinstance(v, Adt) and len(v.fs) == 1: return F(ex, st, v.fs[0])
    raise Unsupported('ring value expected, got %s' % repr(v)[:80])
def binset(f):
    def g(ex, fr, st, c, a):
        setref(ex, st, a[0], f(F(ex, st, a[0]), F(ex, st, a[1]))); return UNITV
    return g
for t in ('CurveProjective', 'Field'):
    BBS[t + '::add_assign'] = binset(radd); BBS[t + '::sub_assign'] = binset(rsub); BBS[t + '::mul_assign'] = binset(rmul)
    BBS[t + '::zero'] = lambda ex, fr, st, c, a: R0
    BBS[t + '::is_zero'] = lambda ex, fr, st, c, a: feq0(F(ex, st, a[0]))
    def _rand(ex, fr, st, c, a): return ex.fresh('rnd', 'F')
    BBS[t + '::random'] = _rand
    def _neg(ex, fr, st, c, a): setref(ex, st, a[0], rneg(F(ex, st, a[0]))); return UNITV
    BBS[t + '::negate'] = _neg
    def _dbl(ex, fr, st, c, a): setref(ex, st, a[0], rmul(rnum(2), F(ex, st, a[0]))); return UNITV
    BBS[t + '::double'] = _dbl
BBS['CurveProjective::add_assign_mixed'] = binset(radd)
@bm('Field::square')
def _(ex, fr, st, c, a): x = F(ex, st, a[0]); setref(ex, st, a[0], rmul(x, x)); return UNITV
@bm('CurveProjective::into_affine', 'CurveAffine::into_projective', 'CurveAffine::prepare', 'From::from', 'Into::into')
def _(ex, fr, st, c, a):
    if c.trait in ('From', 'Into'):
        v = D(ex, st, a[0])
        if isinstance(v, T) and v.sort == 'F': return v
        if c.trait == 'From' and tyname(c.self_ty) == 'FrRepr':
            if isinstance(v, T) and v.sort == 'I': return Obj('repr', val=int_to_ring(v))
        return models.STD['Into::into'](ex, fr, st, c, a)
    return F(ex, st, a[0])
def int_to_ring(v):
    c, d = lin(v)
    r = rnum(c)
    for a, k in d.items(): r = radd(r, rmul(rnum(k), a.args[1] if a.op == 'app' and a.args[0] == 'bn.int' else fromatom(app('i2f', (a,), 'F'))))
    return r
terms.HOOKS['i2f'] = int_to_ring
@bm('CurveProjective::one', 'CurveAffine::one')
def _(ex, fr, st, c, a):
    n = tyname(c.self_ty)
    return fsym('gen1') if n.startswith('G1') else fsym('gen2')
@bm('CurveAffine::zero')
def _(ex, fr, st, c, a): return R0
@bm('CurveAffine::is_zero')
def _(ex, fr, st, c, a): return feq0(F(ex, st, a[0]))
@bm('CurveAffine::negate')
def _(ex, fr, st, c, a): setref(ex, st, a[0], rneg(F(ex, st, a[0]))); return UNITV
@bm('CurveAffine::mul')
def _(ex, fr, st, c, a): return rmul(F(ex, st, a[0]), F(ex, st, a[1]))
@bm('Field::one')
def _(ex, fr, st, c, a): return R0 if tyname(c.self_ty) == 'Fq12' else rnum(1)
@bm('Field::inverse')
def _(ex, fr, st, c, a):
    x = F(ex, st, a[0]); out = []
    for s2, b in ex.branch(st, feq0(x)): out.append((s2, none() if b else some(rinv(x))))
    return out
@bm('PrimeField::into_repr')
def _(ex, fr, st, c, a): return Obj('repr', val=F(ex, st, a[0]))
@bm('PrimeField::from_repr')
def _(ex, fr, st, c, a):
    v = D(ex, st, a[0])
    if isinstance(v, Obj) and v.kind == 'repr': return ok(v.val)
    raise Unsupported('from_repr')
@bm('AsRef::as_ref')
def _(ex, fr, st, c, a):
    return a[0]
def limbs_value(ex, st, v):
    v = D(ex, st, v)
    if isinstance(v, Obj) and v.kind == 'repr': return v.val
    raise Unsupported('scalar limbs %s' % repr(v)[:80])
@bm('CurveAffine::sum_of_products')
def _(ex, fr, st, c, a):
    b = D(ex, st, a[0]); s = D(ex, st, a[1])
    out = []
    for s2, b2 in cases(ex, st, b):
        for s3, sc in cases(ex, s2, s):
            out.append((s3, pairs_sum(ex, s3, b2, sc)))
    return out
def pairs_sum(ex, st, b, sc):
    tot = R0
    for g in models.zip_segs(ex, st, list(b.segs), list(sc.segs)): tot = radd(tot, seg_dot(ex, st, g))
    return tot
def seg_dot(ex, st, g):
    if isinstance(g, One): return rmul(F(ex, st, g.v.fs[0]), limbs_value(ex, st, g.v.fs[1]))
    t = R0
    for x in g.body: t = radd(t, seg_dot(ex, st, x))
    if isinstance(g, Guard): return rmul(ind(g.cond), t)
    return rsum(g.var, g.cond, t)
@bm('Engine::miller_loop')
def _(ex, fr, st, c, a):
    it = models.to_iter(ex, st, a[0]); t = R0
    def dot(g):
        if isinstance(g, One):
            p = D(ex, st, g.v); return rmul(F(ex, st, p.fs[0]), F(ex, st, p.fs[1]))
        r = R0
        for x in g.body: r = radd(r, dot(x))
        return rmul(ind(g.cond), r) if isinstance(g, Guard) else rsum(g.var, g.cond, r)
    for g in it.segs: t = radd(t, dot(g))
    return t
@bm('Engine::final_exponentiation')
def _(ex, fr, st, c, a): return some(F(ex, st, a[0]))
@bm('Engine::pairing')
def _(ex, fr, st, c, a): return rmul(F(ex, st, a[0]), F(ex, st, a[1]))
# ---- encodings
SIZES = {('Fr', True): 32, ('Fr', False): 32, ('G1', True): 48, ('G1', False): 96, ('G2', True): 96, ('G2', False): 192,
         ('G1Affine', True): 48, ('G1Affine', False): 96, ('G2Affine', True): 96, ('G2Affine', False): 192}
def chunk(ty, comp, x):
    ty = ty.replace('Affine', ''); n = SIZES[(ty, comp)]
    tag = 'enc.%s.%s:u8' % (ty, 'c' if comp or ty == 'Fr' else 'u')
    k = fresh_var('I', 'k')
    return Comp(k, and_(le(ZERO, k), lt(k, num(n))), [One(app(tag, (x, k), 'I'))])
def decode(ex, st, ty, comp, w):
    """w: Seq of exactly the right length -> value (Result)"""
    ty = ty.replace('Affine', ''); n = SIZES[(ty, comp)]
    tag = 'enc.%s.%s:u8' % (ty, 'c' if comp or ty == 'Fr' else 'u')
    return dec_chunk(ex, st, tag, n, w, 'F')
def write_bytes(ex, st, c, ref, chunk_segs):
    """append to a Vec writer / fill a &mut [u8] writer"""
    if re.search(r'&mut \[u8\]', c.raw) :
        # writer is &mut &mut [u8]
        outer = ex.read(st, (ref.fid, ref.local), ref.projs)
        tgt = outer if isinstance(outer, MRef) else ref
        v = D(ex, st, tgt); n = ex.segs_len(chunk_segs); l = ex.seq_len(v); out = []
        for s2, b in ex.branch(st, le(n, l)):
            if not b: out.append((s2, False)); continue
            rest = ex.seq_slice(s2, v, n, l)
            setref(ex, s2, tgt, ex.seq_concat([Seq(chunk_segs), rest]))
            if tgt is not ref: ex.write(s2, (ref.fid, ref.local), ref.projs, MRef(tgt.fid, tgt.local, list(tgt.projs) + [('range', n, l)]))
            out.append((s2, True))
        return out
    v = D(ex, st, ref)
    setref(ex, st, ref, ex.seq_concat([v, Seq(chunk_segs)])); return [(st, True)]
@bm('SerDes::serialize')
def _(ex, fr, st, c, a):
    x = F(ex, st, a[0]); comp = D(ex, st, a[2]); ty = tyname(c.self_ty); out = []
    if ty == 'Fr': comp = TRUE
    for s2, b in ex.branch(st, comp):
        for s3, okk in write_bytes(ex, s2, c, a[1], [chunk(ty, b, x)]): out.append((s3, ok(UNITV) if okk else err(ERRV)))
    return out
@bm('SerDes::deserialize')
def _(ex, fr, st, c, a):
    comp = D(ex, st, a[1]); ty = tyname(c.self_ty); out = []
    if ty == 'Fr': comp = TRUE
    for s2, b in ex.branch(st, comp):
        for s3, w in reader_take(ex, s2, a[0], num(SIZES[(ty, b)])):
            if w is None: out.append((s3, err(ERRV))); continue
            out += cases(ex, s3, decode(ex, s3, ty, b, w))
    return out
@bm('CurveAffine::into_uncompressed', 'CurveAffine::into_compressed')
def _(ex, fr, st, c, a):
    x = F(ex, st, a[0]); return Seq([chunk(tyname(c.self_ty), c.method == 'into_compressed', x)])
# ---- hashing
@bm('VariableOutput::new')
def _(ex, fr, st, c, a): return ok(Obj('hasher', kind_=sstr('VarBlake2b'), n=D(ex, st, a[0]), data=Seq([])))
@bm('Input::input', 'Digest::input', 'Update::update')
def _(ex, fr, st, c, a):
    h = D(ex, st, a[0]); w = D(ex, st, a[1])
    out = []
    for s2, w2 in cases(ex, st, w):
        setref(ex, s2, a[0], h.with_(data=ex.seq_concat([h.data, w2]))); out.append((s2, UNITV))
    return out
def digest(kind, n, data):
    k = fresh_var('I', 'k')
    return Seq([Comp(k, and_(le(ZERO, k), lt(k, n)), [One(app('digest:u8', (kind, n, valterm(data), k), 'I'))])])
@bm('VariableOutput::variable_result')
def _(ex, fr, st, c, a):
    h = D(ex, st, a[0]); d = digest(h.kind_, h.n, h.data)
    return ex.call_value(fr, st, a[1], [d])
@bm('GenericArray::default', 'Default::default')
def _(ex, fr, st, c, a):
    if c.self_ty is not None and tyname(c.self_ty) == 'GenericArray':
        n = 48 if 'U48' in c.raw or 'okm' in c.raw else None
        return Obj('garr')
    return models.STD['Default::default'](ex, fr, st, c, a)
@bm('@garr::copy_from_slice', '@garr::clone_from_slice')
def _(ex, fr, st, c, a): setref(ex, st, a[0], D(ex, st, a[1])); return UNITV
@bm('GenericArray::from_slice', 'GenericArray::clone_from_slice', 'GenericArray::as_slice')
def _(ex, fr, st, c, a): return a[0]
@bm('BaseFromRO::from_okm')
def _(ex, fr, st, c, a):
    v = D(ex, st, a[0])
    return fapp('okm', (valterm(v),))
@bm('HashToCurve::hash_to_curve')
def _(ex, fr, st, c, a):
    return fapp('h2c.' + tyname(c.self_ty), (valterm(D(ex, st, a[0])), valterm(D(ex, st, a[1]))))
@bm('Hkdf::new')
def _(ex, fr, st, c, a):
    return Obj('hkdf', salt=D(ex, st, a[0]), ikm=D(ex, st, a[1]))
@bm('Hkdf::expand')
def _(ex, fr, st, c, a):
    h = D(ex, st, a[0]); info = D(ex, st, a[1]); v = D(ex, st, a[2]); n = Obj('garr')
    k = fresh_var('I', 'k'); N = num(48) if isinstance(v, Obj) else ex.seq_len(v)
    setref(ex, st, a[2], Seq([Comp(k, and_(le(ZERO, k), lt(k, N)), [One(app('hkdf:u8', (valterm(h), valterm(info), k), 'I'))])]))
    return ok(UNITV)
@bm('slice::as_ptr', 'const_ptr::cast', 'ptr::cast')
def _(ex, fr, st, c, a): return a[0]

class BBSModels(Models):
    RING = set(RINGS)
    externals = Models.externals | {'pairing_plus', 'ff_zeroize', 'ff', 'blake2', 'hkdf', 'rand'}
    def __init__(s):
        super().__init__(); s.tables = [STD, BBS]
        s.types['GenericArray'] = lambda ex, t, name, args: Obj('opaque', ty='GenericArray', term=app(name, args, 'X'))
    def len_(s, ex, v):
        if isinstance(v, Obj) and v.kind == 'repr': return num(4)
        if isinstance(v, Obj) and v.kind == 'garr': return num(48)
        return super().len_(ex, v)
    def index(s, ex, st, v, i):
        if isinstance(v, Obj) and v.kind == 'repr': return app('limb:u64', (v.val, i), 'I')
        return super().index(ex, st, v, i)
