"""Models of amcl_wrapper (BLS12-381) as used by libzmix and bulletproofs_amcl (trusted base).
Groups of prime order are represented by discrete logarithms: G1, G2, GT and FieldElement values are elements of one
field F; group addition (multiplication in GT) is +, scalar multiplication and the pairing are *, identity/one is 0."""
from models import *
import models, execu
from models_bbs import F, int_to_ring
AM = {}
def am(*keys):
    def d(f):
        for k in keys: AM[k] = f
        return f
    return d
VECS = ('FieldElementVector', 'G1Vector', 'G2Vector', 'GroupElementVector')
S = models.STD
for t in VECS:
    for m in ('push', 'append', 'pop', 'insert', 'remove', 'len'): AM['%s::%s' % (t, m)] = S['Vec::' + m]
    AM[t + '::as_slice'] = AM[t + '::as_mut_slice'] = lambda ex, fr, st, c, a: a[0]
    AM[t + '::with_capacity'] = lambda ex, fr, st, c, a: Seq([])
    AM[t + '::iter'] = S['Vec::iter']
    AM[t + '::split_at'] = S['slice::split_at']
def comp(n, body):
    """list of n elements body(k)"""
    k = fresh_var('I', 'k')
    return Seq([Comp(k, and_(le(ZERO, k), lt(k, n)), [One(body(k))])])
@am('FieldElementVector::new', 'GroupElementVector::new', 'G1Vector::new', 'G2Vector::new')
def _(ex, fr, st, c, a):
    n = D(ex, st, a[0])
    return Seq([]) if n is ZERO else comp(n, lambda k: R0)
@am('FieldElementVector::random', 'GroupElementVector::random')
def _(ex, fr, st, c, a):
    n = D(ex, st, a[0]); nm = 'rnd.nz.v!%d' % next(execu.terms_fresh); ex.fresh_names.append(nm)
    return comp(n, lambda k: fapp(nm, (k,)))
@am('FieldElementVector::new_vandermonde_vector')
def _(ex, fr, st, c, a):
    e = F(ex, st, a[0]); n = D(ex, st, a[1]); out = []
    for s2, z in ex.branch(st, feq0(e)):
        if z: out.append((s2, comp(n, lambda k: ind(eq(k, num(-1))))))
        else: out.append((s2, comp(n, lambda k: rpow(e, k))))
    return out
# ---- scalars and points
T_ = ('FieldElement', 'GroupElement', 'G1', 'G2', 'GT')
def b2(f): return lambda ex, fr, st, c, a: f(F(ex, st, a[0]), F(ex, st, a[1]))
def u1(f): return lambda ex, fr, st, c, a: f(F(ex, st, a[0]))
def set2(f):
    def g(ex, fr, st, c, a): setref(ex, st, a[0], f(F(ex, st, a[0]), F(ex, st, a[1]))); return UNITV
    return g
def set1(f):
    def g(ex, fr, st, c, a): setref(ex, st, a[0], f(F(ex, st, a[0]))); return UNITV
    return g
for t in T_:
    AM[t + '::plus'] = b2(radd); AM[t + '::minus'] = b2(rsub); AM[t + '::multiply'] = b2(rmul)
    AM[t + '::add_assign_'] = set2(radd); AM[t + '::sub_assign_'] = set2(rsub)
    AM[t + '::negation'] = u1(rneg); AM[t + '::negate'] = set1(rneg); AM[t + '::double'] = u1(lambda x: rmul(rnum(2), x)); AM[t + '::double_mut'] = set1(lambda x: rmul(rnum(2), x))
    AM[t + '::scalar_mul_const_time'] = AM[t + '::scalar_mul_variable_time'] = b2(rmul)
    AM[t + '::is_identity'] = AM[t + '::is_zero'] = u1(feq0)
    AM[t + '::identity'] = AM[t + '::zero'] = AM[t + '::new'] = lambda ex, fr, st, c, a: R0
    AM[t + '::set_to_identity'] = lambda ex, fr, st, c, a: (setref(ex, st, a[0], R0), UNITV)[1]
    AM[t + '::to_bignum'] = AM[t + '::to_ecp'] = u1(lambda x: x)
    AM[t + '::has_correct_order'] = lambda ex, fr, st, c, a: TRUE
for t in T_:
    AM[t + '::random'] = AM[t + '::random_using_rng'] = lambda ex, fr, st, c, a: ex.fresh('rnd.nz', 'F')
AM['FieldElement::square'] = u1(lambda x: rmul(x, x))
AM['FieldElement::one'] = lambda ex, fr, st, c, a: rnum(1)
AM['FieldElement::minus_one'] = lambda ex, fr, st, c, a: rnum(-1)
AM['FieldElement::is_one'] = u1(lambda x: feq0(rsub(x, rnum(1))))
AM['FieldElement::normalize'] = lambda ex, fr, st, c, a: UNITV
def _inv(ex, fr, st, c, a):
    x = F(ex, st, a[0]); out = []
    for s2, z in ex.branch(st, feq0(x)):
        v = R0 if z else rinv(x)
        if c.method.endswith('_mut'): setref(ex, s2, a[0], v); v = UNITV
        out.append((s2, v))
    return out
AM['FieldElement::inverse'] = AM['FieldElement::inverse_mut'] = _inv
AM['GroupElement::generator'] = lambda ex, fr, st, c, a: fsym('gen1' if tyname(strip_refs(ex.subty(fr, c.self_ty))).startswith('G1') else 'gen2')
def _hash(ex, fr, st, c, a):
    n = tyname(strip_refs(ex.subty(fr, c.self_ty))) if c.self_ty is not None else c.key.split('::')[0]
    return fapp('hash.' + n, (valterm(D(ex, st, a[0])),))
AM['FieldElement::from_msg_hash'] = AM['GroupElement::from_msg_hash'] = _hash
# ---- GT (multiplicative, represented by logarithms)
AM['GT::is_one'] = u1(feq0); AM['GT::one'] = lambda ex, fr, st, c, a: R0
AM['GT::inverse'] = u1(rneg); AM['GT::inverse_mut'] = set1(rneg); AM['GT::pow'] = b2(rmul); AM['GT::product'] = b2(radd)
AM['GT::ate_pairing'] = b2(rmul)
AM['GT::mul'] = AM['GT::Mul::mul'] = b2(radd); AM['GT::Div::div'] = b2(rsub); AM['GT::MulAssign::mul_assign'] = set2(radd)
AM['GT::neg'] = u1(rneg)
@am('GT::ate_2_pairing')
def _(ex, fr, st, c, a):
    x = [F(ex, st, v) for v in a]; return radd(rmul(x[0], x[1]), rmul(x[2], x[3]))
@am('GT::ate_multi_pairing')
def _(ex, fr, st, c, a):
    v = D(ex, st, a[0]); tot = R0
    def dot(g):
        if isinstance(g, One):
            p = D(ex, st, g.v); return rmul(F(ex, st, p.fs[0]), F(ex, st, p.fs[1]))
        r = R0
        for x in g.body: r = radd(r, dot(x))
        return rmul(ind(g.cond), r) if isinstance(g, Guard) else rsum(g.var, g.cond, r)
    for g in v.segs: tot = radd(tot, dot(g))
    return tot
# ---- operators on scalars and points
def _iop(o):
    def f(ex, st, x, y):
        if not (isinstance(x, T) and isinstance(y, T) and x.sort == y.sort == 'I'): raise Unsupported('operator on %r' % (x,))
        return o(ex, st, x, y)
    return f
IOP = {'Add::add': _iop(lambda ex, st, x, y: iadd(x, y)), 'Mul::mul': _iop(lambda ex, st, x, y: imul(x, y)), 'Sub::sub': _iop(lambda ex, st, x, y: ex.branch_sub(st, x, y) if hasattr(ex, 'branch_sub') else isub(x, y))}
for op, f in (('Add::add', radd), ('Sub::sub', rsub), ('Mul::mul', rmul)):
    AM[op] = (lambda f, old, io: lambda ex, fr, st, c, a: f(F(ex, st, a[0]), F(ex, st, a[1])) if isring(ex, st, a[0]) else old(ex, fr, st, c, a) if old else io(ex, st, D(ex, st, a[0]), D(ex, st, a[1])))(f, S.get(op), IOP[op])
for op, f in (('AddAssign::add_assign', radd), ('SubAssign::sub_assign', rsub), ('MulAssign::mul_assign', rmul)): 
    AM[op] = (lambda f, old: lambda ex, fr, st, c, a: set2(f)(ex, fr, st, c, a) if isring(ex, st, a[0]) else old(ex, fr, st, c, a))(f, S.get(op))
AM['Neg::neg'] = lambda ex, fr, st, c, a: rneg(F(ex, st, a[0]))
def isring(ex, st, v):
    v = D(ex, st, v); return isinstance(v, T) and v.sort == 'F'
# ---- windowed NAF multiplication: a table stands for its base, a wNAF for its scalar
AM['FieldElement::to_wnaf'] = u1(lambda x: x)
for t in ('G1LookupTable', 'G2LookupTable'): AM[t + '::From::from'] = u1(lambda x: x)
AM['G1::wnaf_mul'] = AM['G2::wnaf_mul'] = b2(rmul)
# ---- vectors
def vdot(ex, st, x, y):
    """-> [(state, Result)]: inner product, an error when the lengths differ"""
    xs, ys = models.to_iter(ex, st, x), models.to_iter(ex, st, y); out = []
    xs, ys = Seq(xs.segs), Seq(ys.segs)
    for s2, b in ex.branch(st, eq(ex.seq_len(xs), ex.seq_len(ys))):
        if not b: out.append((s2, err(ERRV))); continue
        t = R0
        for g in models.zip_segs(ex, s2, list(xs.segs), list(ys.segs)): t = radd(t, pdot(ex, s2, g))
        out.append((s2, ok(t)))
    return out
def pdot(ex, st, g):
    if isinstance(g, One): return rmul(F(ex, st, g.v.fs[0]), F(ex, st, g.v.fs[1]))
    r = R0
    for x in g.body: r = radd(r, pdot(ex, st, x))
    return rmul(ind(g.cond), r) if isinstance(g, Guard) else rsum(g.var, g.cond, r)
def _dot(ex, fr, st, c, a): return vdot(ex, st, a[0], a[1])
for t in VECS:
    for m in ('multi_scalar_mul_const_time', 'multi_scalar_mul_var_time', 'multi_scalar_mul_const_time_naive', 'inner_product_const_time', 'inner_product_var_time', 'inner_product',
              'multi_scalar_mul_var_time_without_precomputation', 'multi_scalar_mul_const_time_without_precomputation', 'multi_scalar_mul_var_time_from_ref_vecs', 'inner_product_var_time_with_ref_vecs'):
        AM['%s::%s' % (t, m)] = _dot
AM['GT::inner_product'] = _dot
def elementwise(f):
    def g(ex, fr, st, c, a):
        xs, ys = Seq(models.to_iter(ex, st, a[0]).segs), Seq(models.to_iter(ex, st, a[1]).segs); out = []
        for s2, b in ex.branch(st, eq(ex.seq_len(xs), ex.seq_len(ys))):
            if not b: out.append((s2, err(ERRV))); continue
            def m(s):
                if isinstance(s, One): return One(f(F(ex, s2, s.v.fs[0]), F(ex, s2, s.v.fs[1])))
                return Guard(s.cond, [m(x) for x in s.body]) if isinstance(s, Guard) else Comp(s.var, s.cond, [m(x) for x in s.body], s.order)
            out.append((s2, ok(Seq([m(s) for s in models.zip_segs(ex, s2, list(xs.segs), list(ys.segs))]))))
        return out
    return g
def mapv(ex, st, v, f):
    def m(s):
        if isinstance(s, One): return One(f(F(ex, st, s.v)))
        return Guard(s.cond, [m(x) for x in s.body]) if isinstance(s, Guard) else Comp(s.var, s.cond, [m(x) for x in s.body], s.order)
    return Seq([m(s) for s in D(ex, st, v).segs])
for t in VECS:
    AM[t + '::plus'] = elementwise(radd); AM[t + '::minus'] = elementwise(rsub); AM[t + '::hadamard_product'] = elementwise(rmul)
    AM[t + '::scaled_by'] = AM[t + '::scaled_by_var_time'] = lambda ex, fr, st, c, a: (lambda n: mapv(ex, st, a[0], lambda x: rmul(x, n)))(F(ex, st, a[1]))
    AM[t + '::scale'] = AM[t + '::scale_var_time'] = lambda ex, fr, st, c, a: (lambda n: (setref(ex, st, a[0], mapv(ex, st, a[0], lambda x: rmul(x, n))), UNITV)[1])(F(ex, st, a[1]))
    AM[t + '::sum'] = lambda ex, fr, st, c, a: S['Iterator::sum'](ex, fr, st, c, [IterV(D(ex, st, a[0]).segs)]) if D(ex, st, a[0]).segs else R0
# ---- conversions
@am('From::from', 'Into::into')
def _(ex, fr, st, c, a):
    v = D(ex, st, a[0]); t = ex.subty(fr, c.self_ty) if c.trait == 'From' else (c.gens[0] if c.gens else None)
    n = tyname(strip_refs(t)) if t is not None else None
    if isinstance(v, T) and v.sort == 'F': return v
    if isinstance(v, Seq) and (n in VECS or n is None or (n == 'Vec' and True)):
        if n in VECS or n == 'Vec': return v
    if isinstance(v, IterV) and n in VECS: return Seq(v.segs)
    if n == 'FieldElement' and isinstance(v, T) and v.sort == 'I': return int_to_ring(v)
    return S['Into::into' if c.trait == 'Into' else 'From::from'](ex, fr, st, c, a)
# ---- encodings
SZ = {'FieldElement': 48, 'G1': 97, 'G2': 192}
def chunk(ty, x):
    k = fresh_var('I', 'k')
    return Comp(k, and_(le(ZERO, k), lt(k, num(SZ[ty]))), [One(app('enc.%s:u8' % ty, (x, k), 'I'))])
def tyof(ex, fr, c):
    if c.self_ty is not None: return tyname(strip_refs(ex.subty(fr, c.self_ty)))
    return c.key.split('::')[0]
def _tb(ex, fr, st, c, a): return Seq([chunk(tyof(ex, fr, c), F(ex, st, a[0]))])
def _fb(ex, fr, st, c, a):
    w = D(ex, st, a[0]); ty = tyof(ex, fr, c); out = []
    for s1, w1 in cases(ex, st, w):
        for s2, b in ex.branch(s1, eq(ex.seq_len(w1), num(SZ[ty]))):
            if not b: out.append((s2, err(ERRV))); continue
            r = dec_chunk(ex, s2, 'enc.%s:u8' % ty, SZ[ty], w1, 'F')
            if isinstance(r, IteV): r = r.a      # amcl decodes any byte string of the right length to some value
            out.append((s2, r))
    return out
AM['FieldElement::to_bytes'] = AM['GroupElement::to_bytes'] = _tb
AM['FieldElement::from_bytes'] = AM['GroupElement::from_bytes'] = _fb
CONSTS = {'GroupG1_SIZE': 97, 'GroupG2_SIZE': 192, 'FieldElement_SIZE': 48, 'MODBYTES': 48, 'GroupGT_SIZE': 576}

class AmclModels(Models):
    RING = {'FieldElement', 'G1', 'G2', 'GT'}
    ALIAS = {'FieldElementVector': 'std::vec::Vec<amcl_wrapper::field_elem::FieldElement>', 'G1Vector': 'std::vec::Vec<amcl_wrapper::group_elem_g1::G1>', 'G2Vector': 'std::vec::Vec<amcl_wrapper::group_elem_g2::G2>'}
    externals = Models.externals | {'amcl_wrapper', 'amcl', 'rand', 'serde', 'merlin'}
    def __init__(s):
        super().__init__(); s.tables = [STD, AM]
        for k, v in CONSTS.items(): s.consts[k] = num(v)
