"""Models of AMCL's BN254 curve as used by libursa::pair (trusted base).
Scalars (BIG) are residues modulo the group order: a plain ring value is the canonical representative in [0, order);
Obj('raw') is a value known only up to multiples of the order (`lo` negative possible), which no operation of the wrapper
may return. Points and target-group elements are their discrete logarithms to the fixed generators."""
from models import *
import models, execu
from models_bbs import F, int_to_ring as _i2r
def int_to_ring(x): return x if isinstance(x, T) and x.sort == 'F' else _i2r(x)
PM = {}
def raw(f, neg=False): return Obj('raw', f=f, neg=neg)
def val(ex, st, x):
    """(residue, canonical?, possibly negative?)"""
    x = D(ex, st, x)
    if isinstance(x, Obj) and x.kind == 'order': return R0, False, False
    if isinstance(x, Obj) and x.kind == 'raw': return x.f, False, x.neg
    return int_to_ring(x), True, False
def order(ex, st, x):
    x = D(ex, st, x)
    if not (isinstance(x, Obj) and x.kind == 'order'): raise Unsupported('modulus %s' % repr(x)[:60])
def canon(ex, st, x):
    """the residue of a value that must be non-negative; an unknown one otherwise"""
    f, c, neg = val(ex, st, x)
    return ex.fresh('bad', 'F') if neg else f
def _ints(ex, fr, st, c, a):
    x = D(ex, st, a[0])
    if isinstance(x, Obj) and x.kind == 'rom': return Obj('order') if x.name == 'CURVE_ORDER' else Obj('big', name=x.name)
    raise Unsupported('BIG of %s' % repr(x)[:60])
PM['BIG::new_ints'] = _ints
PM['BIG::new'] = lambda ex, fr, st, c, a: R0
PM['BIG::new_int'] = lambda ex, fr, st, c, a: int_to_ring(D(ex, st, a[0]))
PM['BIG::new_copy'] = PM['BIG::clone'] = PM['BIG as Clone::clone'] = lambda ex, fr, st, c, a: D(ex, st, a[0])
def _arith(op, neg):
    def f(ex, fr, st, c, a):
        x, cx, nx = val(ex, st, a[0]); y, cy, ny = val(ex, st, a[1])
        setref(ex, st, a[0], raw(op(x, y), nx or ny or neg)); return UNITV
    return f
PM['BIG::add'] = _arith(radd, False); PM['BIG::sub'] = _arith(rsub, True)
PM['BIG::plus'] = lambda ex, fr, st, c, a: raw(radd(val(ex, st, a[0])[0], val(ex, st, a[1])[0]), val(ex, st, a[0])[2] or val(ex, st, a[1])[2])
PM['BIG::minus'] = lambda ex, fr, st, c, a: raw(rsub(val(ex, st, a[0])[0], val(ex, st, a[1])[0]), not (D(ex, st, a[0]).kind == 'order' if isinstance(D(ex, st, a[0]), Obj) else False))
def _inc(ex, fr, st, c, a):
    x, _, n = val(ex, st, a[0]); setref(ex, st, a[0], raw(radd(x, int_to_ring(D(ex, st, a[1]))), n)); return UNITV
PM['BIG::inc'] = _inc
PM['BIG::norm'] = lambda ex, fr, st, c, a: num(0)
def _rmod(ex, fr, st, c, a): order(ex, st, a[1]); setref(ex, st, a[0], canon(ex, st, a[0])); return UNITV
PM['BIG::rmod'] = _rmod
def _modneg(ex, fr, st, c, a): order(ex, st, a[1]); return raw(rneg(canon(ex, st, a[0])))      # order - (a mod order), in (0, order]
PM['BIG::modneg'] = _modneg
def _modmul(ex, fr, st, c, a): order(ex, st, a[2]); return rmul(canon(ex, st, a[0]), canon(ex, st, a[1]))
PM['BIG::modmul'] = _modmul
def _modsqr(ex, fr, st, c, a): order(ex, st, a[1]); x = canon(ex, st, a[0]); return rmul(x, x)
PM['BIG::modsqr'] = _modsqr
def _pow(ex, fr, st, c, a): order(ex, st, a[2]); return fapp('goe.pow', (canon(ex, st, a[0]), canon(ex, st, a[1])))
PM['BIG::powmod'] = _pow
def _invm(ex, fr, st, c, a): order(ex, st, a[1]); setref(ex, st, a[0], rinv(canon(ex, st, a[0]))); return UNITV
PM['BIG::invmodp'] = _invm
PM['BIG::iszilch'] = lambda ex, fr, st, c, a: feq0(val(ex, st, a[0])[0]) if val(ex, st, a[0])[1] else app('zilch', (val(ex, st, a[0])[0],), 'B')
def _rand(ex, fr, st, c, a):
    order(ex, st, a[0]); r = D(ex, st, a[1])
    s = r.d.get('seed') if isinstance(r, Obj) else None
    return ex.fresh('rnd.nz', 'F') if s is None or not isinstance(s, V) else fapp('goe.seed', (valterm(s),))
PM['BIG::randomnum'] = _rand
PM['RAND::new'] = lambda ex, fr, st, c, a: Obj('RAND', seed=None)
PM['RAND::clean'] = lambda ex, fr, st, c, a: (setref(ex, st, a[0], Obj('RAND', seed=None)), UNITV)[1]
def _seed(ex, fr, st, c, a):
    w = D(ex, st, a[2]); n = D(ex, st, a[1])
    setref(ex, st, a[0], Obj('RAND', seed=None if isinstance(w, Obj) else ex.seq_slice(st, w, ZERO, n))); return UNITV
PM['RAND::seed'] = _seed
PM['thread_rng'] = PM['rand::thread_rng'] = lambda ex, fr, st, c, a: Obj('threadrng')
def _fill(ex, fr, st, c, a):
    r = a[1]
    while True:
        v = ex.read(st, (r.fid, r.local), r.projs) if hasattr(ex, 'read') else None
        if not isinstance(v, MRef): break
        r = v
    setref(ex, st, r, Obj('entropy')); return UNITV
PM['RngCore::fill_bytes'] = PM['Rng::fill'] = PM['*::fill_bytes'] = _fill
# ---- points: discrete logs
for t in ('ECP', 'ECP2'):
    PM[t + '::new'] = lambda ex, fr, st, c, a: R0
    def _inf(ex, fr, st, c, a): setref(ex, st, a[0], R0); return UNITV
    PM[t + '::inf'] = _inf
    PM[t + '::is_infinity'] = lambda ex, fr, st, c, a: feq0(F(ex, st, a[0]))
    PM[t + '::add'] = lambda ex, fr, st, c, a: (setref(ex, st, a[0], radd(F(ex, st, a[0]), F(ex, st, a[1]))), num(0))[1]
    PM[t + '::sub'] = lambda ex, fr, st, c, a: (setref(ex, st, a[0], rsub(F(ex, st, a[0]), F(ex, st, a[1]))), num(0))[1]
    PM[t + '::neg'] = lambda ex, fr, st, c, a: (setref(ex, st, a[0], rneg(F(ex, st, a[0]))), UNITV)[1]
    PM[t + '::dbl'] = lambda ex, fr, st, c, a: (setref(ex, st, a[0], rmul(rnum(2), F(ex, st, a[0]))), num(0))[1]
    PM[t + '::affine'] = lambda ex, fr, st, c, a: UNITV
    PM[t + '::mul'] = lambda ex, fr, st, c, a: rmul(F(ex, st, a[0]), canon(ex, st, a[1]))
def _gen(t, names):
    def f(ex, fr, st, c, a):
        xs = [D(ex, st, x) for x in a]
        if [getattr(x, 'name', None) for x in xs] != names: raise Unsupported('point of %s' % repr(xs)[:80])
        return R1
    return f
PM['ECP::new_bigs'] = _gen('G1', ['CURVE_GX', 'CURVE_GY'])
PM['ECP2::new_fp2s'] = _gen('G2', ['PX', 'PY'])
PM['ECP::generator'] = lambda ex, fr, st, c, a: R1
PM['ECP2::generator'] = lambda ex, fr, st, c, a: R1
def _fp2(ex, fr, st, c, a):
    n = [getattr(D(ex, st, x), 'name', None) for x in a]
    return Obj('fp2', name={('CURVE_PXA', 'CURVE_PXB'): 'PX', ('CURVE_PYA', 'CURVE_PYB'): 'PY'}.get(tuple(n), '?%s' % n))
PM['FP2::new_bigs'] = _fp2
def _new_big(ex, fr, st, c, a):
    # the x coordinate is an integer: one reduced modulo the group order is another integer
    f, can, _ = val(ex, st, a[0]); return fapp('curve.point', (fapp('residue', (f,)) if can and rconst(f) is None else f,))
PM['ECP::new_big'] = _new_big
PM['g1mul'] = PM['g2mul'] = PM['pair::g1mul'] = PM['pair::g2mul'] = lambda ex, fr, st, c, a: rmul(F(ex, st, a[0]), canon(ex, st, a[1]))
PM['gtpow'] = PM['pair::gtpow'] = PM['g1mul']
PM['FP12::pow'] = PM['g1mul']
# ---- pairing
PM['ate'] = PM['pair::ate'] = lambda ex, fr, st, c, a: Obj('miller', ps=[(F(ex, st, a[1]), F(ex, st, a[0]))])
PM['ate2'] = PM['pair::ate2'] = lambda ex, fr, st, c, a: Obj('miller', ps=[(F(ex, st, a[1]), F(ex, st, a[0])), (F(ex, st, a[3]), F(ex, st, a[2]))])
def _fexp(ex, fr, st, c, a):
    m = D(ex, st, a[0])
    if not (isinstance(m, Obj) and m.kind == 'miller'): raise Unsupported('fexp of %s' % repr(m)[:60])
    # AMCL's Miller loop does not give one when both points of a pair are at infinity
    bad = or_(*[and_(feq0(p), feq0(q)) for p, q in m.ps]); tot = R0
    for p, q in m.ps: tot = radd(tot, rmul(p, q))
    return [(s2, ex.fresh('bad', 'F') if z else tot) for s2, z in ex.branch(st, bad)]
PM['fexp'] = PM['pair::fexp'] = _fexp
PM['FP12::new_int'] = lambda ex, fr, st, c, a: R0 if D(ex, st, a[0]) is num(1) else ex.fresh('bad', 'F')
PM['FP12::mul'] = PM['FP12::smul'] = lambda ex, fr, st, c, a: (setref(ex, st, a[0], radd(F(ex, st, a[0]), F(ex, st, a[1]))), UNITV)[1]
PM['FP12::reduce'] = PM['FP12::norm'] = lambda ex, fr, st, c, a: UNITV
PM['FP12::conj'] = PM['FP12::inverse'] = lambda ex, fr, st, c, a: (setref(ex, st, a[0], rneg(F(ex, st, a[0]))), UNITV)[1]
PM['FP12::isunity'] = lambda ex, fr, st, c, a: feq0(F(ex, st, a[0]))
for t in ('BIG', 'ECP', 'ECP2', 'FP12'):
    PM[t + '::eq'] = PM[t + ' as PartialEq::eq'] = PM[t + '::PartialEq::eq'] = lambda ex, fr, st, c, a: feq0(rsub(F(ex, st, a[0]), F(ex, st, a[1])))
# ---- encodings
SZ = {'BIG': 32, 'ECP': 65, 'ECP2': 128, 'FP12': 384}
def chunk(t, x):
    k = fresh_var('I', 'k'); return Comp(k, and_(le(ZERO, k), lt(k, num(SZ[t]))), [One(app('amcl.%s:u8' % t, (x, k), 'I'))])
def _tob(t):
    def f(ex, fr, st, c, a):
        w = D(ex, st, a[1]); v = D(ex, st, a[0]); L = ex.seq_len(w); out = []
        x, can, _ = val(ex, st, v)
        if not can: x = ex.fresh('bad', 'F')
        for s2, z in ex.branch(st, le(num(SZ[t]), L)):
            if z:
                setref(ex, s2, a[1], ex.seq_concat([Seq([chunk(t, x)]), ex.seq_slice(s2, w, num(SZ[t]), L)])); out.append((s2, UNITV))
            else: out.append((s2, ('panic', 'buffer too short')))
        return out
    return f
def _fromb(t):
    def f(ex, fr, st, c, a):
        out = []
        for s2, w in cases(ex, st, D(ex, st, a[0])):
            v = ex.seq_slice(s2, w, ZERO, num(SZ[t])); e = dec_chunk(ex, s2, 'amcl.%s:u8' % t, SZ[t], v, 'F')
            x = e.fs[0] if isinstance(e, Adt) and e.vn == 'Ok' else fapp('dec.%s' % t, (valterm(v),))
            out.append((s2, x if t != 'BIG' or isinstance(e, Adt) and e.vn == 'Ok' else raw(x)))
        return out
    return f
def _tohex(t): return lambda ex, fr, st, c, a: app('hex.' + t, (val(ex, st, a[0])[0] if val(ex, st, a[0])[1] else ex.fresh('bad', 'F'),), 'S')
def _fromhex(t):
    def f(ex, fr, st, c, a):
        s = D(ex, st, a[0])
        return s.args[1] if isinstance(s, T) and s.op == 'app' and s.args[0] == 'hex.' + t else fapp('unhex.' + t, (s,))
    return f
for t in SZ:
    PM[t + '::tobytes'] = _tob(t); PM[t + '::frombytes'] = _fromb(t); PM[t + '::to_hex'] = _tohex(t); PM[t + '::from_hex'] = _fromhex(t)
class PairModels(Models):
    RING = {'BIG', 'ECP', 'ECP2', 'FP12'}
    externals = Models.externals | {'amcl', 'rand'}
    def __init__(s): super().__init__(); s.tables = [STD, PM]
    def widen(s, v, w): return raw(v, w.neg) if isinstance(v, T) and v.sort == 'F' and isinstance(w, Obj) and w.kind == 'raw' else v
    def const(s, ex, fr, st, c):
        last = c.split('::')[-1]
        if last.startswith('CURVE_') and 'rom' in c: return Obj('rom', name=last)
        if last == 'MODBYTES': return num(32)
        return super().const(ex, fr, st, c)
