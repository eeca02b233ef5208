"""Models of the big-number and pairing wrappers of libursa as used by its cl module (their own contracts are U03 and U04).
Big numbers are exact integers, elements of one commutative ring; residues in a multiplicative group modulo n are E(n, L),
L the formal discrete log: E(n, lg(n, x)) is x mod n.  Equalities of logs hold in every ring the exponents are mapped to.
Modulo a product of unknowns (the group order p'q' of the issuer) residues are ring elements and inverse is 1/x."""
from models import *
import models, execu, re, terms
from models_bbs import F, int_to_ring
CL = {}; OV = {}
def ov(*keys):
    def d(f):
        for k in keys: OV[k] = f
        return f
    return d
def multiplicative(m, *xs):
    if any(eapp(x) is not None for x in xs): return True
    ms = mons(m)
    return len(ms) == 1 and list(ms.values()) == [1] and sum(1 for _ in list(ms)[0]) == 1
def mod_exp(b, e, n): return E(n, rmul(lg(n, b), e))
def mod_mul(a, b, n): return E(n, radd(lg(n, a), lg(n, b))) if multiplicative(n, a, b) else rmul(a, b)
def mod_inv(a, n): return E(n, rneg(lg(n, a))) if multiplicative(n, a) else rinv(a)
def b2(f): return lambda ex, fr, st, c, a: ok(f(F(ex, st, a[0]), F(ex, st, a[1])))
def u1(f): return lambda ex, fr, st, c, a: ok(f(F(ex, st, a[0])))
def t3(f): return lambda ex, fr, st, c, a: ok(f(F(ex, st, a[0]), F(ex, st, a[1]), F(ex, st, a[2])))
def setw(f):
    def g(ex, fr, st, c, a): setref(ex, st, a[0], f(F(ex, st, a[0]), int_to_ring(D(ex, st, a[1])))); return ok(a[0])
    return g
B = 'BigNumber::'
OV[B + 'new_context'] = lambda ex, fr, st, c, a: ok(Obj('bnctx'))
OV[B + 'new'] = lambda ex, fr, st, c, a: ok(R0)
def _prime(ex, fr, st, c, a):
    p = ex.fresh('rnd.nz.prime', 'F'); st.assume(app('bn.prime', (p,), 'B')); return ok(p)
for nm in ('generate_prime', 'generate_safe_prime', 'generate_prime_in_range'): OV[B + nm] = _prime
for nm in ('rand', 'rand_range'):
    OV[B + nm] = lambda ex, fr, st, c, a: ok(ex.fresh('rnd.nz.bn', 'F'))
OV[B + 'random_qr'] = lambda ex, fr, st, c, a: ok(ex.fresh('rnd.nz.qr', 'F'))
OV[B + 'add'] = b2(radd); OV[B + 'sub'] = b2(rsub); OV[B + 'mul'] = b2(rmul)
OV[B + 'sqr'] = u1(lambda x: rmul(x, x))
OV[B + 'mod_exp'] = t3(mod_exp); OV[B + 'mod_mul'] = t3(mod_mul)
OV[B + 'mod_sub'] = t3(lambda x, y, m: rsub(x, y))
OV[B + 'mod_div'] = t3(lambda x, y, n: mod_mul(x, mod_inv(y, n), n))
OV[B + 'inverse'] = b2(mod_inv)
def modulus(x, n):
    return E(n, lg(n, x)) if multiplicative(n, *[fromatom(a) for m in mons(x) for a, _ in m]) else x
OV[B + 'modulus'] = b2(modulus)
def _exp(ex, fr, st, c, a):
    x, e = F(ex, st, a[0]), F(ex, st, a[1]); cx, ce = rconst(x), rconst(e)
    if cx is not None and ce is not None and 0 <= ce <= 8192: return ok(rnum(cx ** ce))
    return ok(fapp('bn.exp', (x, e)))
OV[B + 'exp'] = _exp
OV[B + 'div'] = b2(lambda x, y: fapp('bn.div', (x, y)))
OV[B + 'gcd'] = b2(lambda x, y: fapp('bn.gcd', (x, y)))
OV[B + 'add_word'] = setw(radd); OV[B + 'sub_word'] = setw(rsub); OV[B + 'mul_word'] = setw(rmul)
OV[B + 'increment'] = u1(lambda x: radd(x, R1)); OV[B + 'decrement'] = u1(lambda x: rsub(x, R1))
OV[B + 'lshift1'] = u1(lambda x: rmul(rnum(2), x)); OV[B + 'rshift1'] = u1(lambda x: fapp('bn.half', (x,)))
OV[B + 'rshift'] = lambda ex, fr, st, c, a: ok(fapp('bn.shr', (F(ex, st, a[0]), D(ex, st, a[1]))))
OV[B + 'set_negative'] = lambda ex, fr, st, c, a: [(s2, ok(rneg(F(ex, s2, a[0])) if z else F(ex, s2, a[0]))) for s2, z in ex.branch(st, D(ex, st, a[1]))]
OV[B + 'is_negative'] = lambda ex, fr, st, c, a: app('bn.neg', (F(ex, st, a[0]),), 'B')
OV[B + 'num_bits'] = lambda ex, fr, st, c, a: ok(app('bn.bits.len', (F(ex, st, a[0]),), 'I'))
OV[B + 'is_bit_set'] = lambda ex, fr, st, c, a: ok(app('bn.bit', (F(ex, st, a[0]), D(ex, st, a[1])), 'B'))
OV[B + 'is_prime'] = lambda ex, fr, st, c, a: ok(app('bn.prime', (F(ex, st, a[0]),), 'B'))
OV[B + 'is_safe_prime'] = lambda ex, fr, st, c, a: ok(app('bn.safeprime', (F(ex, st, a[0]),), 'B'))
OV[B + 'from_u32'] = lambda ex, fr, st, c, a: ok(int_to_ring(D(ex, st, a[0])))
OV[B + 'try_clone'] = u1(lambda x: x)
OV['BigNumber as Clone::clone'] = lambda ex, fr, st, c, a: F(ex, st, a[0])
OV['BigNumber as PartialEq::eq'] = lambda ex, fr, st, c, a: feq0(rsub(F(ex, st, a[0]), F(ex, st, a[1])))
OV['BigNumber as PartialEq::ne'] = lambda ex, fr, st, c, a: not_(feq0(rsub(F(ex, st, a[0]), F(ex, st, a[1]))))
OV['BigNumber as Default::default'] = lambda ex, fr, st, c, a: R0
def lt_(x, y): return app('bn.neg', (rsub(x, y),), 'B')
for nm, f in (('lt', lambda x, y: lt_(x, y)), ('gt', lambda x, y: lt_(y, x)), ('le', lambda x, y: not_(lt_(y, x))), ('ge', lambda x, y: not_(lt_(x, y)))):
    CL['BigNumber::PartialOrd::' + nm] = CL['BigNumber::' + nm] = lambda ex, fr, st, c, a, f=f: f(F(ex, st, a[0]), F(ex, st, a[1]))
OV['cl::helpers::bitwise_or_big_int'] = b2(lambda x, y: fapp('bn.or', (x, y)))
# ---- encodings
def bnlen(x): return app('bn.len', (x,), 'I')
def bnbytes(x):
    k = fresh_var('I', 'k')
    return Comp(k, and_(le(ZERO, k), lt(k, bnlen(x))), [One(app('enc.BigNumber:u8', (x, k), 'I'))])
OV[B + 'to_bytes'] = lambda ex, fr, st, c, a: ok(Seq([bnbytes(F(ex, st, a[0]))]))
def bn_from(w):
    if isinstance(w, Seq) and len(w.segs) == 1 and isinstance(w.segs[0], Comp):
        s = w.segs[0]; el = s.body[0]
        if isinstance(el, One) and isinstance(el.v, T) and el.v.op == 'app' and el.v.args[0] == 'enc.BigNumber:u8' and el.v.args[2] is s.var: return fromatom(el.v.args[1]) if el.v.args[1].op != 'poly' else el.v.args[1]
    g = goe_whole(w)
    if g is not None: return fapp('bn.goe', (g,))
    return fapp('bn.from', (valterm(w),))
OV[B + 'from_bytes'] = lambda ex, fr, st, c, a: [(s2, ok(bn_from(w))) for s2, w in cases(ex, st, D(ex, st, a[0]))]
def sha(w):
    k = fresh_var('I', 'k')
    return Seq([Comp(k, and_(le(ZERO, k), lt(k, num(32))), [One(app('sha256:u8', (valterm(w), k), 'I'))])])
OV[B + 'hash'] = lambda ex, fr, st, c, a: [(s2, ok(sha(w))) for s2, w in cases(ex, st, D(ex, st, a[0]))]
OV[B + 'to_dec'] = lambda ex, fr, st, c, a: ok(app('bn.dec', (F(ex, st, a[0]),), 'S'))
OV[B + 'to_hex'] = lambda ex, fr, st, c, a: ok(app('bn.hex', (F(ex, st, a[0]),), 'S'))
def _fd(ex, fr, st, c, a):
    s = D(ex, st, a[0])
    if s.op == 'app' and s.args[0] == 'bn.dec': return ok(s.args[1])
    if s.op == 'str' and s.args[0].lstrip('-').isdigit(): return ok(rnum(int(s.args[0])))
    if s.op == 'app' and s.args[0] == 'fmt' and isinstance(s.args[1], T) and s.args[1].sort == 'I': return ok(int_to_ring(s.args[1]))
    return [(s2, ok(fapp('bn.fromdec', (s,))) if z else err(ERRV)) for s2, z in ex.branch(st, app('bn.isdec', (s,), 'B'))]
OV[B + 'from_dec'] = _fd
# ---- hashing
CL['Hasher::new'] = lambda ex, fr, st, c, a: ok(Obj('sha', data=Seq([])))
CL['MessageDigest::sha256'] = lambda ex, fr, st, c, a: UNITV
def _upd(ex, fr, st, c, a):
    h = D(ex, st, a[0]); out = []
    for s2, w in cases(ex, st, D(ex, st, a[1])):
        setref(ex, s2, a[0], h.with_(data=ex.seq_concat([h.data, w]))); out.append((s2, ok(UNITV)))
    return out
CL['Hasher::update'] = _upd
CL['Hasher::finish'] = lambda ex, fr, st, c, a: ok(sha(D(ex, st, a[0]).data))
OV[B + 'hash_array'] = lambda ex, fr, st, c, a: [(s2, ok(sha(ex.flatten(s2, w) if hasattr(ex, 'flatten') else concat_all(ex, s2, w)))) for s2, w in cases(ex, st, D(ex, st, a[0]))]
def concat_all(ex, st, w):
    """the concatenation of a list of byte strings"""
    def go(segs):
        out = []
        for s in segs:
            if isinstance(s, One):
                v = D(ex, st, s.v)
                if isinstance(v, Seq): out += v.segs
                elif isinstance(v, IteV):
                    out += [Guard(v.c, go([One(v.a)])), Guard(not_(v.c), go([One(v.b)]))]
                else: raise Unsupported('hash of %s' % short(v, 80))
            elif isinstance(s, Comp): out.append(Comp(s.var, s.cond, go(s.body), s.order))
            elif isinstance(s, Guard): out.append(Guard(s.cond, go(s.body)))
            else: out.append(s)
        return out
    return Seq(go(w.segs))
# ---- pairing groups: discrete logs (contracts of the wrapper itself: U03)
PT = ('PointG1', 'PointG2', 'Pair', 'GroupOrderElement')
for t in PT:
    OV[t + '::new'] = lambda ex, fr, st, c, a: ok(ex.fresh('rnd.nz', 'F'))
    OV[t + '::new_inf'] = lambda ex, fr, st, c, a: ok(R0)
    OV[t + '::is_inf'] = OV[t + '::is_unity'] = lambda ex, fr, st, c, a: ok(feq0(F(ex, st, a[0])))
    OV[t + '::add'] = OV[t + '::add_mod'] = b2(radd); OV[t + '::sub'] = OV[t + '::sub_mod'] = b2(rsub); OV[t + '::neg'] = OV[t + '::mod_neg'] = u1(rneg)
    OV[t + '::mul'] = OV[t + '::mul_mod'] = b2(rmul)
    OV[t + ' as PartialEq::eq'] = lambda ex, fr, st, c, a: feq0(rsub(F(ex, st, a[0]), F(ex, st, a[1])))
    OV[t + ' as Clone::clone'] = lambda ex, fr, st, c, a: F(ex, st, a[0])
    OV[t + '::to_bytes'] = lambda ex, fr, st, c, a, t=t: ok(Seq([chunk(t, F(ex, st, a[0]))]))
    OV[t + '::from_bytes'] = lambda ex, fr, st, c, a, t=t: [(s, dec_chunk(ex, s, 'enc.%s:u8' % t, num(SIZES[t]), w, 'F')) for s, w in cases(ex, st, D(ex, st, a[0]))]
OV['Pair::mul'] = b2(radd); OV['Pair::pow'] = b2(rmul); OV['Pair::inverse'] = u1(rneg)
OV['GroupOrderElement::inverse'] = u1(rinv)
def int_of(e):
    """the integer n of a field element written int_to_ring(n), else None"""
    k = rconst(e)
    if k is not None: return num(k) if isinstance(k, int) and k >= 0 else None
    out = ZERO
    for m, q in mons(e).items():
        if isinstance(q, int) is False and getattr(q, 'denominator', 1) != 1: return None
        if not m: out = iadd(out, num(int(q))); continue
        if len(m) != 1: return None
        (a, x), = m
        if x != ONE and x != 1: return None
        if not (isinstance(a, T) and a.op == 'app' and a.args[0] == 'i2f'): return None
        out = iadd(out, iscale(a.args[1], int(q)))
    return out
def goe_pow(x, e):
    n = int_of(e)
    return rpow(x, n) if n is not None else fapp('goe.pow', (x, e))
OV['GroupOrderElement::pow_mod'] = b2(goe_pow)
# a u32 in four big-endian bytes (its own contract is checked on the body)
OV['cl::helpers::transform_u32_to_array_of_u8'] = lambda ex, fr, st, c, a: Seq([u32chunk(D(ex, st, a[0]))])
def u32chunk(x):
    k = fresh_var('I', 'k'); return Comp(k, and_(le(ZERO, k), lt(k, num(4))), [One(app('enc.u32be:u8', (x, k), 'I'))])
def goe_from_bytes(ex, fr, st, c, a):
    out = []
    for s, w in cases(ex, st, D(ex, st, a[0])):
        if isinstance(w, Seq) and entails(s.pc, eq(ex.seq_len(w), num(4))):
            k = fresh_var('I', 'k')
            try: e = ex.seq_get(execu.State(s.mem, s.pc + (le(ZERO, k), lt(k, num(4)))), w, k)
            except Unsupported: e = None
            if isinstance(e, T) and e.op == 'app' and e.args[0] == 'enc.u32be:u8' and e.args[2] is k: out.append((s, ok(int_to_ring(e.args[1])))); continue
        x = bn_whole(w)
        if x is not None:
            for s2, z in ex.branch(s, fits32(x)): out.append((s2, ok(fapp('goe', (x,))) if z else err(ERRV)))
            continue
        out.append((s, dec_chunk(ex, s, 'enc.GroupOrderElement:u8', num(SIZES['GroupOrderElement']), w, 'F')))
    return out
# an integer of at most 32 bytes, read as an exponent of the pairing groups; an exponent written out and read as an integer is such an integer
def atom1(x, name):
    """the argument when x is the atom name(argument)"""
    if x.op == 'poly':
        d = mons(x)
        if len(d) != 1 or next(iter(d.values())) != 1: return None
        m = next(iter(d))
        if len(m) != 1 or m[0][1] not in (1, ONE): return None
        x = m[0][0]
    return x.args[1] if isinstance(x, T) and x.op == 'app' and x.args[0] == name else None
def fits32(x):
    if rconst(x) == 0 or atom1(x, 'bn.goe') is not None: return TRUE
    w = atom1(x, 'bn.from')
    return TRUE if w is not None and is_sha(w) else app('bn.fits32', (x,), 'B')
def is_sha(t):
    if not (t.op == 'val' and t.args[0][0] == 'seq' and len(t.args[0]) == 2 and t.args[0][1][0] == 'comp'): return False
    lam = t.args[0][1][1]; return 'sha256:u8' in repr(lam)[:4000] and any(isinstance(e, T) and e.op == 'app' and e.args[0] == 'sha256:u8' for e in flat(lam))
def flat(t):
    if isinstance(t, T) and t.op == 'app': yield t
    elif isinstance(t, T):
        for a in t.args:
            yield from flat(a)
    elif isinstance(t, tuple):
        for a in t: yield from flat(a)
terms.HOOKS['bn.fits32'] = fits32
def goe_(x):
    a = atom1(x, 'bn.goe')
    if a is not None: return a if a.op == 'poly' else fromatom(a)
    return fromatom(app('goe', (x,), 'F'))
terms.HOOKS['goe'] = goe_
def bn_whole(w):
    """the integer of which w is the byte string"""
    if isinstance(w, Seq) and len(w.segs) == 1 and isinstance(w.segs[0], Comp) and len(w.segs[0].body) == 1:
        s = w.segs[0]; el = s.body[0]
        if isinstance(el, One) and isinstance(el.v, T) and el.v.op == 'app' and el.v.args[0] == 'enc.BigNumber:u8' and el.v.args[2] is s.var:
            a = el.v.args[1]; return a if a.op == 'poly' else fromatom(a)
    return None
def goe_whole(w):
    if isinstance(w, Seq) and len(w.segs) == 1 and isinstance(w.segs[0], Comp) and len(w.segs[0].body) == 1:
        s = w.segs[0]; el = s.body[0]
        if isinstance(el, One) and isinstance(el.v, T) and el.v.op == 'app' and el.v.args[0] == 'enc.GroupOrderElement:u8' and el.v.args[2] is s.var and s.cond is and_(le(ZERO, s.var), lt(s.var, num(32))):
            a = el.v.args[1]; return a if a.op == 'poly' else fromatom(a)
    return None
OV['GroupOrderElement::new_from_seed'] = lambda ex, fr, st, c, a: ok(fapp('goe.seed', (valterm(D(ex, st, a[0])),)))
OV['Pair::pair'] = b2(rmul)
OV['Pair::pair2'] = lambda ex, fr, st, c, a: ok(radd(rmul(F(ex, st, a[0]), F(ex, st, a[1])), rmul(F(ex, st, a[2]), F(ex, st, a[3]))))
OV['PointG1::from_hash'] = lambda ex, fr, st, c, a: ok(fapp('h2p', (valterm(D(ex, st, a[0])),)))
SIZES = {'PointG1': 128, 'PointG2': 128, 'GroupOrderElement': 32, 'Pair': 512}
def chunk(ty, x):
    k = fresh_var('I', 'k')
    return Comp(k, and_(le(ZERO, k), lt(k, num(SIZES[ty]))), [One(app('enc.%s:u8' % ty, (x, k), 'I'))])
OV['cl::helpers::bignum_to_group_element'] = u1(lambda x: fapp('goe', (x,)))
OV['cl::helpers::group_element_to_bignum'] = u1(lambda x: fapp('bn.goe', (x,)))
CL['log::max_level'] = CL['max_level'] = lambda ex, fr, st, c, a: num(0)
for k in ('Level::PartialOrd::le', 'Level::le', 'Level::PartialOrd::lt', 'LevelFilter::le'): CL[k] = lambda ex, fr, st, c, a: FALSE     # logging is off; trace! has no effect on results
OV['GroupOrderElement::from_bytes'] = goe_from_bytes
# ---- tails, integers, predicates as set elements
def _tail(ex, fr, st, c, a):
    """any tails accessor: calls back with the tail of that index (assumed to be g'^(gamma^index)), or fails"""
    i = D(ex, st, a[1]); out = [(st.fork().assume(not_(app('tail.ok', (i,), 'B'))), err(ERRV))]
    st.assume(app('tail.ok', (i,), 'B'))
    for s2, o in ex.call_value(fr, st, a[2], [fapp('tail', (i,))]): out.append((s2, ok(UNITV)) if o[0] == 'ret' else (s2, o))
    return out
CL['RevocationTailsAccessor::access_tail'] = _tail
for nm in ('SimpleTailsAccessor', 'FFITailsAccessor'): pass
def checked(f):
    def g(ex, fr, st, c, a):
        x, y = D(ex, st, a[0]), D(ex, st, a[1])
        v = f(x, y); ty = strip_refs(c.self_ty).name if c.self_ty is not None else 'u32'
        r = models.RANGES.get(ty) if hasattr(models, 'RANGES') else execu.RANGES[ty]
        return [(s2, ('ret', v) if b else ('panic', 'arithmetic overflow')) for s2, b in ex.branch(st, and_(le(r[0], v), le(v, r[1])))]
    return g
for t in ('u8', 'u16', 'u32', 'u64', 'usize', 'i32', 'i64'):
    for op, f in (('Add::add', iadd), ('Sub::sub', isub), ('Mul::mul', imul)): CL['%s::%s' % (t, op)] = CL['<%s>::%s' % (t, op)] = checked(f)
def _parse(ex, fr, st, c, a):
    s = D(ex, st, a[0]); t = c.gens[0].name if c.gens else 'i32'; r = execu.RANGES[t]
    if isinstance(s, T) and s.op == 'app' and s.args[0] == 'bn.dec':
        x = s.args[1]; k = rconst(x); v = num(k) if k is not None else app('bn.int', (x,), 'I')
    elif isinstance(s, T) and s.op == 'app' and s.args[0] == 'fmt' and isinstance(s.args[1], T) and s.args[1].sort == 'I': v = s.args[1]
    else: raise Unsupported('parse of %r' % (s,))
    return [(s2, ok(v) if b else err(ERRV)) for s2, b in ex.branch(st, and_(le(r[0], v), le(v, r[1])))]
CL['str::parse'] = _parse
def _find(ex, fr, st, c, a):
    it = models.it_arg(ex, st, a[0])
    step = lambda s, v: models.call_outs(ex, fr, s, a[1], [v], lambda s2, r: [(s3, ('ret', some(v)) if b else ('norm', [])) for s3, b in ex.branch(s2, r)])
    return models.ret_norm(ex.run_segs(st, it.segs, step, 'find'), lambda x: none())
CL['Iterator::find'] = _find
def _tostr(ex, fr, st, c, a):
    v = D(ex, st, a[0])
    if isinstance(v, T) and v.op == 'num': return sstr(str(v.args[0]))
    return STD['ToString::to_string'](ex, fr, st, c, a)
CL['ToString::to_string'] = _tostr
def _entry(ex, fr, st, c, a):
    r = a[0]; m = D(ex, st, r); k = models.mapkey(ex, st, a[1])
    P = 'std::collections::hash_map::Entry'
    h = models.map_has(m, k)
    return [(s2, Adt(P, 0, 'Occupied', [MRef(r.fid, r.local, list(r.projs) + [('key', k)])]) if b else Adt(P, 1, 'Vacant', [Obj('vacant')])) for s2, b in ex.branch(st, h)]
CL['HashMap::entry'] = CL['BTreeMap::entry'] = _entry
def _getmut(ex, fr, st, c, a):
    r = a[0]; v = ex.read(st, (r.fid, r.local), r.projs) if isinstance(r, MRef) else r
    if not isinstance(v, MRef): raise Unsupported('entry reference %r' % (v,))
    return v
CL['OccupiedEntry::get_mut'] = CL['OccupiedEntry::into_mut'] = _getmut
# four squares: assumed contract of cl::helpers::four_squares (a floating-point search; checked by the bounded harness)
def _four(ex, fr, st, c, a):
    d = D(ex, st, a[0]); out = []
    for s2, b in ex.branch(st, lt(d, ZERO)):
        if b: out.append((s2, err(ERRV))); continue
        m = MapV(fresh_var('S', 'key'), FALSE, R0, ('h', 'foursq')); tot = R0
        xs = [fapp('sq.%d' % i, (d,)) for i in range(3)]
        # the four roots: three unknown ones, the square of the fourth makes the sum
        for i in range(4):
            x = xs[i] if i < 3 else fapp('sq.3', (d,)); m = ex.models.map_insert(ex, s2, m, sstr(str(i)), x); tot = radd(tot, rmul(x, x))
        s2.assume(feq0(rsub(tot, int_to_ring(d)))); out.append((s2, ok(m)))
    return out
OV['cl::helpers::four_squares'] = _four
PRED = 'cl::Predicate'
def kv(k):
    # fields of a predicate used as a set element
    if k.op == 'app' and k.args[0] == 'key.Predicate': return [k.args[1], k.args[2], k.args[3]]
    return [app('kv.Predicate.attr_name', (k,), 'S'), app('kv.Predicate.p_type:u8', (k,), 'I'), app('kv.Predicate.value:i32', (k,), 'I')]
PT_ = ['GE', 'LE', 'GT', 'LT']
def ptype(d):
    mk = lambda i: Adt('cl::PredicateType', i, PT_[i], [])
    if d.op == 'num': return mk(d.args[0])
    r = mk(3)
    for i in (2, 1, 0): r = ite_val(eq(d, num(i)), mk(i), r)
    return r
def disc(v):
    if isinstance(v, Adt): return num(v.vi)
    if isinstance(v, IteV):
        # the shape ptype/mk_sym build
        c = v.c
        d = None
        for a in fv_terms(c):
            if a.sort == 'I' and a.op == 'app': d = a
        if d is not None: return d
    raise Unsupported('discriminant of a key')
def fv_terms(c):
    out = []; seen = set(); st = [c]
    while st:
        t = st.pop()
        if id(t) in seen: continue
        seen.add(id(t))
        if isinstance(t, T):
            if t.op == 'app' and 'disc' in t.args[0] or t.op == 'app' and 'p_type' in t.args[0]: out.append(t)
            st += [x for x in flatten_args(t.args)]
    return out
def flatten_args(a):
    for x in a:
        if isinstance(x, T): yield x
        elif isinstance(x, tuple): yield from flatten_args(x)
class CLModels(Models):
    unroll = 4
    def field(s, ex, st, v, p):
        if isinstance(v, T) and v.sort == 'S' and p[1] in (0, 1, 2):
            f = kv(v); return ptype(f[1]) if p[1] == 1 else f[p[1]]
        return None
    def keyof(s, ex, v):
        if isinstance(v, Adt) and v.path.split('::')[-1] == 'Predicate':
            n, d, x = v.fs[0], disc(v.fs[1]), v.fs[2]
            if n.op == 'app' and n.args[0] == 'kv.Predicate.attr_name':
                k = n.args[1]; f = kv(k)
                if f[1] is d and f[2] is x: return k
            return app('key.Predicate', (n, d, x), 'S')
        return None
    RING = {'BigNumber'} | set(PT)
    externals = Models.externals | {'openssl', 'amcl', 'log', 'lazy_static', 'rand'}
    def __init__(s):
        super().__init__(); s.tables = [STD, CL]; s.overrides = OV
    def override(s, info, callee):
        if info.method == 'deref' and info.self_ty is not None and info.self_ty.name.isupper(): return lazy
        return s.overrides.get(info.ident)
_inits = {}
def lazy(ex, fr, st, c, a):
    """dereference of a lazy_static: the value its initialiser computes"""
    o = D(ex, st, a[0]); nm = o.name.split('::')[-1]; key = (id(ex.prog), nm)
    if key not in _inits:
        for cr, d in ex.prog.crates.items():
            last = None
            for n in d.order:
                if '::__static_ref_initialize' in n and '{closure' not in n: last = d.fns[n]
                elif '::__stability' in n and last is not None:
                    m = re.search(r'::(\w+) as std::ops::Deref>::deref::__static_ref_initialize', '\n'.join(d.fns[n].raw if hasattr(d.fns[n], 'raw') else d.fns[n].lines))
                    if m: _inits[(id(ex.prog), m.group(1))] = (last, cr)
    f, cr = _inits[key]
    return ex.run_fn(f, [], st, {}, fr.depth + 1, cr)
