"""Models for libursa::kex (trusted base): x25519-dalek, k256, the digests and the random generators.
Public keys are discrete logarithms (a private key's scalar), so both parties' Diffie-Hellman value is a product."""
from models_bls import *
from models_bls import BL, hashed
from models_cl import CL
KX = {}
def bytes_of(tag, t, n):
    k = fresh_var('I', 'k'); return Seq([Comp(k, and_(le(ZERO, k), lt(k, num(n))), [One(app(tag, (t, k), 'I'))])])
def is_bytes_of(w, tag):
    """t when w is the byte string tag(t, 0..n)"""
    if isinstance(w, Seq) and len(w.segs) == 1 and isinstance(w.segs[0], Comp) and len(w.segs[0].body) == 1:
        e = w.segs[0].body[0]
        if isinstance(e, One) and isinstance(e.v, T) and e.v.op == 'app' and e.v.args[0] == tag and e.v.args[2] is w.segs[0].var: return e.v.args[1]
def norm(ex, w):
    while isinstance(w, Adt) and len(w.fs) == 1: w = w.fs[0] if not isinstance(w.fs[0], tuple) else w.fs[0][1]
    return Seq(ex.norm_segs(w.segs)) if isinstance(w, Seq) else w
def clamp(w, ex=None, st=None):
    # the 32 bytes one by one, so that a key copied byte by byte is the same term
    if ex is not None and isinstance(w, Seq) and is_bytes_of(w, 'clamp:u8') is None: w = canon(ex, st, w)
    return w if is_bytes_of(w, 'clamp:u8') is not None else bytes_of('clamp:u8', valterm(w), 32)
def scalar(curve, w): return fapp('scalar.' + curve, (valterm(w),))
# ---- random generators
def _from_seed(ex, fr, st, c, a): return [(s2, Obj('rng', seed=norm(ex, w), n=0)) for s2, w in cases(ex, st, D(ex, st, a[0]))]
KX['SeedableRng::from_seed'] = KX['ChaChaRng::from_seed'] = _from_seed
KX['OsRng::new'] = lambda ex, fr, st, c, a: ok(Obj('rng', seed=None, n=0))
KX['OsRng as Default::default'] = KX['OsRng::default'] = lambda ex, fr, st, c, a: Obj('rng', seed=None, n=0)
def draw(ex, st, r, n):
    g = D(ex, st, r)
    if repr(g) == 'OsRng': g = Obj('rng', seed=None, n=0)
    if not (isinstance(g, Obj) and g.kind == 'rng'): raise Unsupported('randomness from %s' % repr(g)[:60])
    if g.d['seed'] is None:
        nm = 'rnd.bytes!%d' % next(execu.terms_fresh); ex.fresh_names.append(nm)
        k = fresh_var('I', 'k'); return Seq([Comp(k, and_(le(ZERO, k), lt(k, n)), [One(app(nm, (k,), 'I'))])])
    t = valterm(g.d['seed'])
    setref(ex, st, r, Obj('rng', seed=g.d['seed'], n=g.d['n'] + 1))
    k = fresh_var('I', 'k'); return Seq([Comp(k, and_(le(ZERO, k), lt(k, n)), [One(app('chacha.%d:u8' % g.d['n'], (t, k), 'I'))])])
def _fill(ex, fr, st, c, a):
    w = draw(ex, st, a[0], ex.seq_len(D(ex, st, a[1]))); r = a[1]
    while True:
        v = ex.read(st, (r.fid, r.local), r.projs)
        if not isinstance(v, MRef): break
        r = v
    setref(ex, st, r, w); return UNITV
KX['RngCore::fill_bytes'] = _fill
# ---- x25519
def _sk_new(ex, fr, st, c, a): return Obj('xsk', w=clamp(draw(ex, st, a[0], num(32)), ex, st))
KX['StaticSecret::new'] = _sk_new
def _from(ex, fr, st, c, a):
    t = tyname(strip_refs(ex.subty(fr, c.self_ty)))
    x = D(ex, st, a[0])
    if t == 'StaticSecret': return [(s2, Obj('xsk', w=clamp(norm(ex, w), ex, s2))) for s2, w in cases(ex, st, x)]
    if t in ('PublicKey', 'X25519PublicKey'):
        if isinstance(x, Obj) and x.kind == 'xsk': return scalar('x25519', x.w)
        out = []
        for s2, w in cases(ex, st, x):
            w = norm(ex, w); t_ = is_bytes_of(w, 'enc.x25519:u8')
            out.append((s2, t_ if t_ is not None else fapp('dec.x25519', (valterm(w),))))
        return out
    return models.STD['From::from'](ex, fr, st, c, a)
KX['From::from'] = _from
KX['PublicKey::as_bytes'] = KX['PublicKey::to_bytes'] = KX['SharedSecret::as_bytes'] = KX['SharedSecret::to_bytes'] = lambda ex, fr, st, c, a: bytes_of('secp.shared:u8', D(ex, st, a[0]).p, 32) if isinstance(D(ex, st, a[0]), Obj) else bytes_of('enc.x25519:u8', F(ex, st, a[0]), 32)
KX['StaticSecret::to_bytes'] = lambda ex, fr, st, c, a: D(ex, st, a[0]).w
KX['StaticSecret::diffie_hellman'] = lambda ex, fr, st, c, a: rmul(scalar('x25519', D(ex, st, a[0]).w), F(ex, st, a[1]))
# ---- secp256k1 (k256)
def canon(ex, st, w):
    """the 32 bytes one by one (a private key is copied byte by byte), so that equal keys are equal terms"""
    w = norm(ex, w)
    return Seq([One(ex.seq_get(st, w, num(i))) for i in range(32)])
def _sk_bytes(ex, fr, st, c, a):
    out = []
    for s2, w in cases(ex, st, D(ex, st, a[0])):
        w = norm(ex, w)
        for s3, z in ex.branch(s2, eq(ex.seq_len(w), num(32))):
            if not z: out.append((s3, ('panic', 'SecretKey::from_bytes: length'))); continue   # elliptic-curve 0.8 converts the slice with a panicking From
            w2 = canon(ex, s3, w); out += [(s4, ok(Obj('ssk', w=w2)) if y else err(ERRV)) for s4, y in ex.branch(s3, app('secp.valid', (valterm(w2),), 'B'))]
    return out
KX['SecretKey::from_bytes'] = _sk_bytes
def _pk_bytes(ex, fr, st, c, a):
    out = []
    for s2, w in cases(ex, st, D(ex, st, a[0])):
        w = norm(ex, w); t_ = is_bytes_of(w, 'enc.secp:u8')
        if t_ is not None: out.append((s2, ok(Obj('spk', p=t_)))); continue
        n = ex.seq_len(w); good = and_(or_(eq(n, num(33)), eq(n, num(65))), app('secp.point', (valterm(w),), 'B'))
        out += [(s3, ok(Obj('spk', p=fapp('dec.secp', (valterm(w),)))) if z else err(ERRV)) for s3, z in ex.branch(s2, good)]
    return out
KX['PublicKey::from_sec1_bytes'] = _pk_bytes
KX['SecretKey::public_key'] = lambda ex, fr, st, c, a: Obj('spk', p=scalar('secp', D(ex, st, a[0]).w))
KX['SecretKey::secret_scalar'] = lambda ex, fr, st, c, a: scalar('secp', D(ex, st, a[0]).w)
KX['SecretKey::to_bytes'] = lambda ex, fr, st, c, a: D(ex, st, a[0]).w
KX['PublicKey::as_affine'] = lambda ex, fr, st, c, a: D(ex, st, a[0]).p
def _sec1(ex, fr, st, c, a):
    return [(s2, Obj('sec1', w=bytes_of('enc.secp:u8' if z else 'encu.secp:u8', D(ex, s2, a[0]).p, 33 if z else 65))) for s2, z in ex.branch(st, D(ex, st, a[1]))]
KX['ToEncodedPoint::to_encoded_point'] = KX['PublicKey::to_encoded_point'] = _sec1
KX['EncodedPoint::to_bytes'] = KX['EncodedPoint::as_bytes'] = lambda ex, fr, st, c, a: D(ex, st, a[0]).w
KX['ecdh::diffie_hellman'] = KX['k256::elliptic_curve::ecdh::diffie_hellman'] = lambda ex, fr, st, c, a: Obj('sshared', p=rmul(F(ex, st, a[0]), F(ex, st, a[1])))
def _zero(ex, fr, st, c, a): setref(ex, st, a[0], Obj('zeroized')) if isinstance(a[0], MRef) else None; return UNITV
KX['Zeroize::zeroize'] = _zero
KX['Digest::digest'] = lambda ex, fr, st, c, a: (lambda n: [(s2, hashed(n, norm(ex, w))) for s2, w in cases(ex, st, D(ex, st, a[0]))])(tyname(strip_refs(ex.subty(fr, c.self_ty))))
class KexModels(BlsModels):
    externals = BlsModels.externals | {'x25519_dalek', 'k256', 'elliptic_curve', 'rand_chacha', 'zeroize', 'rand'}
    def __init__(s): super().__init__(); s.tables = [STD, CL, AM, BL, KX]
    def override(s, info, callee):
        # array_ref!: the macro's cast of a slice of the right length to an array
        if info.method == 'as_array': return lambda ex, fr, st, c, a: a[0]
        return super().override(info, callee)
def key_source(l, st, what, w, how, opt, hashed_seed, clamped):
    """the first 32 bytes of the private key w are the derivation of a fresh draw or of the seed: X25519 and Ed25519 draw from ChaCha keyed with
    the SHA-256 of the seed, the secp256k1 schemes hash what ChaCha keyed with the first 32 bytes of the seed (or the system) draws"""
    import re
    ex = l.ex; k = fresh_var('I', 'k')
    if how == 'random':
        nm = re.findall(r'rnd\.bytes!\d+', repr(w)); d = Seq([Comp(k, and_(le(ZERO, k), lt(k, num(32))), [One(app(nm[0], (k,), 'I'))])]) if nm else None
        if d is None: l.holds(st, FALSE, what + ': the private key does not depend on the random source'); return
    else:
        z = norm(ex, l.spec(st).D(opt.fs[0].fs[0])); z = norm(ex, hashed('Sha256', z)) if hashed_seed else norm(ex, ex.seq_slice(st, z, ZERO, num(32)))
        d = draw_of(z)
    if clamped: d = clamp(d, ex, st)
    elif not hashed_seed: d = norm(ex, hashed('Sha256', d))
    for i in range(32): l.eq(st, ex.seq_get(st, w, num(i)), ex.seq_get(st, d, num(i)), '%s: byte %d of the private key' % (what, i))
def draw_of(z): k = fresh_var('I', 'k'); return Seq([Comp(k, and_(le(ZERO, k), lt(k, num(32))), [One(app('chacha.0:u8', (valterm(z), k), 'I'))])])
