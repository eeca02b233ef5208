"""Models for libursa::signatures::{ed25519, secp256k1} (trusted base): ed25519-dalek, curve25519-dalek and libsecp256k1.
Public keys are the scalars of their private keys; a signature is an uninterpreted function of key and message that verifies under the key
it was made with; whether any other byte string is a signature is an uninterpreted condition of key, message and bytes."""
from models_kex import *
from models_kex import KX
import models_kex
SG = {}
def sg(*ks):
    def d(f):
        for k in ks: SG[k] = f
        return f
    return d
made = {}
def raw_is(c, crate): return crate in c.raw
def ed_pub(ex, st, w): return scalar('x25519', clamp(norm(ex, ex.seq_slice(st, hashed('Sha512', w), ZERO, num(32))), ex, st))
def pk_obj(p): return Obj('edpk', p=p)
def enc_ed(p): return bytes_of('enc.ed:u8', p, 32)
def valid_sk(ex, st, w, n, cond=None):
    """(state, 32 canonical bytes or None)"""
    for s2, x in cases(ex, st, w):
        x = norm(ex, x)
        for s3, z in ex.branch(s2, eq(ex.seq_len(x), num(n))): yield s3, (x if z else None)
# ---- ed25519-dalek
@sg('SecretKey::from_bytes')
def _(ex, fr, st, c, a):
    if not raw_is(c, 'ed25519_dalek'): return KX['SecretKey::from_bytes'](ex, fr, st, c, a)
    return [(s2, ok(Obj('edsk', w=canon(ex, s2, x))) if x is not None else err(ERRV)) for s2, x in valid_sk(ex, st, D(ex, st, a[0]), 32)]
@sg('SecretKey::to_bytes', 'SecretKey::as_bytes', '@edsk::to_bytes', '@edsk::as_bytes')
def _(ex, fr, st, c, a): return D(ex, st, a[0]).w
def decode(ex, st, x):
    """Result of PublicKey::from_bytes on 32 bytes"""
    t = is_bytes_of(x, 'enc.ed:u8')
    if t is not None: return [(st, ok(pk_obj(t)))]
    v = valterm(x); return [(s2, ok(pk_obj(fapp('dec.ed', (v,)))) if z else err(ERRV)) for s2, z in ex.branch(st, app('ed.point', (v,), 'B'))]
@sg('PublicKey::from_bytes')
def _(ex, fr, st, c, a):
    out = []
    for s2, x in valid_sk(ex, st, D(ex, st, a[0]), 32): out += decode(ex, s2, x) if x is not None else [(s2, err(ERRV))]
    return out
@sg('PublicKey::to_bytes', 'PublicKey::as_bytes')
def _(ex, fr, st, c, a):
    v = D(ex, st, a[0])
    return enc_ed(v.p) if isinstance(v, Obj) and v.kind == 'edpk' else KX['PublicKey::to_bytes'](ex, fr, st, c, a)
@sg('From::from')
def _(ex, fr, st, c, a):
    v = D(ex, st, a[0])
    if isinstance(v, Obj) and v.kind == 'edsk': return pk_obj(ed_pub(ex, st, v.w))
    return KX['From::from'](ex, fr, st, c, a)
def kp(ex, st, w, p=None): return Adt('ed25519_dalek::Keypair', 0, 'Keypair', (Obj('edsk', w=w), pk_obj(ed_pub(ex, st, w) if p is None else p)))
@sg('Keypair::generate')
def _(ex, fr, st, c, a):
    w = canon(ex, st, models_kex.draw(ex, st, a[0], num(32))); return kp(ex, st, w)
@sg('Keypair::from_bytes')
def _(ex, fr, st, c, a):
    out = []
    for s2, x in valid_sk(ex, st, D(ex, st, a[0]), 64):
        if x is None: out.append((s2, err(ERRV))); continue
        w = canon(ex, s2, ex.seq_slice(s2, x, ZERO, num(32))); q = norm(ex, ex.seq_slice(s2, x, num(32), num(64)))
        for s3, r in decode(ex, s2, q): out.append((s3, ok(kp(ex, s3, w, r.fs[0].p)) if r.vn == 'Ok' else r))
    return out
@sg('Keypair::to_bytes')
def _(ex, fr, st, c, a): k = D(ex, st, a[0]); return ex.seq_concat([k.fs[0].w, enc_ed(k.fs[1].p)])
@sg('Signer::sign', 'Keypair::sign')
def _(ex, fr, st, c, a):
    k = D(ex, st, a[0])
    m = norm(ex, D(ex, st, a[1])); w = k.fs[0].w; p = k.fs[1].p
    t = T('val', (('tup', valterm(w), p, valterm(m)),), 'X'); made[t] = (p if p is ed_pub(ex, st, w) else None, valterm(m)); return Obj('edsig', w=bytes_of('ed.sig:u8', t, 64))
@sg('Signature::to_bytes', '@edsig::to_bytes')
def _(ex, fr, st, c, a): return D(ex, st, a[0]).w
@sg('TryFrom::try_from')
def _(ex, fr, st, c, a):
    if not (c.self_ty is not None and tyname(strip_refs(ex.subty(fr, c.self_ty))) == 'Signature'): return models.STD['TryFrom::try_from'](ex, fr, st, c, a)
    out = []
    for s2, x in valid_sk(ex, st, D(ex, st, a[0]), 64):
        if x is None: out.append((s2, err(ERRV)))
        elif is_bytes_of(x, 'ed.sig:u8') is not None: out.append((s2, ok(Obj('edsig', w=x))))
        else: out += [(s3, ok(Obj('edsig', w=x)) if z else err(ERRV)) for s3, z in ex.branch(s2, app('ed.sigform', (valterm(x),), 'B'))]
    return out
def genuine(p, m, w, tag):
    t = is_bytes_of(w, tag); e = made.get(t) if t is not None else None
    if e is not None and e[0] is p and e[1] is valterm(m): return TRUE
    return app('genuine.' + tag.split('.')[0], (p, valterm(m), valterm(w)), 'B')
@sg('Verifier::verify', 'PublicKey::verify')
def _(ex, fr, st, c, a):
    p = D(ex, st, a[0]).p; m = norm(ex, D(ex, st, a[1])); w = D(ex, st, a[2]).w
    return [(s2, ok(UNITV) if z else err(ERRV)) for s2, z in ex.branch(st, genuine(p, m, w, 'ed.sig:u8'))]
# ---- curve25519-dalek: a compressed point, its Montgomery form
@sg('CompressedEdwardsY::from_slice')
def _(ex, fr, st, c, a): return [(s2, Obj('cey', w=norm(ex, x)) if x is not None else ('panic', 'CompressedEdwardsY::from_slice: length')) for s2, x in valid_sk(ex, st, D(ex, st, a[0]), 32)]
@sg('CompressedEdwardsY::decompress')
def _(ex, fr, st, c, a):
    return [(s2, some(Obj('edp', p=r.fs[0].p)) if r.vn == 'Ok' else none()) for s2, r in decode(ex, st, D(ex, st, a[0]).w)]
@sg('EdwardsPoint::to_montgomery')
def _(ex, fr, st, c, a): return Obj('mont', p=D(ex, st, a[0]).p)
@sg('MontgomeryPoint::as_bytes', 'MontgomeryPoint::to_bytes')
def _(ex, fr, st, c, a): return bytes_of('enc.x25519:u8', D(ex, st, a[0]).p, 32)
# ---- libsecp256k1
BE = 'bitcoinsecp256k1::Error'
@sg('Secp256k1::new', '*::new')
def _(ex, fr, st, c, a):
    if 'Secp256k1<' not in c.raw: raise Unsupported('no model for %s (%s)' % (c.key, c.raw[:120]))
    return Obj('ctx')
@sg('SecretKey::from_slice')
def _(ex, fr, st, c, a):
    out = []
    for s2, x in valid_sk(ex, st, D(ex, st, a[0]), 32):
        if x is None: out.append((s2, err(ERRV))); continue
        w = canon(ex, s2, x); out += [(s3, ok(Obj('bsk', w=w)) if z else err(ERRV)) for s3, z in ex.branch(s2, app('secp.valid', (valterm(w),), 'B'))]
    return out
@sg('Index::index')
def _(ex, fr, st, c, a):
    v = D(ex, st, a[0])
    return v.w if isinstance(v, Obj) and v.kind == 'bsk' else models.STD['Index::index'](ex, fr, st, c, a)
@sg('PublicKey::from_secret_key')
def _(ex, fr, st, c, a): return Obj('bpk', p=scalar('secp', D(ex, st, a[1]).w))
@sg('PublicKey::from_slice')
def _(ex, fr, st, c, a):
    out = []
    for s2, x in cases(ex, st, D(ex, st, a[0])):
        x = norm(ex, x); t = is_bytes_of(x, 'enc.secp:u8') or is_bytes_of(x, 'encu.secp:u8')
        if t is not None: out.append((s2, ok(Obj('bpk', p=t)))); continue
        n = ex.seq_len(x); v = valterm(x)
        out += [(s3, ok(Obj('bpk', p=fapp('dec.secp', (v,)))) if z else err(ERRV)) for s3, z in ex.branch(s2, and_(or_(eq(n, num(33)), eq(n, num(65))), app('secp.point', (v,), 'B')))]
    return out
@sg('PublicKey::serialize')
def _(ex, fr, st, c, a): return bytes_of('enc.secp:u8', D(ex, st, a[0]).p, 33)
@sg('PublicKey::serialize_uncompressed')
def _(ex, fr, st, c, a): return bytes_of('encu.secp:u8', D(ex, st, a[0]).p, 65)
@sg('Message::from_slice')
def _(ex, fr, st, c, a): return [(s2, ok(Obj('bmsg', w=x)) if x is not None else err(ERRV)) for s2, x in valid_sk(ex, st, D(ex, st, a[0]), 32)]
@sg('Secp256k1::sign')
def _(ex, fr, st, c, a):
    m = D(ex, st, a[1]).w; w = D(ex, st, a[2]).w; t = T('val', (('tup', valterm(w), valterm(m)),), 'X'); made[t] = (scalar('secp', w), valterm(m))
    return Obj('bsig', w=bytes_of('ecdsa.sig:u8', t, 64))
@sg('Signature::serialize_compact')
def _(ex, fr, st, c, a): return D(ex, st, a[0]).w
@sg('Signature::from_compact')
def _(ex, fr, st, c, a):
    out = []
    for s2, x in valid_sk(ex, st, D(ex, st, a[0]), 64):
        if x is None: out.append((s2, err(ERRV)))
        elif is_bytes_of(x, 'ecdsa.sig:u8') is not None or is_bytes_of(x, 'ecdsa.low:u8') is not None: out.append((s2, ok(Obj('bsig', w=x))))
        else: out += [(s3, ok(Obj('bsig', w=x)) if z else err(ERRV)) for s3, z in ex.branch(s2, app('ecdsa.sigform', (valterm(x),), 'B'))]
    return out
def low(w): return w if is_bytes_of(w, 'ecdsa.sig:u8') is not None or is_bytes_of(w, 'ecdsa.low:u8') is not None else bytes_of('ecdsa.low:u8', valterm(w), 64)
@sg('Signature::normalize_s')
def _(ex, fr, st, c, a): setref(ex, st, a[0], Obj('bsig', w=low(D(ex, st, a[0]).w))); return UNITV
@sg('Secp256k1::verify')
def _(ex, fr, st, c, a):
    m = D(ex, st, a[1]).w; w = D(ex, st, a[2]).w; p = D(ex, st, a[3]).p
    return [(s2, ok(UNITV) if z else err(Adt(BE, 0, 'IncorrectSignature', ()))) for s2, z in ex.branch(st, genuine(p, m, w, 'ecdsa.sig:u8'))]
class SigModels(KexModels):
    externals = KexModels.externals | {'ed25519_dalek', 'curve25519_dalek', 'bitcoinsecp256k1', 'ed25519'}
    def __init__(s): super().__init__(); s.tables = [STD, CL, AM, BL, KX, SG]
