"""Models for libursa::encryption::symm (trusted base): the AEAD crates, AES-CBC with PKCS#7, HMAC, subtle, generic-array and typenum.
A ciphertext is named by everything it depends on; decrypting what was made with the same key, nonce and aad gives the message back, and
whether anything else decrypts is an uninterpreted condition of all inputs."""
import re
import models
from models import *
from models_kex import bytes_of, is_bytes_of, norm
SY = {}
def sy(*ks):
    def d(f):
        for k in ks: SY[k] = f
        return f
    return d
# ---- type-level numbers
_assoc = {}
def assoc(ex, fr, trait, name, item):
    """the associated type of an impl, read from the expanded source"""
    for cr, tt in ex.prog.tt.items():
        txt = _assoc.get(tt.exp)
        if txt is None: txt = _assoc[tt.exp] = open(tt.exp).read()
        for m in re.finditer(r'impl (?:[\w:]+::)?%s for (?:[\w:]+::)?%s\s*\{' % (trait, name), txt):
            body = txt[m.end():m.end() + 600]; body = re.split(r'\bimpl\b (?!Into)', body)[0]
            x = re.search(r'type %s\s*=\s*([\w:]+);' % item, body)
            if x: return parse_ty(x.group(1))
    raise Unsupported('associated type %s of %s' % (item, name))
def tnum(ex, fr, t):
    t = strip_refs(ex.subty(fr, t) if ex is not None else t)
    if t.k == 'proj':
        m = re.match(r'<(.+) as ([\w:]+?)(?:<.*>)?>::(\w+)$', t.name)
        if not m: raise Unsupported('type %r' % t)
        who = strip_refs(ex.subty(fr, parse_ty(m.group(1))))
        return tnum(ex, fr, assoc(ex, fr, m.group(2).split('::')[-1], tyname(who), m.group(3)))
    n = tyname(t)
    if n == 'UInt': return 2 * tnum(ex, fr, t.args[0]) + (1 if tyname(t.args[1]) == 'B1' else 0)
    if n == 'UTerm': return 0
    if re.match(r'U\d+$', n): return int(n[1:])
    raise Unsupported('number type %r' % t)
@sy('Unsigned::to_usize')
def _(ex, fr, st, c, a): return num(tnum(ex, fr, c.self_ty))
@sy('GenericArray::from_slice', 'GenericArray::clone_from_slice')
def _(ex, fr, st, c, a):
    out = []
    for s2, w in cases(ex, st, D(ex, st, a[0])):
        for s3, z in ex.branch(s2, eq(ex.seq_len(w), num(tnum(ex, fr, c.self_ty.args[1])))): out.append((s3, w if z else ('panic', 'from_slice: length')))
    return out
SY['GenericArray::as_slice'] = SY['GenericArray::deref'] = SY['Deref::deref'] = lambda ex, fr, st, c, a: D(ex, st, a[0])
@sy('Into::into')
def _(ex, fr, st, c, a):
    v = D(ex, st, a[0])
    if isinstance(v, Adt) and v.path.endswith('Payload'): return v
    return models.STD['Into::into'](ex, fr, st, c, a)
def payload(ex, st, v):
    """(message, aad)"""
    v = D(ex, st, v)
    if isinstance(v, Seq): return norm(ex, v), Seq([])         # From<&[u8]>: a message without associated data
    if not (isinstance(v, Adt) and v.path.endswith('Payload')): raise Unsupported('payload %s' % repr(v)[:60])
    return norm(ex, D(ex, st, v.fs[0])), norm(ex, D(ex, st, v.fs[1]))
# ---- the AEAD crates
ALG = {'aes_gcm::AesGcm': 16, 'AesGcm': 16, 'ChaCha20Poly1305': 16, 'ChaChaPoly1305': 16, 'XChaCha20Poly1305': 16}
made = {}
def sealed(ex, tag, parts, msg, n):
    """the bytes of a ciphertext, remembered by what they were made of"""
    t = T('val', (('tup',) + tuple(valterm(p) for p in parts) + (valterm(msg),),), 'X'); made[t] = (parts, msg)
    return bytes_of(tag, t, n) if not isinstance(n, T) else seqn(tag, t, n)
def seqn(tag, t, n):
    k = fresh_var('I', 'k'); return Seq([Comp(k, and_(le(ZERO, k), lt(k, n)), [One(app(tag, (t, k), 'I'))])])
def opened(w, tag):
    t = is_bytes_of(w, tag) if isinstance(w, Seq) else None
    return made.get(t) if t is not None else None
def canon(t):
    n = tyname(t)
    if n in ('UInt', 'UTerm'): return 'U%d' % tnum(None, None, t)
    return n + ('<%s>' % ','.join(canon(a) for a in t.args) if t.args else '')
def algname(ex, fr, t): return alg_of(canon(strip_refs(ex.subty(fr, t))))
def alg_of(nm): return app('alg.' + nm, (), 'X')
@sy('NewAead::new')
def _(ex, fr, st, c, a): return Obj('aead', alg=algname(ex, fr, c.self_ty), key=norm(ex, D(ex, st, a[0])))
@sy('@aead::encrypt')
def _(ex, fr, st, c, a):
    o = D(ex, st, a[0]); z = norm(ex, D(ex, st, a[1])); m, ad = payload(ex, st, a[2])
    return ok(sealed(ex, 'aead.ct:u8', (o.alg, o.key, z, ad), m, iadd(ex.seq_len(m), num(16))))
@sy('@aead::decrypt')
def _(ex, fr, st, c, a):
    o = D(ex, st, a[0]); z = norm(ex, D(ex, st, a[1])); x, ad = payload(ex, st, a[2]); parts = (o.alg, o.key, z, ad)
    e = opened(x, 'aead.ct:u8')
    if e is not None and [valterm(p) for p in e[0]] == [valterm(p) for p in parts]: return ok(e[1])
    good, val = aead_plain(ex, parts, x)
    return [(s2, ok(val) if g else err(ERRV)) for s2, g in ex.branch(st, and_(le(num(16), ex.seq_len(x)), good))]
def aead_plain(ex, parts, x):
    ids = tuple(valterm(p) for p in parts) + (valterm(x),)
    return app('aead.genuine', ids, 'B'), seqn('aead.pt:u8', T('val', (('tup',) + ids,), 'X'), isub(ex.seq_len(x), num(16)))
# ---- AES-CBC with PKCS#7 padding
def padded(n): return iscale(iadd(idiv(n, num(16)), ONE), 16)
KEYS = {'Aes128': 16, 'Aes256': 32}
@sy('BlockMode::new_var')
def _(ex, fr, st, c, a):
    t = strip_refs(ex.subty(fr, c.self_ty)); alg = tyname(t.args[0]); out = []
    for s2, k in cases(ex, st, D(ex, st, a[0])):
        for s3, z in cases(ex, s2, D(ex, s2, a[1])):
            k, z = norm(ex, k), norm(ex, z)
            for s4, g in ex.branch(s3, and_(eq(ex.seq_len(k), num(KEYS[alg])), eq(ex.seq_len(z), num(16)))): out.append((s4, ok(Obj('cbc', alg=algname(ex, fr, c.self_ty), key=k, iv=z)) if g else err(ERRV)))
    return out
@sy('BlockMode::encrypt_vec')
def _(ex, fr, st, c, a):
    o = D(ex, st, a[0]); m = norm(ex, D(ex, st, a[1])); return sealed(ex, 'cbc.ct:u8', (o.alg, o.key, o.iv), m, padded(ex.seq_len(m)))
@sy('BlockMode::decrypt_vec')
def _(ex, fr, st, c, a):
    o = D(ex, st, a[0]); x = norm(ex, D(ex, st, a[1])); parts = (o.alg, o.key, o.iv); e = opened(x, 'cbc.ct:u8')
    if e is not None and [valterm(p) for p in e[0]] == [valterm(p) for p in parts]: return ok(e[1])
    ids = tuple(valterm(p) for p in parts) + (valterm(x),); t = T('val', (('tup',) + ids,), 'X')
    good, val = cbc_plain(ex, parts, x)
    return [(s2, ok(val) if g else err(ERRV)) for s2, g in ex.branch(st, good)]
def cbc_plain(ex, parts, x):
    ids = tuple(valterm(p) for p in parts) + (valterm(x),); t = T('val', (('tup',) + ids,), 'X')
    return and_(le(num(16), ex.seq_len(x)), app('cbc.padding', ids, 'B')), seqn('cbc.pt:u8', t, app('cbc.pt.len', (t,), 'I'))
# ---- HMAC
TAG = {'Sha256': 32, 'Sha512': 64}
@sy('Mac::new_varkey')
def _(ex, fr, st, c, a): return ok(Obj('hmac', alg=tyname(strip_refs(ex.subty(fr, c.self_ty)).args[0]), key=norm(ex, D(ex, st, a[0])), data=Seq([])))
@sy('Mac::input', 'Mac::update')
def _(ex, fr, st, c, a):
    h = D(ex, st, a[0]); setref(ex, st, a[0], Obj('hmac', alg=h.alg, key=h.key, data=ex.seq_concat([h.data, norm(ex, D(ex, st, a[1]))]))); return UNITV
def tag(ex, alg, key, data): return bytes_of('hmac.%s:u8' % alg, T('val', (('tup', valterm(norm(ex, key)), valterm(norm(ex, data))),), 'X'), TAG[alg])
@sy('Mac::result', 'Mac::finalize')
def _(ex, fr, st, c, a): h = D(ex, st, a[0]); return tag(ex, h.alg, h.key, h.data)
@sy('MacResult::code', 'Output::into_bytes')
def _(ex, fr, st, c, a): return D(ex, st, a[0])
@sy('ConstantTimeEq::ct_eq')
def _(ex, fr, st, c, a):
    x, y = norm(ex, D(ex, st, a[0])), norm(ex, D(ex, st, a[1]))
    return Obj('choice', b=seqeq(ex, st, x, y))
def seqeq(ex, st, x, y):
    if repr(valterm(x)) == repr(valterm(y)) or valterm(x) is valterm(y): return TRUE
    kx = fresh_var('I', 'k'); n = ex.seq_len(x)
    try: return and_(eq(n, ex.seq_len(y)), forall(kx, and_(le(ZERO, kx), lt(kx, n)), eq(ex.seq_get(st, x, kx), ex.seq_get(st, y, kx))))
    except Unsupported: return and_(eq(n, ex.seq_len(y)), app('bytes.eq', (valterm(x), valterm(y)), 'B'))
@sy('Choice::unwrap_u8')
def _(ex, fr, st, c, a): return ite(D(ex, st, a[0]).b, ONE, ZERO)
@sy('From::from')
def _(ex, fr, st, c, a):
    if c.self_ty is not None and tyname(strip_refs(ex.subty(fr, c.self_ty))) == 'bool':
        v = D(ex, st, a[0])
        if isinstance(v, Obj) and v.kind == 'choice': return v.b
    return models.STD['From::from'](ex, fr, st, c, a)
# ---- randomness
@sy('RngCore::fill_bytes')
def _(ex, fr, st, c, a):
    nm = 'rnd.bytes!%d' % next(execu.terms_fresh); ex.fresh_names.append(nm); n = ex.seq_len(D(ex, st, a[1])); k = fresh_var('I', 'k'); r = a[1]
    while True:
        v = ex.read(st, (r.fid, r.local), r.projs)
        if not isinstance(v, MRef): break
        r = v
    setref(ex, st, r, Seq([Comp(k, and_(le(ZERO, k), lt(k, n)), [One(app(nm, (k,), 'I'))])])); return UNITV
# ---- streams: a reader that has all of its data, a writer that takes all of it
@sy('Read::read_to_end', '@reader::read_to_end')
def _(ex, fr, st, c, a):
    r = D(ex, st, a[0])
    if not (isinstance(r, Obj) and r.kind == 'reader'): raise Unsupported('reader')
    setref(ex, st, a[1], ex.seq_concat([D(ex, st, a[1]), r.data])); setref(ex, st, a[0], Obj('reader', data=Seq([]))); return ok(ex.seq_len(r.data))
@sy('Write::write_all')
def _(ex, fr, st, c, a): setref(ex, st, a[0], ex.seq_concat([D(ex, st, a[0]), D(ex, st, a[1])])); return ok(UNITV)
SY['Zeroize::zeroize'] = lambda ex, fr, st, c, a: UNITV
class SymmModels(Models):
    externals = Models.externals | {'aead', 'aes', 'aes_gcm', 'block_modes', 'block_padding', 'hmac', 'crypto_mac', 'subtle', 'rustchacha20poly1305', 'chacha20poly1305', 'generic_array', 'typenum', 'rand', 'zeroize', 'sha2', 'hex'}
    def __init__(s): super().__init__(); s.tables = [STD, SY]
@sy('hex::encode')
def _(ex, fr, st, c, a): return [(s2, Obj('hextext', w=w)) for s2, w in cases(ex, st, D(ex, st, a[0]))]
@sy('@hextext::as_str', '@hextext::deref', '@hextext::as_ref', '@hextext::as_bytes')
def _(ex, fr, st, c, a): return D(ex, st, a[0])
@sy('hex::decode', 'hex::decode_to_slice')
def _(ex, fr, st, c, a):
    w = D(ex, st, a[0])
    if not (isinstance(w, Obj) and w.kind == 'hextext'): raise Unsupported('hex::decode of %s' % repr(w)[:40])
    if c.method != 'decode': raise Unsupported(c.method)
    if w.d.get('any') is None: return ok(w.w)
    return [(s2, ok(w.w) if z else err(ERRV)) for s2, z in ex.branch(st, w.d['any'])]
