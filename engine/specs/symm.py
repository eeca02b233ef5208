"""Contracts and lemmas for authenticated symmetric encryption (A01): libursa/src/encryption/symm."""
import re, models
from contracts import *
from models_symm import SymmModels, cbc_plain, aead_plain, alg_of, seqn, tag, norm, seqeq, padded, made, sealed
CRATES = ['ursa']; CRATE = 'ursa'; MODELS = SymmModels
C = {}; LEM = []; TAGS = {}
U = ('A01',)
def con(ident, n=0, **opts):
    def d(f): C['%s#%s' % (ident, n)] = Contract('ursa', ident, f, n, opts); TAGS['%s#%s' % (ident, n)] = U; return f
    return d
def lem(name, props=U, limit=60):
    def d(f): LEM.append((props, Lemma('ursa', name, f, limit))); return f
    return d
# name, module, key, nonce, tag
CIPH = [('Aes128CbcHmac256', 'aescbc', 32, 16, 32), ('Aes256CbcHmac512', 'aescbc', 64, 16, 64), ('Aes128Gcm', 'aesgcm', 16, 12, 16), ('Aes256Gcm', 'aesgcm', 32, 12, 16),
        ('ChaCha20Poly1305', 'chacha20poly1305', 32, 12, 16), ('XChaCha20Poly1305', 'xchacha20poly1305', 32, 24, 16)]
def blob(l, st, name, n):
    w = l.sym('Vec<u8>', name); c = l.spec(st); st.assume(eq(c.len(w), num(n))); return w
def cipher(l, st, i, nm='key'):
    n, mod, ks, ns, ts = CIPH[i]; k = blob(l, st, nm, ks); c = l.spec(st)
    return c.mk('encryption::symm::%s::%s' % (mod, n), key=k), k
def subst_of(i):
    t = parse_ty('encryption::symm::%s::%s' % (CIPH[i][1], CIPH[i][0])); v = parse_ty('std::vec::Vec<u8>')
    return {'Self': t, 'D': t, 'E': t, 'M': v, 'A': v}
def pay(l, st, msg, ad): return l.spec(st).mk('aead::Payload', msg=msg, aad=ad)
for _i in range(6):
    def _mk(i):
        n, mod, ks, ns, ts = CIPH[i]
        @lem('%s: decrypting what was encrypted gives the message back' % n)
        def _(l):
            st = l.st.fork(); e, k = cipher(l, st, i); z = blob(l, st, 'nonce', ns); m = l.sym('Vec<u8>', 'msg'); ad = l.sym('Vec<u8>', 'aad')
            for s2, x in l.must(st, '%s as Aead::encrypt' % n, e, z, pay(l, st, m, ad), what='encrypt'):
                c = l.spec(s2); ln = c.len(m)
                l.holds(s2, eq(c.len(x), iadd(padded(ln) if i < 2 else ln, num(ts))), 'length of the ciphertext')
                for s3, y in l.must(s2, '%s as Aead::decrypt' % n, e, z, pay(l, s2, x, ad), what='decrypt'): l.eq(s3, y, m, 'decrypted message')
    _mk(_i)
for _i in range(6):
    def _mk(i):
        n, mod, ks, ns, ts = CIPH[i]; sub = subst_of(i)
        @lem('%s: the easy form is the nonce and the ciphertext, and decrypts to the message' % n)
        def _(l):
            st = l.st.fork(); e, k = cipher(l, st, i); m = l.sym('Vec<u8>', 'msg'); ad = l.sym('Vec<u8>', 'aad')
            for s2, x in l.must(st, 'encryption::symm::Encryptor::encrypt_easy', e, ad, m, what='encrypt_easy', tysub=sub):
                c = l.spec(s2); x = norm(l.ex, x); z = l.ex.seq_slice(s2, x, ZERO, num(ns)); w = l.ex.seq_slice(s2, x, num(ns), c.len(x))
                l.holds(s2, eq(c.len(x), iadd(padded(c.len(m)) if i < 2 else c.len(m), num(ts + ns))), 'length of the easy form')
                for s3, y in l.must(s2, 'encryption::symm::Encryptor::decrypt_easy', e, ad, x, what='decrypt_easy', tysub=sub): l.eq(s3, y, m, 'decrypted message')
                for s3, y in l.must(s2, '%s as Aead::encrypt' % n, e, z, pay(l, s2, m, ad), what='encrypt'): l.eq(s3, y, w, 'the rest is the ciphertext under that nonce')
    _mk(_i)
# ---- what decryption accepts
ALGS = {0: 'Cbc<Aes128,Pkcs7>', 1: 'Cbc<Aes256,Pkcs7>', 2: 'AesGcm<Aes128,U12>', 3: 'AesGcm<Aes256,U12>', 4: 'ChaChaPoly1305<ChaCha<R20>>', 5: 'XChaCha20Poly1305'}
def cbc_open(ex, i, key, z, body): return cbc_plain(ex, (alg_of(ALGS[i]), key, norm(ex, z)), body)
def aead_open(ex, i, key, z, ad, x): return aead_plain(ex, (alg_of(ALGS[i]), norm(ex, key), norm(ex, z), norm(ex, ad)), norm(ex, x))
def drawn(w):
    """the draw the bytes come from, or None"""
    m = set(re.findall(r'rnd\.bytes![0-9]+', repr(valterm(w)))); return m.pop() if len(m) == 1 else None
def verdict(l, st, ident, args, cond, val, tysub=None):
    """Ok(val) exactly under cond, Err otherwise, never a panic"""
    for s2, o in l.run(st, ident, *args, tysub=tysub):
        if contradiction(s2.pc): continue
        if o[0] == 'panic': l.holds(s2, FALSE, 'panics: ' + str(o[1])); continue
        for s3, v in models.cases(l.ex, s2, o[1]):
            if v.vn == 'Ok': l.holds(s3, cond, 'accepted only if it should be'); l.eq(s3, v.fs[0], val, 'value')
            else: l.holds(s3, not_(cond), 'refused only if it should be')
KEYHALF = {0: 16, 1: 32}; HM = {0: 'Sha256', 1: 'Sha512'}
for _i in range(6):
    def _mk(i):
        n, mod, ks, ns, ts = CIPH[i]; sub = subst_of(i)
        @lem('%s: decryption accepts exactly the ciphertexts %s' % (n, 'that end in the tag of aad, nonce and the rest under the second half of the key, and are well padded' if i < 2 else 'genuine for key, nonce and aad'))
        def _(l):
            st = l.st.fork(); e, k = cipher(l, st, i); z = blob(l, st, 'nonce', ns); x = l.sym('Vec<u8>', 'ct'); ad = l.sym('Vec<u8>', 'aad')
            c = l.spec(st); ln = c.len(x)
            if i < 2:
                h = KEYHALF[i]; cut = isub(ln, num(ts)); s0 = st.fork(); s0.assume(le(num(ts), ln)); body = norm(l.ex, l.ex.seq_slice(s0, x, ZERO, cut)); t = norm(l.ex, l.ex.seq_slice(s0, x, cut, ln))
                want = tag(l.ex, HM[i], l.ex.seq_slice(st, k, num(h), num(ks)), l.ex.seq_concat([ad, z, body]))
                good, val = cbc_open(l.ex, i, norm(l.ex, l.ex.seq_slice(st, k, ZERO, num(h))), z, body)
                cond = and_(le(num(ts + 16), ln), seqeq(l.ex, st, want, t), good)
            else:
                good, val = aead_open(l.ex, i, k, z, ad, x); cond = and_(le(num(16), ln), good)
            verdict(l, st, '%s as Aead::decrypt' % n, (e, z, pay(l, st, x, ad)), cond, val)
        @lem('%s: the key is the given key, all of it' % n)
        def _(l):
            st = l.st.fork(); k = blob(l, st, 'key', ks)
            for s2, v in l.must(st, '%s as NewAead::new' % n, k): l.eq(s2, v.fs[0], k, 'key')
        @lem('%s: the easy form draws its nonce anew' % n)
        def _(l):
            st = l.st.fork(); e, k = cipher(l, st, i); m = l.sym('Vec<u8>', 'msg'); ad = l.sym('Vec<u8>', 'aad')
            for s2, x in l.must(st, 'encryption::symm::Encryptor::encrypt_easy', e, ad, m, what='encrypt_easy', tysub=sub):
                for s3, y in l.must(s2, 'encryption::symm::Encryptor::encrypt_easy', e, ad, m, what='encrypt_easy again', tysub=sub):
                    a, b = [drawn(l.ex.seq_slice(s3, norm(l.ex, w), ZERO, num(ns))) for w in (x, y)]
                    l.holds(s3, TRUE if a and b and a != b else FALSE, 'both nonces are drawn, each from its own draw')
                    bs = [l.ex.seq_get(s3, norm(l.ex, w), num(j)) for w in (x, y) for j in range(ns)]
                    l.holds(s3, TRUE if all(isinstance(t, T) and t.op == 'app' and str(t.args[0]).startswith('rnd.bytes!') for t in bs) and len(set(bs)) == 2 * ns else FALSE, 'every byte of both nonces is a drawn byte of its own')
    _mk(_i)
# ---- the wrappers do what the cipher does, and refuse what it cannot take
def same(l, st, ident, args, ident2, args2, extra=None, sub=None, sub2=None):
    """under `extra` both calls give the same; without it the first is refused"""
    if extra is not None:
        s1 = st.fork(); s1.assume(not_(extra))
        if not contradiction(s1.pc): verdict(l, s1, ident, args, FALSE, UNITV, tysub=sub)
        st = st.fork(); st.assume(extra)
    for s2, o in l.run(st, ident2, *args2, tysub=sub2):
        if contradiction(s2.pc) or o[0] == 'panic': continue
        for s3, w in models.cases(l.ex, s2, o[1]):
            for s4, o4 in l.run(s3, ident, *args, tysub=sub):
                if contradiction(s4.pc): continue
                if o4[0] == 'panic': l.holds(s4, FALSE, 'panics: ' + str(o4[1])); continue
                for s5, v in models.cases(l.ex, s4, o4[1]):
                    if not (isinstance(v, Adt) and v.path.split('::')[-1] == 'Result'): l.eq(s5, v, w, 'result'); continue
                    if v.vn != w.vn: l.holds(s5, FALSE, 'one accepts what the other refuses')
                    elif v.vn == 'Ok': l.eq(s5, v.fs[0], w.fs[0], 'value')
for _i in range(6):
    def _mk(i):
        n, mod, ks, ns, ts = CIPH[i]; sub = subst_of(i); SE = 'SymmetricEncryptor::'; DY = 'D as DynEncryptor::'
        def begin(l):
            st = l.st.fork(); e, k = cipher(l, st, i); z = l.sym('Vec<u8>', 'nonce'); x = l.sym('Vec<u8>', 'x'); ad = l.sym('Vec<u8>', 'aad')
            return st, e, z, x, ad, l.spec(st).mk('encryption::symm::SymmetricEncryptor', encryptor=e), eq(l.spec(st).len(z), num(ns))
        @lem('SymmetricEncryptor<%s>: encrypts and decrypts as the cipher does, refusing nonces of the wrong length' % n)
        def _(l):
            st, e, z, x, ad, w, fit = begin(l)
            for f in ('encrypt', 'decrypt'): same(l, st, SE + f, (w, z, ad, x), '%s as Aead::%s' % (n, f), (e, z, pay(l, st, x, ad)), fit, sub=sub)
        @lem('SymmetricEncryptor<%s>: takes keys of the right length only, and keeps all of the key' % n)
        def _(l):
            st = l.st.fork(); k = l.sym('Vec<u8>', 'key'); c = l.spec(st)
            verdict(l, st, SE + 'new_with_key', (k,), eq(c.len(k), num(ks)), c.mk('encryption::symm::SymmetricEncryptor', encryptor=c.mk('encryption::symm::%s::%s' % (mod, n), key=k)), tysub=sub)
        @lem('DynEncryptor of %s: encrypts and decrypts as the cipher does, refusing nonces of the wrong length' % n)
        def _(l):
            st, e, z, x, ad, w, fit = begin(l)
            for f in ('encrypt', 'decrypt'): same(l, st, DY + f, (e, z, ad, x), '%s as Aead::%s' % (n, f), (e, z, pay(l, st, x, ad)), fit, sub=sub)
        @lem('%s: the easy form is refused unless it holds a nonce and something the cipher decrypts, through every wrapper' % n)
        def _(l):
            st, e, z, x, ad, w, fit = begin(l); c = l.spec(st); ln = c.len(x); base = 'encryption::symm::Encryptor::decrypt_easy'
            s0 = st.fork(); s0.assume(le(num(ns), ln)); z2 = l.ex.seq_slice(s0, x, ZERO, num(ns)); b2 = l.ex.seq_slice(s0, x, num(ns), ln)
            same(l, st, base, (e, ad, x), '%s as Aead::decrypt' % n, (e, z2, pay(l, st, b2, ad)), le(num(ns), ln), sub=sub)
            same(l, st, SE + 'decrypt_easy', (w, ad, x), base, (e, ad, x), sub=sub, sub2=sub); same(l, st, DY + 'decrypt_easy', (e, ad, x), base, (e, ad, x), sub=sub, sub2=sub)
        @lem('DynEncryptor of %s: the sizes are the cipher\'s' % n)
        def _(l):
            st, e, z, x, ad, w, fit = begin(l)
            for f, v in (('keysize', ks), ('noncesize', ns)):
                for s2, r in l.must(st, DY + f, e, tysub=sub): l.holds(s2, eq(r, num(v)), f)
    _mk(_i)
# ---- choosing a cipher by name
KINDS = [0, 1, 2, 3, 5]
def kind(l, i):
    d = l.ex.prog.tt['ursa'].byname['EncryptorType'][0]; vs = [v for v, _ in d.variants]; return Adt(d.path, vs.index(CIPH[i][0]), CIPH[i][0], [])
NAMES = {0: 'aes-128-cbc-hmac-256', 1: 'aes-256-cbc-hmac-512', 2: 'aes-128-gcm', 3: 'aes-256-gcm', 5: 'xchacha20poly1305'}
for _i in KINDS:
    def _mk(i):
        n, mod, ks, ns, ts = CIPH[i]; ET = 'EncryptorType::'
        @lem('EncryptorType::%s: makes that cipher with that key, and knows its sizes' % n)
        def _(l):
            st = l.st.fork(); k = blob(l, st, 'key', ks); c = l.spec(st); x = l.sym('usize', 'size')
            for s2, v in l.must(st, ET + 'gen_encryptor', kind(l, i), k, tysub={'A': parse_ty('std::vec::Vec<u8>')}): l.eq(s2, v, c.mk('encryption::symm::%s::%s' % (mod, n), key=k), 'the cipher')
            for f, w in (('is_valid_keysize', ks), ('is_valid_noncesize', ns)):
                for s2, r in l.must(st, ET + f, kind(l, i), x): l.holds(s2, or_(and_(r, eq(x, num(w))), and_(not_(r), not_(eq(x, num(w))))), f)
        @lem('EncryptorType::%s: is the cipher of its name' % n)
        def _(l):
            st = l.st.fork()
            for s2, v in l.must(st, 'EncryptorType as FromStr::from_str', sstr(NAMES[i])): l.eq(s2, v, kind(l, i), 'kind')
    _mk(_i)
# ---- the buffer forms
for _i in range(6):
    def _mk(i):
        n, mod, ks, ns, ts = CIPH[i]; sub = dict(subst_of(i)); sub['I'] = parse_ty('Reader'); sub['O'] = parse_ty('Writer'); base = 'encryption::symm::Encryptor::'
        @lem('%s: the buffer forms read everything, and append the easy form of what they read' % n)
        def _(l):
            st = l.st.fork(); e, k = cipher(l, st, i); m = l.sym('Vec<u8>', 'msg'); ad = l.sym('Vec<u8>', 'aad'); x = l.sym('Vec<u8>', 'x'); old = l.sym('Vec<u8>', 'written')
            for f in ('encrypt_', 'decrypt_'):
                for s2, o in l.run(st, base + f + 'easy', e, ad, x, tysub=sub):
                    if contradiction(s2.pc) or o[0] == 'panic': continue
                    for s3, w in models.cases(l.ex, s2, o[1]):
                        rd = l.mut(s3, Obj('reader', data=x)); wr = l.mut(s3, old)
                        for s4, o4 in l.run(s3, base + f + 'buffer', e, ad, rd, wr, tysub=sub):
                            if contradiction(s4.pc): continue
                            if o4[0] == 'panic': l.holds(s4, FALSE, 'panics: ' + str(o4[1])); continue
                            for s5, v in models.cases(l.ex, s4, o4[1]):
                                if v.vn != w.vn: l.holds(s5, FALSE, 'accepts what the easy form refuses, or the other way round'); continue
                                l.holds(s5, TRUE, f + 'buffer agrees with the easy form')
                                if v.vn == 'Ok': l.holds(s5, eq(l.ex.seq_len(l.ex.deref(s5, wr)), iadd(l.ex.seq_len(old), l.ex.seq_len(w.fs[0]))), 'everything is written once')
                                if v.vn == 'Ok' and f == 'decrypt_': l.eq(s5, l.ex.deref(s5, wr), l.ex.seq_concat([old, w.fs[0]]), 'what is written')
        @lem('%s: what the encrypting buffer form writes decrypts to what was read' % n)
        def _(l):
            st = l.st.fork(); e, k = cipher(l, st, i); ad = l.sym('Vec<u8>', 'aad'); x = l.sym('Vec<u8>', 'x'); rd = l.mut(st, Obj('reader', data=x)); wr = l.mut(st, Seq([])); back = l.mut(st, Seq([]))
            for s2, _ in l.must(st, base + 'encrypt_buffer', e, ad, rd, wr, what='encrypt_buffer', tysub=sub):
                for s3, _ in l.must(s2, base + 'decrypt_buffer', e, ad, l.mut(s2, Obj('reader', data=norm(l.ex, l.ex.deref(s2, wr)))), back, what='decrypt_buffer', tysub=sub): l.eq(s3, l.ex.deref(s3, back), x, 'what comes back')
    _mk(_i)
for _i in range(6):
    def _mk(i):
        n, mod, ks, ns, ts = CIPH[i]
        @lem('%s: deserializing gives the cipher serialized, and refuses keys of another length without a panic' % n)
        def _(l):
            st = l.st.fork(); e, k = cipher(l, st, i)
            for s2, w in l.must(st, n + ' as Serialize::serialize', e, Obj('serializer'), what='serialize'):
                for s3, y in l.must(s2, n + ' as Deserialize::deserialize', Obj('deserializer', w=w), what='deserialize'): l.eq(s3, y, e, 'the cipher serialized')
            st = l.st.fork(); w = l.sym('Vec<u8>', 'text'); c = l.spec(st); z = fresh_var('B', 'ishex'); good = and_(z, eq(c.len(w), num(ks)))
            for s2, o in l.run(st, n + ' as Deserialize::deserialize', Obj('deserializer', w=Obj('hextext', w=c.D(w), any=z))):
                if contradiction(s2.pc): continue
                if o[0] == 'panic': l.holds(s2, FALSE, 'panics: ' + str(o[1])); continue
                for s3, v in models.cases(l.ex, s2, o[1]):
                    if v.vn == 'Ok': l.holds(s3, good, 'accepted'); l.eq(s3, l.spec(s3).f(v.fs[0], 'key'), c.D(w), 'the key')
                    else: l.holds(s3, not_(good), 'refused')
    _mk(_i)
