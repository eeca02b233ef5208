"""Contracts and lemmas for the signature schemes of libursa (D01): signatures/{ed25519,secp256k1,mod}.rs."""
import models
from contracts import *
from models_sig import SigModels, bytes_of, is_bytes_of, scalar, norm, clamp, canon, ed_pub, enc_ed, genuine, low
from models_bls import hashed
from models_kex import key_source as kex_source
CRATES = ['ursa']; CRATE = 'ursa'; MODELS = SigModels
C = {}; LEM = []; TAGS = {}
U = ('D01',)
def lem(name, props=U, limit=60):
    def d(f): LEM.append((props, Lemma('ursa', name, f, limit))); return f
    return d
E_, S_ = 'Ed25519Sha512 as SignatureScheme::', 'EcdsaSecp256k1Sha256 as SignatureScheme::'
TY = {E_: 'signatures::ed25519::Ed25519Sha512', S_: 'signatures::secp256k1::EcdsaSecp256k1Sha256'}
def raw(c, v): return norm(c.ex, c.D(c.f(v, '0')))
def self_of(l, st, sch):
    for s2, v in l.must(st, sch + 'new'): return s2, v
def option(l, st, sch, how, name):
    if how == 'random': return none()
    c = l.spec(st)
    if how == 'seed':
        w = l.sym('Vec<u8>', name)
        if sch is S_: st.assume(le(num(32), c.len(w)))
        return some(c.mk('KeyGenOption::UseSeed', **{'0': w}))
    w = l.sym('keys::PrivateKey', name); st.assume(eq(l.ex.seq_len(raw(c, w)), num(32))); return some(c.mk('KeyGenOption::FromSecretKey', **{'0': w}))
def pairs(l, st, sch, self_, opt):
    """key pairs of the runs that succeed; only a number outside the scalar range of secp256k1 may be refused"""
    out = []
    for s2, r in l.run(st, sch + 'keypair', self_, opt):
        if contradiction(s2.pc): continue
        if r[0] == 'panic': l.holds(s2, FALSE, 'keypair does not panic: ' + str(r[1])); continue
        for s3, v in models.cases(l.ex, s2, r[1]):
            if v.vn == 'Ok': out.append((s3, l.spec(s3).D(v.fs[0]).fs))
            elif sch is E_ or not any(c.op == 'not' and c.args[0].op == 'app' and c.args[0].args[0] == 'secp.valid' for c in s3.pc): l.holds(s3, FALSE, 'keypair gives a key pair')
    if not out: l.holds(st, FALSE, 'keypair can succeed')
    return out
def must_pair(l, st, sch, self_, opt): return [(s2, l.spec(s2).D(p).fs) for s2, p in l.must(st, sch + 'keypair', self_, opt, what='key pair')]
def verdict(l, st, ident, args, cond, val, tysub=None):
    """Ok(val) exactly under cond, Err otherwise, never a panic"""
    for s2, o in l.run(st, ident, *args, tysub=tysub):
        if contradiction(s2.pc): continue
        if o[0] == 'panic': l.holds(s2, FALSE, 'panics: ' + str(o[1])); continue
        for s3, v in models.cases(l.ex, s2, o[1]):
            if v.vn == 'Ok': l.holds(s3, cond, 'accepted only if it should be'); l.eq(s3, v.fs[0], val, 'value')
            else: l.holds(s3, not_(cond), 'refused only if it should be')
HOW = {E_: ('random', 'seed'), S_: ('random', 'seed', 'private')}
for sch, nm in ((E_, 'Ed25519'), (S_, 'ECDSA secp256k1')):
    def _mk(sch, nm):
        @lem('%s: a signature made with a private key verifies under its public key, however the keys were made' % nm)
        def _(l):
            for h in HOW[sch]:
                st, self_ = self_of(l, l.st.fork(), sch); o = option(l, st, sch, h, 'a'); m = l.sym('Vec<u8>', 'message')
                for s1, k in pairs(l, st, sch, self_, o):
                    for s2, sg in l.must(s1, sch + 'sign', self_, m, k[1], what='sign (%s)' % h):
                        l.holds(s2, eq(l.spec(s2).len(sg), num(64)), 'length of the signature')
                        for s3, r in l.must(s2, sch + 'verify', self_, m, sg, k[0], what='verify (%s)' % h): l.holds(s3, r, 'accepted (%s)' % h)
        @lem('%s: a key pair made again from its private key is the same pair, and the same seed gives the same pair' % nm)
        def _(l):
            for h in HOW[sch]:
                st, self_ = self_of(l, l.st.fork(), sch); o = option(l, st, sch, h, 'a')
                for s1, k in pairs(l, st, sch, self_, o):
                    c = l.spec(s1)
                    for s2, k2 in must_pair(l, s1, sch, self_, some(c.mk('KeyGenOption::FromSecretKey', **{'0': k[1]}))):
                        l.eq(s2, k[0], k2[0], 'public key from the private key (%s)' % h); l.eq(s2, k[1], k2[1], 'private key kept (%s)' % h)
                    if h != 'random':
                        for s2, k2 in must_pair(l, s1, sch, self_, o): l.eq(s2, k[0], k2[0], 'public key from the same %s' % h); l.eq(s2, k[1], k2[1], 'private key from the same %s' % h)
        @lem('%s: verification accepts exactly the signatures genuine for key and message, and never panics' % nm)
        def _(l):
            st, self_ = self_of(l, l.st.fork(), sch); c = l.spec(st); m = l.sym('Vec<u8>', 'message'); sg = l.sym('Vec<u8>', 'signature'); pk = l.sym('keys::PublicKey', 'pk'); p = raw(c, pk); n = l.ex.seq_len(p)
            if sch is E_: good = and_(eq(n, num(32)), app('ed.point', (valterm(p),), 'B')); form = 'ed.sigform'; g = genuine(fapp('dec.ed', (valterm(p),)), norm(l.ex, m), norm(l.ex, sg), 'ed.sig:u8')
            else: good = and_(or_(eq(n, num(33)), eq(n, num(65))), app('secp.point', (valterm(p),), 'B')); form = 'ecdsa.sigform'; g = genuine(fapp('dec.secp', (valterm(p),)), norm(l.ex, hashed('Sha256', norm(l.ex, m))), norm(l.ex, sg), 'ecdsa.sig:u8')
            cond = and_(good, eq(c.len(sg), num(64)), app(form, (valterm(norm(l.ex, sg)),), 'B'))
            for s2, o in l.run(st, sch + 'verify', self_, m, sg, pk):
                if contradiction(s2.pc): continue
                if o[0] == 'panic': l.holds(s2, FALSE, 'panics: ' + str(o[1])); continue
                for s3, v in models.cases(l.ex, s2, o[1]):
                    if v.vn == 'Ok':
                        for s4, z in l.ex.branch(s3, v.fs[0]): l.holds(s4, and_(cond, g) if z else not_(and_(cond, g)), 'accepted' if z else 'rejected')
                    else: l.holds(s3, not_(and_(cond, g)), 'refused')
        @lem('%s: keys and seeds of a wrong length are refused without a panic' % nm)
        def _(l):
            st, self_ = self_of(l, l.st.fork(), sch); c = l.spec(st); w = l.sym('keys::PrivateKey', 'sk'); st.assume(not_(eq(l.ex.seq_len(raw(c, w)), num(64 if sch is E_ else 32)))); m = l.sym('Vec<u8>', 'message')
            verdict(l, st, sch + 'keypair', (self_, some(c.mk('KeyGenOption::FromSecretKey', **{'0': w}))), FALSE, UNITV); verdict(l, st, sch + 'sign', (self_, m, w), FALSE, UNITV)
            if sch is S_:
                s2 = l.st.fork(); z = l.sym('Vec<u8>', 'seed'); s2.assume(lt(l.spec(s2).len(z), num(32)))
                verdict(l, s2, sch + 'keypair', (self_, some(c.mk('KeyGenOption::UseSeed', **{'0': z}))), FALSE, UNITV)
        @lem('%s: a Signer signs with its key, and names its public key' % nm)
        def _(l):
            for h in HOW[sch]:
                st, self_ = self_of(l, l.st.fork(), sch); o = option(l, st, sch, h, 'a'); m = l.sym('Vec<u8>', 'message'); sub = {'T': parse_ty(TY[sch])}
                for s1, k in pairs(l, st, sch, self_, o):
                    g = l.spec(s1).mk('signatures::Signer', scheme=self_, key=k[1])
                    for s2, sg in l.must(s1, 'Signer::sign', g, m, tysub=sub):
                        for s3, s in l.must(s2, sch + 'sign', self_, m, k[1]): l.eq(s3, sg, s, 'signature (%s)' % h)
                    for s2, p in l.must(s1, 'Signer::get_public_key', g, tysub=sub): l.eq(s2, p, k[0], 'public key (%s)' % h)
    _mk(sch, nm)
@lem('Ed25519: expanded key material is a key pair, and the signatures made with it verify')
def _(l):
    st, self_ = self_of(l, l.st.fork(), E_); c = l.spec(st); w = l.sym('Vec<u8>', 'ikm'); m = l.sym('Vec<u8>', 'message'); s0 = st.fork(); s0.assume(lt(c.len(w), num(32))); verdict(l, s0, 'Ed25519Sha512::expand_keypair', (w,), FALSE, UNITV)
    st.assume(le(num(32), c.len(w)))
    for s1, p in l.must(st, 'Ed25519Sha512::expand_keypair', w):
        k = l.spec(s1).D(p).fs
        l.eq(s1, raw(l.spec(s1), k[0]), enc_ed(ed_pub(l.ex, s1, canon(l.ex, s1, w))), 'the public key of the first 32 bytes')
        for s2, k2 in must_pair(l, s1, E_, self_, some(l.spec(s1).mk('KeyGenOption::FromSecretKey', **{'0': k[1]}))): l.eq(s2, k[0], k2[0], 'public key'); l.eq(s2, k[1], k2[1], 'private key')
        for s2, sg in l.must(s1, E_ + 'sign', self_, m, k[1]):
            for s3, r in l.must(s2, E_ + 'verify', self_, m, sg, k[0]): l.holds(s3, r, 'accepted')
@lem('Ed25519: key pairs converted for key exchange are X25519 key pairs')
def _(l):
    X = 'X25519Sha256 as KeyExchangeScheme::'
    for h in HOW[E_]:
        st, self_ = self_of(l, l.st.fork(), E_); o = option(l, st, E_, h, 'a')
        for s1, k in pairs(l, st, E_, self_, o):
            for s2, p in l.must(s1, 'Ed25519Sha512::ver_key_to_key_exchange', k[0]):
                for s3, s in l.must(s2, 'Ed25519Sha512::sign_key_to_key_exchange', k[1]):
                    x = l.sym('kex::x25519::X25519Sha256', 'scheme')
                    for s4, k2 in must_pair(l, s3, X, x, some(l.spec(s3).mk('KeyGenOption::FromSecretKey', **{'0': s}))):
                        l.eq(s4, p, k2[0], 'the converted public key is that of the converted private key'); l.eq(s4, s, k2[1], 'the converted private key is kept')
    st = l.st.fork(); c = l.spec(st); w = l.sym('keys::PrivateKey', 'sk'); st.assume(lt(l.ex.seq_len(raw(c, w)), num(32))); verdict(l, st, 'Ed25519Sha512::sign_key_to_key_exchange', (w,), FALSE, UNITV)
    st = l.st.fork(); c = l.spec(st); w = l.sym('keys::PublicKey', 'pk'); p = raw(c, w)
    verdict(l, st, 'Ed25519Sha512::ver_key_to_key_exchange', (w,), and_(eq(l.ex.seq_len(p), num(32)), app('ed.point', (valterm(p),), 'B')), c.mk('keys::PublicKey', **{'0': bytes_of('enc.x25519:u8', fapp('dec.ed', (valterm(p),)), 32)}))
H = 'EcdsaSecp256k1Sha256 as EcdsaPublicKeyHandler::'
@lem('ECDSA secp256k1: both forms of a public key parse to the key')
def _(l):
    for h in HOW[S_]:
        st, self_ = self_of(l, l.st.fork(), S_); o = option(l, st, S_, h, 'a')
        for s1, k in pairs(l, st, S_, self_, o):
            for f, n in (('public_key_compressed', 33), ('public_key_uncompressed', 65)):
                for s2, w in l.must(s1, H + f, self_, k[0]):
                    l.holds(s2, eq(l.spec(s2).len(w), num(n)), 'length')
                    for s3, p in l.must(s2, H + 'parse', self_, w): l.eq(s3, p, k[0], 'parsed key')
    st, self_ = self_of(l, l.st.fork(), S_); c = l.spec(st); w = l.sym('Vec<u8>', 'data'); n = c.len(w); v = valterm(norm(l.ex, w))
    verdict(l, st, H + 'parse', (self_, w), and_(or_(eq(n, num(33)), eq(n, num(65))), app('secp.point', (v,), 'B')), c.mk('keys::PublicKey', **{'0': bytes_of('enc.secp:u8', fapp('dec.secp', (v,)), 33)}))
@lem('ECDSA secp256k1: normalizing writes the low form of the signature, leaves signatures of this library as they are, and refuses what is no signature')
def _(l):
    N = 'EcdsaSecp256k1Sha256::normalize_s'
    st, self_ = self_of(l, l.st.fork(), S_); c = l.spec(st); w = l.sym('Vec<u8>', 'signature'); m = l.mut(st, w); form = and_(eq(c.len(w), num(64)), app('ecdsa.sigform', (valterm(norm(l.ex, w)),), 'B'))
    for s2, o in l.run(st, N, self_, m):
        if contradiction(s2.pc): continue
        if o[0] == 'panic': l.holds(s2, FALSE, 'panics: ' + str(o[1])); continue
        for s3, v in models.cases(l.ex, s2, o[1]):
            if v.vn == 'Ok': l.holds(s3, form, 'accepted only if it is a signature'); l.eq(s3, l.ex.deref(s3, m), low(norm(l.ex, w)), 'the low form')
            else: l.holds(s3, not_(form), 'refused only if it is no signature'); l.eq(s3, l.ex.deref(s3, m), w, 'left as it was')
    st, self_ = self_of(l, l.st.fork(), S_); msg = l.sym('Vec<u8>', 'message')
    for s1, k in pairs(l, st, S_, self_, none()):
        for s2, sg in l.must(s1, S_ + 'sign', self_, msg, k[1]):
            m = l.mut(s2, sg)
            for s3, _ in l.must(s2, N, self_, m): l.eq(s3, l.ex.deref(s3, m), sg, 'a signature of this library')
@lem('drawn keys are drawn anew; the keys of a seed are those its derivation gives')
def _(l):
    for sch, nm in ((E_, 'Ed25519'), (S_, 'ECDSA')):
        for h in ('random', 'seed'):
            st, self_ = self_of(l, l.st.fork(), sch); o = option(l, st, sch, h, 'a')
            for s1, k in pairs(l, st, sch, self_, o): kex_source(l, s1, '%s (%s)' % (nm, h), raw(l.spec(s1), k[1]), h, o, hashed_seed=sch is E_, clamped=False)
