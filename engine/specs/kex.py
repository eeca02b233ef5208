"""Contracts and lemmas for the key agreement schemes of libursa (K01): kex/x25519.rs and kex/secp256k1.rs."""
import models
from contracts import *
from models_kex import KexModels, bytes_of, is_bytes_of, scalar, norm, clamp, canon
from models_bls import hashed
CRATES = ['ursa']; CRATE = 'ursa'; MODELS = KexModels
C = {}; LEM = []; TAGS = {}
U = ('K01',)
def con(ident, n=0, **opts):
    def d(f): C['%s#%s' % (ident, n)] = Contract('ursa', ident, f, n, opts); TAGS['%s#%s' % (ident, n)] = U; return f
    return d
def lem(name, props=U, limit=60):
    def d(f): LEM.append((props, Lemma('ursa', name, f, limit))); return f
    return d
X, P = 'X25519Sha256 as KeyExchangeScheme::', 'EcdhSecp256k1Sha256 as KeyExchangeScheme::'
from models_kex import key_source
def raw(c, v): return norm(c.ex, c.D(c.f(v, '0')))
# ------------------------------------------------- lemmas
def key(l, st, scheme, how, name):
    """[(state, public, private)] of a freshly made key pair; how: random, seed or a 32 byte private key"""
    if how == 'random': opt = none()
    else:
        w = l.sym('Vec<u8>', name) if how == 'seed' else l.sym('keys::PrivateKey', name)
        c = l.spec(st)
        if how == 'private': st.assume(eq(l.ex.seq_len(raw(c, w)), num(32)))
        elif sch is P: st.assume(le(num(32), c.len(w)))
        opt = some(c.mk('KeyGenOption::UseSeed', **{'0': w}) if how == 'seed' else c.mk('KeyGenOption::FromSecretKey', **{'0': w}))
    return opt
HOW = ('random', 'seed', 'private')
for sch, nm in ((X, 'X25519'), (P, 'secp256k1')):
    def _mk(sch, nm):
        @lem('%s: both parties compute the same secret, however their keys were made' % nm)
        def _(l):
            for ha in HOW:
                for hb in HOW:
                    st = l.st.fork(); self_ = l.sym('kex::' + ('x25519::X25519Sha256' if sch is X else 'secp256k1::EcdhSecp256k1Sha256'), 'scheme')
                    oa = key(l, st, sch, ha, 'a'); ob = key(l, st, sch, hb, 'b')
                    for s1, ka in pairs(l, st, sch, self_, oa):
                        for s2, kb in pairs(l, s1, sch, self_, ob):
                            for s3, x in must_ok(l, s2, sch, self_, ka[1], kb[0], 'shared secret of a'):
                                for s4, y in must_ok(l, s3, sch, self_, kb[1], ka[0], 'shared secret of b'):
                                    l.eq(s4, x, y, 'the two secrets agree (%s, %s)' % (ha, hb))
        @lem('%s: a key pair made again from its private key is the same pair, and the same seed gives the same pair' % nm)
        def _(l):
            for ha in HOW:
                st = l.st.fork(); self_ = l.sym('kex::' + ('x25519::X25519Sha256' if sch is X else 'secp256k1::EcdhSecp256k1Sha256'), 'scheme')
                oa = key(l, st, sch, ha, 'a')
                for s1, k in pairs(l, st, sch, self_, oa):
                    c = l.spec(s1)
                    for s2, k2 in must_pair(l, s1, sch, self_, some(c.mk('KeyGenOption::FromSecretKey', **{'0': k[1]}))):
                        l.eq(s2, k[0], k2[0], 'public key from the private key (%s)' % ha); l.eq(s2, k[1], k2[1], 'private key kept (%s)' % ha)
                    if ha != 'random':
                        for s2, k2 in must_pair(l, s1, sch, self_, oa):
                            l.eq(s2, k[0], k2[0], 'public key from the same %s' % ha); l.eq(s2, k[1], k2[1], 'private key from the same %s' % ha)
    _mk(sch, nm)
def pairs(l, st, sch, self_, opt):
    """key pairs of the runs that succeed; only a number outside the scalar range of secp256k1 may be refused"""
    out = []
    for s2, r in l.run(st, sch + 'keypair', self_, opt):
        if contradiction(s2.pc): continue
        if r[0] == 'panic': l.holds(s2, FALSE, 'keypair does not panic'); continue
        for s3, v in models.cases(l.ex, s2, r[1]):
            if v.vn == 'Ok': out.append((s3, l.spec(s3).D(v.fs[0]).fs))
            elif sch is X or not any(c.op == 'not' and c.args[0].op == 'app' and c.args[0].args[0] == 'secp.valid' for c in s3.pc): l.holds(s3, FALSE, 'keypair gives a key pair')
    if not out: l.holds(st, FALSE, 'keypair can succeed')
    return out
def must_pair(l, st, sch, self_, opt): return [(s2, l.spec(s2).D(p).fs) for s2, p in l.must(st, sch + 'keypair', self_, opt, what='key pair')]
def must_ok(l, st, sch, self_, sk, pk, what): return l.must(st, sch + 'compute_shared_secret', self_, sk, pk, what=what)
@lem('the shared secret is that of the Diffie-Hellman value of the private key and the peer public key, and of nothing else')
def _(l):
    for sch, ty, nb in ((X, 'kex::x25519::X25519Sha256', 32), (P, 'kex::secp256k1::EcdhSecp256k1Sha256', 33)):
        st = l.st.fork(); self_ = l.sym(ty, 'scheme'); sk = l.sym('keys::PrivateKey', 'sk'); pk = l.sym('keys::PublicKey', 'pk'); c = l.spec(st)
        w, p = raw(c, sk), raw(c, pk); st.assume(eq(l.ex.seq_len(w), num(32)), eq(l.ex.seq_len(p), num(nb)))
        if sch is X: z = hashed('Sha256', bytes_of('enc.x25519:u8', rmul(scalar('x25519', clamp(w, l.ex, st)), fapp('dec.x25519', (valterm(p),))), 32))
        else:
            w = canon(l.ex, st, w); z = bytes_of('secp.shared:u8', rmul(scalar('secp', w), fapp('dec.secp', (valterm(p),))), 32)
            st.assume(app('secp.valid', (valterm(w),), 'B'), app('secp.point', (valterm(p),), 'B'))
        for s2, o in must_ok(l, st, sch, self_, sk, pk, 'shared secret'): l.eq(s2, raw(l.spec(s2), o), z, 'shared secret')
@lem('keys and seeds of a wrong length are refused without a panic')
def _(l):
    for sch, ty in ((X, 'kex::x25519::X25519Sha256'), (P, 'kex::secp256k1::EcdhSecp256k1Sha256')):
        def refused(st, ident, *args):
            for s2, o in l.run(st, ident, *args):
                if contradiction(s2.pc): continue
                if o[0] == 'panic': l.holds(s2, FALSE, '%s panics: %s' % (ident, o[1])); continue
                for s3, v in models.cases(l.ex, s2, o[1]): l.holds(s3, FALSE if v.vn == 'Ok' else TRUE, '%s refuses' % ident)
        def world():
            st = l.st.fork(); sk = l.sym('keys::PrivateKey', 'sk'); pk = l.sym('keys::PublicKey', 'pk'); c = l.spec(st); return st, l.sym(ty, 'scheme'), sk, pk, l.ex.seq_len(raw(c, sk)), l.ex.seq_len(raw(c, pk)), c
        st, self_, sk, pk, n, m, c = world(); st.assume(not_(eq(n, num(32)))); refused(st, sch + 'compute_shared_secret', self_, sk, pk); refused(st, sch + 'keypair', self_, some(c.mk('KeyGenOption::FromSecretKey', **{'0': sk})))
        st, self_, sk, pk, n, m, c = world(); st.assume(not_(eq(m, num(32)) if sch is X else or_(eq(m, num(33)), eq(m, num(65))))); refused(st, sch + 'compute_shared_secret', self_, sk, pk)
        if sch is P:
            st, self_, sk, pk, n, m, c = world(); z = l.sym('Vec<u8>', 'seed'); st.assume(lt(l.spec(st).len(z), num(32))); refused(st, sch + 'keypair', self_, some(c.mk('KeyGenOption::UseSeed', **{'0': z})))
@lem('drawn keys are drawn anew; the keys of a seed are those its derivation gives')
def _(l):
    for sch, nm in ((X, 'X25519'), (P, 'secp256k1')):
        for h in ('random', 'seed'):
            st = l.st.fork(); self_ = l.sym('kex::' + ('x25519::X25519Sha256' if sch is X else 'secp256k1::EcdhSecp256k1Sha256'), 'scheme')
            c = l.spec(st); o = none()
            if h == 'seed':
                w = l.sym('Vec<u8>', 'a'); o = some(c.mk('KeyGenOption::UseSeed', **{'0': w}))
                if sch is P: st.assume(le(num(32), c.len(w)))
            for s1, k in pairs(l, st, sch, self_, o): key_source(l, s1, '%s (%s)' % (nm, h), raw(l.spec(s1), k[1]), h, o, hashed_seed=sch is X, clamped=sch is X)
