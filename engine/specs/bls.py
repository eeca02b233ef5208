"""Contracts and lemmas for the BLS signatures of libursa (U02): bls/mod.rs (BN254 wrapper) and signatures/bls.rs (BLS12-381)."""
from contracts import *
from models_bls import BlsModels, hashed, sha
from models_amcl import chunk as achunk, SZ
from models_cl import chunk
CRATES = ['ursa']; CRATE = 'ursa'; MODELS = BlsModels
C = {}; LEM = []; TAGS = {}
U = ('U02',)
def con(ident, n=0, **opts):
    def d(f): C['%s#%s' % (ident, n)] = Contract('ursa', ident, f, n, opts); TAGS['%s#%s' % (ident, n)] = U; return f
    return d
def lem(name, props=U, limit=60):
    def d(f): LEM.append((props, Lemma('ursa', name, f, limit))); return f
    return d
def R(c, v, *p):
    for x in p: v = c.f(v, x)
    return ring(c, v)
def h1(c, w, alg='Sha256'): return fapp('h2p', (valterm(hashed(alg, c.D(w))),))
def eqn_multi(c, L, pk, h, s, g): return feq0(rsub(c.sum(0, L, lambda i: rmul(pk(i), h(i))), rmul(s, g)))
# ---------------------------------------------------------------- bls/mod.rs
def eqn(c, sig, h, vk, gen): return feq0(rsub(rmul(h, vk), rmul(sig, gen)))
@con('Bls::verify', n='bls')
def _(c, s, m, vk, g): c.ok(TRUE, eqn(c, R(c, s, 'point'), h1(c, m), R(c, vk, 'point'), R(c, g, 'point')))
@con('Bls::verify_proof_of_posession', n='bls')
def _(c, s, vk, g): c.ok(TRUE, eqn(c, R(c, s, 'point'), h1(c, c.f(vk, 'bytes'), 'Keccak256'), R(c, vk, 'point'), R(c, g, 'point')))
@con('Bls::verify_multi_sig', n='bls')
def _(c, s, m, vks, g): c.ok(TRUE, eqn(c, R(c, s, 'point'), h1(c, m), c.sum(0, c.len(vks), lambda i: R(c, c.at(vks, i), 'point')), R(c, g, 'point')))
def pt(c, name, ty, x, f='point'): return c.mk(name, **{f: x, 'bytes': Seq([chunk(ty, x)])})
@con('Bls::sign', n='bls')
def _(c, m, sk): c.ok(TRUE, pt(c, 'bls::Signature', 'PointG1', rmul(h1(c, m), R(c, sk, 'group_order_element'))))
@con('MultiSignature::new', n='bls')
def _(c, ss): c.ok(TRUE, pt(c, 'bls::MultiSignature', 'PointG1', c.sum(0, c.len(ss), lambda i: R(c, c.at(ss, i), 'point'))))
@con('VerKey::new', n='bls')
def _(c, g, sk): c.ok(TRUE, pt(c, 'bls::VerKey', 'PointG2', rmul(R(c, g, 'point'), R(c, sk, 'group_order_element'))))
@con('ProofOfPossession::new', n='bls')
def _(c, vk, sk): c.ok(TRUE, pt(c, 'bls::ProofOfPossession', 'PointG1', rmul(h1(c, c.f(vk, 'bytes'), 'Keccak256'), R(c, sk, 'group_order_element'))))
# ---------------------------------------------------------------- signatures/bls.rs
CTX = 'signatures::bls::'
U8 = 'std::vec::Vec<u8>'
def bstr(s): return Seq([One(num(b)) for b in s.encode()])
MSG, KEY = bstr('for signing messages'), bstr('for signing public keys for proof of possession')
for mod_, pg, sg in (('normal', 'G1', 'G2'), ('small', 'G2', 'G1')):
    def _mk(md, pg, sg):
        N = CTX + md; PK = N + '::PublicKey'; SIG = N + '::Signature'
        def H(c, w, ctx, d=MSG):
            """[(condition, point)] by whether a context is given"""
            ctx = c.D(ctx); out = []
            if isinstance(ctx, IteV): alts = [(ctx.c, ctx.a), (not_(ctx.c), ctx.b)]
            else: alts = [(TRUE, ctx)]
            for g, o in alts:
                o = c.D(o); pre = c.D(o.fs[0]) if o.vn == 'Some' else d
                out.append((g, fapp('hash.' + sg, (valterm(c.ex.seq_concat([pre, c.D(w)])),))))
            return out
        pkb = lambda c, x: Seq([achunk(pg, x)])
        kb = lambda c, ks: c.seq((0, c.len(ks), lambda i: One_(c, ks, i))) if False else Seq(each_chunk(c, ks))
        def each_chunk(c, ks): k = fresh_var('I', 'k'); return [Comp(k, and_(le(ZERO, k), lt(k, c.len(ks))), [achunk(pg, R(c, c.at(ks, k), '0'))])]
        def coef(c, ks, i): return fapp('hash.FieldElement', (valterm(Seq(each_chunk(c, ks) + [achunk(pg, R(c, c.at(ks, i), '0'))])),))
        con_ = lambda ident, **o: con(ident, n=N, **o)
        T1 = dict(tysub={'A': parse_ty(U8)}); 
        @con_('PublicKey::new')
        def _(c, sk, g): c.ret(TRUE, c.mk(PK, **{'0': rmul(ring(c, g), ring(c, sk))}))
        @con_('PublicKey::combine')
        def _(c, pk, pks): c.ret(TRUE, UNITV, writes={0: c.mk(PK, **{'0': radd(R(c, pk, '0'), c.sum(0, c.len(pks), lambda i: R(c, c.at(pks, i), '0')))})})
        @con_('Signature::combine')
        def _(c, s, ss): c.ret(TRUE, UNITV, writes={0: c.mk(SIG, **{'0': radd(R(c, s, '0'), c.sum(0, c.len(ss), lambda i: R(c, c.at(ss, i), '0')))})})
        @con_('Signature::new', types={0: '&' + U8}, **T1)
        def _(c, m, ctx, sk):
            for g, h in H(c, m, ctx): c.ret(g, c.mk(SIG, **{'0': rmul(h, ring(c, sk))}))
        def ver(ident, key, sig=lambda c, s: R(c, s, '0')):
            @con_(ident, types={1: '&' + U8}, **T1)
            def _(c, s, m, ctx, pk, g):
                for gd, h in H(c, m, ctx): c.ret(gd, eqn(c, sig(c, s), h, key(c, pk), ring(c, g)))
        ver('Signature::verify', lambda c, p: R(c, p, '0')); ver('AggregatedSignature::verify', lambda c, p: R(c, p, '0'))
        ver('AggregatedSignature::verify_no_rk', lambda c, ps: c.sum(0, c.len(ps), lambda i: R(c, c.at(ps, i), '0')))
        @con_('ProofOfPossession::new')
        def _(c, pk, ctx, sk):
            for g, h in H(c, pkb(c, R(c, pk, '0')), ctx, KEY): c.ret(g, c.mk(N + '::ProofOfPossession', **{'0': rmul(h, ring(c, sk))}))
        @con_('ProofOfPossession::verify')
        def _(c, s, ctx, pk, g):
            for gd, h in H(c, pkb(c, R(c, pk, '0')), ctx, KEY): c.ret(gd, eqn(c, R(c, s, '0'), h, R(c, pk, '0'), ring(c, g)))
        @con_('AggregatedSignature::new')
        def _(c, ss): c.ret(TRUE, c.mk(N + '::AggregatedSignature', **{'0': c.sum(0, c.len(ss), lambda i: R(c, c.at(ss, i), '0'))}))
        @con_('AggregatedPublicKey::new')
        def _(c, ks): c.ret(TRUE, c.mk(N + '::AggregatedPublicKey', **{'0': c.sum(0, c.len(ks), lambda i: rmul(R(c, c.at(ks, i), '0'), coef(c, ks, i)))}))
        @con_('Signature::new_with_rk_mitigation', types={0: '&' + U8}, **T1)
        def _(c, m, ctx, sk, i, ks):
            i = c.D(i); c.req(le(ZERO, i), lt(i, c.len(ks)))
            for g, h in H(c, m, ctx): c.ret(g, c.mk(SIG, **{'0': rmul(rmul(h, ring(c, sk)), coef(c, ks, i))}))
        @con_('Signature::verify_multi', check_only=True)
        def _(c, s, ins, ctx, g):
            L = c.len(ins)
            for gd, _h in H(c, Seq([]), ctx):
                def h(i): return [x for y, x in H(c, c.f(c.at(ins, i), '0'), ctx) if y is gd][0]
                distinct = c.all(ZERO, L, lambda i: c.all(ZERO, i, lambda j: not_(feq0(rsub(h(j), h(i))))))
                c.ret(and_(gd, distinct), eqn_multi(c, L, lambda i: R(c, c.f(c.at(ins, i), '1'), '0'), h, R(c, s, '0'), ring(c, g)))
                c.ret(and_(gd, not_(distinct)), FALSE)
        def batch(ident):
            @con_(ident, check_only=True)
            def _(c, ins, ctx, g):
                r = c.witfn('r'); L = c.len(ins)
                for gd, _h in H(c, Seq([]), ctx):
                    h = lambda i: [x for y, x in H(c, c.f(c.at(ins, i), '0'), ctx) if y is gd][0]
                    c.ret(gd, feq0(c.sum(0, L, lambda i: rmul(r(i), rsub(rmul(R(c, c.f(c.at(ins, i), '2'), '0'), h(i)), rmul(R(c, c.f(c.at(ins, i), '1'), '0'), ring(c, g)))))))
        batch('Signature::batch_verify'); batch('AggregatedSignature::batch_verify')
    _mk(mod_, pg, sg)
# ---------------------------------------------------------------- lemmas: honest signatures verify, and only those
nz = lambda x: not_(feq0(x))
def _bn():
    @lem('BN254: an honest signature, key and proof of possession verify; only the signature is accepted')
    def _(l):
        st = l.st; c = l.spec(st)
        g = l.sym('bls::Generator', 'g'); sk = l.sym('bls::SignKey', 'sk'); m = l.sym('Vec<u8>', 'm'); st.assume(nz(R(c, g, 'point')))
        for s1, vk in l.must(st, 'VerKey::new', g, sk, what='key', n='bls'):
            for s2, sg in l.must(s1, 'Bls::sign', m, sk, what='sign', n='bls'):
                for s3, b in l.must(s2, 'Bls::verify', sg, m, vk, g, what='verify', n='bls'): l.holds(s3, b, 'honest signature verifies')
                o = l.sym('bls::Signature', 'o')
                for s3, b in l.must(s2, 'Bls::verify', o, m, vk, g, what='verify', n='bls'):
                    s3.assume(b); l.holds(s3, feq0(rsub(R(c, o, 'point'), R(c, sg, 'point'))), 'the accepted signature is the signature')
            for s2, p in l.must(s1, 'ProofOfPossession::new', vk, sk, what='pop', n='bls'):
                for s3, b in l.must(s2, 'Bls::verify_proof_of_posession', p, vk, g, what='verify pop', n='bls'): l.holds(s3, b, 'honest proof of possession verifies')
    @lem('BN254: the multi-signature of all signers over one message verifies under their keys')
    def _(l):
        st = l.st; c = l.spec(st); g = l.sym('bls::Generator', 'g'); m = l.sym('Vec<u8>', 'm'); n = l.I('n') if hasattr(l, 'I') else None
        sk = lambda i: app('sk', (i,), 'F'); h = h1(c, m)
        n = app('n', (), 'I'); st.assume(le(ONE, n))
        sigs = c.seq((0, n, lambda i: pt(c, 'bls::Signature', 'PointG1', rmul(h, sk(i))))); vks = c.seq((0, n, lambda i: pt(c, 'bls::VerKey', 'PointG2', rmul(R(c, g, 'point'), sk(i)))))
        for s2, ms in l.must(st, 'MultiSignature::new', sigs, what='aggregate', n='bls'):
            for s3, b in l.must(s2, 'Bls::verify_multi_sig', ms, m, vks, g, what='verify', n='bls'): l.holds(s3, b, 'multi-signature verifies')
_bn()
for mod_, pg, sg in (('normal', 'G1', 'G2'), ('small', 'G2', 'G1')):
    def _mk2(md, pg, sg):
        N = CTX + md; PK = N + '::PublicKey'; SIG = N + '::Signature'; T1 = dict(tysub={'A': parse_ty(U8)}, n=N)
        CT = 'std::option::Option<&[u8]>'
        def setup(l):
            st = l.st; c = l.spec(st); g = l.F('g'); sk = l.F('sk'); m = l.sym('Vec<u8>', 'm'); ctx = l.sym(CT, 'ctx'); return st, c, g, sk, m, ctx
        def h(l, m, ctx): return None
        @lem('%s: an honest signature and proof of possession verify; only the signature is accepted' % md)
        def _(l):
            st, c, g, sk, m, ctx = setup(l); st.assume(nz(g))
            for s1, pk in l.must(st, 'PublicKey::new', sk, g, what='key', n=N):
                for s2, sg_ in l.must(s1, 'Signature::new', m, ctx, sk, what='sign', **T1):
                    for s3, b in l.must(s2, 'Signature::verify', sg_, m, ctx, pk, g, what='verify', **T1): l.holds(s3, b, 'honest signature verifies')
                    o = l.sym(SIG, 'o')
                    for s3, b in l.must(s2, 'Signature::verify', o, m, ctx, pk, g, what='verify', **T1):
                        s3.assume(b); l.holds(s3, feq0(rsub(R(c, o, '0'), R(c, sg_, '0'))), 'the accepted signature is the signature')
                for s2, p in l.must(s1, 'ProofOfPossession::new', pk, ctx, sk, what='pop', n=N):
                    for s3, b in l.must(s2, 'ProofOfPossession::verify', p, ctx, pk, g, what='verify pop', n=N): l.holds(s3, b, 'honest proof of possession verifies')
        @lem('%s: the aggregate of the signatures of all signers verifies under the aggregate key, with and without rogue-key coefficients' % md)
        def _(l):
            st, c, g, sk, m, ctx = setup(l); n = app('n', (), 'I'); st.assume(le(ONE, n))
            k = lambda i: app('sk', (i,), 'F'); pks = c.seq((0, n, lambda i: c.mk(PK, **{'0': rmul(g, k(i))})))
            i = fresh_var('I', 'i')
            j = app('j', (), 'I'); st.assume(le(ZERO, j), lt(j, n))
            for s1, sg_ in l.must(st, 'Signature::new_with_rk_mitigation', m, ctx, k(j), j, pks, what='sign', **T1):
                sj = R(c, sg_, '0')
                sigs = c.seq((0, n, lambda i: c.mk(SIG, **{'0': subst(sj, {j: i})})))
                for s2, ag in l.must(s1, 'AggregatedSignature::new', sigs, what='aggregate', n=N):
                    for s3, apk in l.must(s2, 'AggregatedPublicKey::new', pks, what='aggregate key', n=N):
                        for s4, b in l.must(s3, 'AggregatedSignature::verify', ag, m, ctx, apk, g, what='verify', **T1): l.holds(s4, b, 'aggregate verifies')
            for s1, sg_ in l.must(st, 'Signature::new', m, ctx, k(j), what='sign', **T1):
                sj = R(c, sg_, '0')
                sigs = c.seq((0, n, lambda i: c.mk(SIG, **{'0': subst(sj, {j: i})})))
                for s2, ag in l.must(s1, 'AggregatedSignature::new', sigs, what='aggregate', n=N):
                    for s4, b in l.must(s2, 'AggregatedSignature::verify_no_rk', ag, m, ctx, pks, g, what='verify', **T1): l.holds(s4, b, 'aggregate verifies without coefficients')
    _mk2(mod_, pg, sg)
