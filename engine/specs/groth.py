"""Contracts and lemmas for libzmix Groth structure-preserving signatures and delegated credential chains (G01, G02)."""
from contracts import *
from models_amcl import AmclModels
C = {}; LEM = []; TAGS = {}
def con(ident, tags, n=0, **opts):
    def d(f): C[ident] = Contract('zmix', ident, f, n, opts); TAGS[ident] = tags; return f
    return d
def lem(name, props, limit=60):
    def d(f): LEM.append((props, Lemma('zmix', name, f, limit))); return f
    return d
nz = lambda x: not_(feq0(x))
def R(c, v, *p):
    for x in p: v = c.f(v, x)
    return ring(c, v)
def at(c, v, k): return ring(c, c.at(v, k))
def gdot(c, g, f):
    st = c.st; c.st = st.fork().assume(g)
    try: return R0 if contradiction(c.st.pc) else f(c)
    finally: c.st = st
def gtrue(c, g, f):
    st = c.st; c.st = st.fork().assume(g)
    try: return FALSE if contradiction(c.st.pc) else f(c)
    finally: c.st = st
# the generators that play the two roles: (parameter name of the key group generator, of the message group generator)
LV = {1: ('g2', 'g1'), 2: ('g1', 'g2')}
def e0(c, lv, s, vk, pr): return rsub(radd(rmul(at(c, c.f(pr, 'y'), ZERO), R(c, pr, LV[lv][0])), rmul(R(c, pr, LV[lv][1]), R(c, vk, '0'))), rmul(R(c, s, 'S'), R(c, s, 'R')))
def ek(c, lv, s, ms, vk, pr, k): return rsub(radd(rmul(at(c, ms, k), R(c, pr, LV[lv][0])), rmul(at(c, c.f(pr, 'y'), k), R(c, vk, '0'))), rmul(at(c, c.f(s, 'T'), k), R(c, s, 'R')))
def all_eq(c, lv, s, ms, vk, pr): return and_(feq0(e0(c, lv, s, vk, pr)), c.all(0, c.len(ms), lambda k: feq0(ek(c, lv, s, ms, vk, pr, k))))
def fits(c, s, ms, pr): return and_(le(c.len(ms), c.len(c.f(pr, 'y'))), eq(c.len(ms), c.len(c.f(s, 'T'))))
def batch(c, lv, s, ms, vk, pr, r): return feq0(radd(e0(c, lv, s, vk, pr), c.sum(0, c.len(ms), lambda k: rmul(rpow(r, iadd(k, ONE)), ek(c, lv, s, ms, vk, pr, k)))))
def sigT(c, lv, ms, sk, pr, ri): return (0, c.len(ms), lambda k: rmul(radd(at(c, ms, k), rmul(at(c, c.f(pr, 'y'), k), sk)), ri))
def groth(lv):
    S, SG, VK, PR = 'GrothS%d' % lv, 'Groth%dSig' % lv, 'Groth%dVerkey' % lv, 'Groth%dSetupParams' % lv
    gk, gm = LV[lv]
    def msig(c, ms, sk, pr, r):
        return c.mk(SG, R=rmul(R(c, pr, gk), r), S=rmul(radd(at(c, c.f(pr, 'y'), ZERO), rmul(R(c, pr, gm), ring(c, sk))), rinv(r)), T=c.seq(sigT(c, lv, ms, ring(c, sk), pr, rinv(r))))
    @con(S + '::keygen', 'G01 G02')
    def _(c, pr):
        sk = c.wit('sk', nonzero=True, bind=lambda ex, st, v: ring(c, v.fs[0]))
        c.ret(TRUE, Tup([sk, c.mk(VK, **{'0': rmul(R(c, pr, gk), sk)})]))
    @con(SG + '::new', 'G01 G02')
    def _(c, ms, sk, pr):
        y = c.f(pr, 'y'); g = R(c, pr, gk); c.req(lt(ZERO, c.len(y)), nz(g)); good = le(c.len(ms), c.len(y))
        r = c.wit('r', nonzero=True, bind=lambda ex, st, v: rmul(ring(c, ex.getf(st, v.fs[0], 'R')), rinv(g)))
        c.ok(good, c.under(good, lambda c: msig(c, ms, sk, pr, r))); c.err(not_(good))
    @con(SG + '::randomize', 'G01')
    def _(c, s, r):
        r = ring(c, r); c.req(nz(r))
        c.ret(TRUE, c.mk(SG, R=rmul(R(c, s, 'R'), r), S=rmul(R(c, s, 'S'), rinv(r)), T=c.map(lambda v: rmul(ring(c, v), rinv(r)), c.f(s, 'T'))))
    @con(SG + '::verify', 'G01')
    def _(c, s, ms, vk, pr):
        c.req(lt(ZERO, c.len(c.f(pr, 'y')))); g = fits(c, s, ms, pr)
        c.ok(g, gtrue(c, g, lambda c: all_eq(c, lv, s, ms, vk, pr))); c.err(not_(g))
    @con(SG + '::verify_batch', 'G01 G02')
    def _(c, s, ms, vk, pr):
        # sampled combiner: the returned bit is the combined equation for the drawn non-zero r
        c.req(lt(ZERO, c.len(c.f(pr, 'y')))); g = fits(c, s, ms, pr)
        r = c.wit('rr', nonzero=True, bind='any')
        c.ok(g, gtrue(c, g, lambda c: batch(c, lv, s, ms, vk, pr, r))); c.err(not_(g))
    FE = 'Vec<amcl_wrapper::group_elem_g%d::G%d>' % (lv, lv)
    def key(l, st):
        pr = l.sym(PR, 'pr'); c = l.spec(st); st.assume(nz(R(c, pr, gk)), nz(R(c, pr, gm)), lt(ZERO, c.len(c.f(pr, 'y'))))
        sk = fsym('sk'); return pr, sk, c.mk(VK, **{'0': rmul(R(c, pr, gk), sk)})
    @lem('set-up gives one generator per message (group %d)' % lv, ('G01',))
    def _(l):
        st = l.st; n = sym('n', 'I'); st.assume(le(ZERO, n)); b = l.sym('Vec<u8>', 'label')
        for s2, pr in l.must(st, S + '::setup', n, b, what='setup'):
            l.holds(s2, eq(l.spec(s2).len(l.spec(s2).f(pr, 'y')), n), 'n generators')
    @lem('honest signatures verify, one by one and batched, before and after re-randomisation (group %d)' % lv, ('G01',))
    def _(l):
        st = l.st; pr, sk, vk = key(l, st); c = l.spec(st); ms = l.sym(FE, 'ms'); r = fsym('rp'); st.assume(le(c.len(ms), c.len(c.f(pr, 'y'))), nz(r))
        for s2, sg in l.must(st, SG + '::new', ms, sk, pr, what='signing succeeds'):
            for s3, sg2 in [(s2, sg)] + l.must(s2, SG + '::randomize', sg, r, what='randomize returns'):
                for f in ('verify', 'verify_batch'):
                    for s4, b in l.must(s3, SG + '::' + f, sg2, ms, vk, pr, what=f + ' returns'): l.holds(s4, b, f + ' is true')
    @lem('what verify accepts, verify_batch accepts (group %d)' % lv, ('G01',))
    def _(l):
        st = l.st; pr, sk, vk = key(l, st); c = l.spec(st); ms = l.sym(FE, 'ms'); sg = l.sym(SG, 'sg'); st.assume(fits(c, sg, ms, pr))
        for s2, b in l.must(st, SG + '::verify', sg, ms, vk, pr, what='verify returns'):
            s2.assume(b)
            if contradiction(s2.pc): continue
            for s3, b2 in l.must(s2, SG + '::verify_batch', sg, ms, vk, pr, what='verify_batch returns'): l.holds(s3, b2, 'verify_batch is true')
    @lem('changing a signed message is rejected (group %d)' % lv, ('G01',))
    def _(l):
        st = l.st; pr, sk, vk = key(l, st); c = l.spec(st); ms = l.sym(FE, 'ms'); sg = l.sym(SG, 'sg'); d = fsym('d'); j = sym('j', 'I')
        st.assume(fits(c, sg, ms, pr), le(ZERO, j), lt(j, c.len(ms)), nz(d))
        ms2 = c.seq((0, c.len(ms), lambda k: radd(at(c, ms, k), rmul(ind(eq(k, j)), d))))
        for s2, b in l.must(st, SG + '::verify', sg, ms, vk, pr, what='verify returns'):
            s2.assume(b)
            if contradiction(s2.pc): continue
            for s3, b2 in l.must(s2, SG + '::verify', sg, ms2, vk, pr, what='verify returns'): l.holds(s3, not_(b2), 'verify is false after the change')
groth(1); groth(2)

# ---- G02: links and chains
def hasvk(c, l, vk):
    a = c.f(l, 'attributes'); n = c.len(a); g = lt(ZERO, n)
    return and_(g, gtrue(c, g, lambda c: feq0(rsub(at(c, a, isub(n, ONE)), R(c, vk, '0')))))
def valid(c, l, vk, pr): return and_(le(c.len(c.f(l, 'attributes')), c.len(c.f(pr, 'y'))), eq(c.len(c.f(l, 'attributes')), c.len(c.f(l, 'signature', 'T'))), hasvk(c, l, vk))
def getf(c, v, *p):
    for x in p: v = c.f(v, x)
    return v
def link(nm, lv, iss, root):
    L = 'CredLink' + nm; SG = 'Groth%dSig' % lv
    @con(L + '::has_verkey', 'G02')
    def _(c, s, vk): c.ret(TRUE, hasvk(c, s, vk))
    @con(L + '::validate', 'G02')
    def _(c, s, vk, pr):
        g = and_(le(c.len(c.f(s, 'attributes')), c.len(c.f(pr, 'y'))), eq(c.len(c.f(s, 'attributes')), c.len(getf(c, s, 'signature', 'T'))), hasvk(c, s, vk))
        c.ok(g, UNITV); c.err(not_(g))
    @con(L + '::verify', 'G02')
    def _(c, s, vk, dvk, pr):
        c.req(lt(ZERO, c.len(c.f(pr, 'y'))))
        a = c.f(s, 'attributes'); g = and_(le(c.len(a), c.len(c.f(pr, 'y'))), eq(c.len(a), c.len(getf(c, s, 'signature', 'T'))), hasvk(c, s, vk))
        r = c.wit('rr', nonzero=True, bind='any')
        c.ok(g, gtrue(c, g, lambda c: batch(c, lv, c.f(s, 'signature'), a, dvk, pr, r))); c.err(not_(g))
    par = ZERO if iss == 'Even' else ONE
    @con(iss + 'LevelIssuer::new', 'G02')
    def _(c, lvl):
        lvl = c.D(lvl); g = eq(imod(lvl, num(2)), par)
        c.ok(g, c.mk(iss + 'LevelIssuer', level=lvl)); c.err(not_(g))
    def deleg(c, level, attrs, vk, sk, pr):
        y = c.f(pr, 'y'); g = R(c, pr, LV[lv][0]); c.req(nz(g)); good = lt(c.len(attrs), c.len(y))
        r = c.wit('r', nonzero=True, bind=lambda ex, st, v: rmul(ring(c, ex.getf(st, ex.getf(st, v.fs[0], 'signature'), 'R')), rinv(g)))
        def f(c):
            at2 = c.seq(c.D(attrs), R(c, vk, '0')); s0 = rmul(radd(at(c, y, ZERO), rmul(R(c, pr, LV[lv][1]), ring(c, sk))), rinv(r))
            return c.mk(L, level=iadd(level, ONE), attributes=at2, signature=c.mk(SG, R=rmul(g, r), S=s0, T=c.seq((0, c.len(at2), lambda k: rmul(radd(at(c, at2, k), rmul(at(c, y, k), ring(c, sk))), rinv(r))))))
        c.ok(good, c.under(good, f)); c.err(not_(good))
    @con(iss + 'LevelIssuer::delegate', 'G02')
    def _(c, s, attrs, vk, sk, pr): deleg(c, c.D(c.f(s, 'level')), attrs, vk, sk, pr)
    if root:
        @con('RootIssuer::delegate', 'G02')
        def _(c, attrs, vk, sk, pr): deleg(c, ZERO, attrs, vk, sk, pr)
    low = nm.lower(); fld = low + '_links'; first = ONE if nm == 'Odd' else num(2)
    @con('CredChain::extend_with_' + low, 'G02')
    def _(c, s, l):
        lk = c.f(s, fld); n = c.len(lk); lvl = c.D(c.f(l, 'level'))
        c.req(gtrue(c, lt(ZERO, n), lambda c: or_(eq(n, ZERO), lt(c.D(c.f(c.at(lk, isub(n, ONE)), 'level')), num(2 ** 63)))))   # levels are chain positions
        last = gtrue(c, lt(ZERO, n), lambda c: eq(lvl, iadd(c.D(c.f(c.at(lk, isub(n, ONE)), 'level')), num(2))))
        g = and_(eq(imod(lvl, num(2)), imod(first, num(2))), or_(and_(eq(n, ZERO), eq(lvl, first)), and_(lt(ZERO, n), last)))
        new = c.seq(c.D(lk), c.D(l)); oth = 'even_links' if nm == 'Odd' else 'odd_links'
        c.ok(g, UNITV, {0: c.mk('CredChain', **{fld: new, oth: c.D(c.f(s, oth))})}); c.err(not_(g))
    @con('CredChain::get_%s_link' % low, 'G02')
    def _(c, s, i):
        lk = c.f(s, fld); g = lt(c.D(i), c.len(lk))
        c.ok(g, c.under(g, lambda c: c.at(lk, i))); c.err(not_(g))
    @con('CredChain::verify_last_%s_delegation' % low, 'G02')
    def _(c, s, vk, dvk, pr):
        c.req(lt(ZERO, c.len(c.f(pr, 'y'))))
        lk = c.f(s, fld); n = c.len(lk); g = lt(ZERO, n); c.err(not_(g), label='empty')
        def f(c, what):
            l = c.at(lk, isub(n, ONE)); a = c.f(l, 'attributes')
            v = and_(le(c.len(a), c.len(c.f(pr, 'y'))), eq(c.len(a), c.len(getf(c, l, 'signature', 'T'))), hasvk(c, l, vk))
            return v if what is None else gtrue(c, v, lambda c: batch(c, lv, c.f(l, 'signature'), a, dvk, pr, what))
        ok = and_(g, gtrue(c, g, lambda c: f(c, None))); r = c.wit('rr', nonzero=True, bind='any')
        c.ok(ok, gtrue(c, ok, lambda c: f(c, r))); c.err(and_(g, not_(ok)), label='link')
link('Odd', 1, 'Even', True); link('Even', 2, 'Odd', False)
@con('CredChain::size', 'G02')
def _(c, s): c.ret(TRUE, iadd(c.len(c.f(s, 'odd_links')), c.len(c.f(s, 'even_links'))))
def chain(l, st):
    c = l.spec(st); ch = l.sym('CredChain', 'ch'); ev = l.sym('Vec<&Groth1Verkey>', 'ev'); od = l.sym('Vec<&Groth2Verkey>', 'od')
    p1, p2 = l.sym('Groth1SetupParams', 'p1'), l.sym('Groth2SetupParams', 'p2'); a, b = c.len(c.f(ch, 'odd_links')), c.len(c.f(ch, 'even_links'))
    st.assume(lt(ZERO, c.len(c.f(p1, 'y'))), lt(ZERO, c.len(c.f(p2, 'y'))))
    return ch, ev, od, p1, p2, a, b
def link_ok(c, ch, ev, od, p1, p2, odd, k, r=None):
    l = c.at(c.f(ch, 'odd_links' if odd else 'even_links'), k); pr = p1 if odd else p2; lv = 1 if odd else 2
    dee, der = (c.at(od, k), c.at(ev, k)) if odd else (c.at(ev, iadd(k, ONE)), c.at(od, k))
    lvl = iadd(imul(num(2), k), ONE if odd else num(2)); A = c.f(l, 'attributes'); sg = c.f(l, 'signature')
    shape = and_(eq(c.D(c.f(l, 'level')), lvl), lt(ZERO, c.len(A)), le(c.len(A), c.len(c.f(pr, 'y'))), eq(c.len(A), c.len(c.f(sg, 'T'))))
    st = c.st; c.st = st.fork().assume(shape)
    try:
        key = feq0(rsub(at(c, A, isub(c.len(A), ONE)), R(c, dee, '0')))
        return shape, key, and_(feq0(e0(c, lv, sg, der, pr))), (lambda i: feq0(ek(c, lv, sg, A, der, pr, i))), c.len(A)
    finally: c.st = st
@lem('a chain whose links all verify is accepted', ('G02',), 200)
def _(l):
    st = l.st; ch, ev, od, p1, p2, a, b = chain(l, st); c = l.spec(st)
    st.assume(or_(eq(a, b), eq(a, iadd(b, ONE))), le(ONE, a), eq(c.len(ev), iadd(b, ONE)), eq(c.len(od), a))
    for odd, n in ((True, a), (False, b)):
        k = fresh_var('I', 'k'); rng = and_(le(ZERO, k), lt(k, n)); st2 = c.st; c.st = st.fork().assume(rng)
        shape, key, z0, zi, m = link_ok(c, ch, ev, od, p1, p2, odd, k); i = fresh_var('I', 'i'); c.st = st2
        st.assume(forall(k, rng, shape), forall(k, rng, key), forall(k, rng, z0), forall(k, rng, forall(i, and_(le(ZERO, i), lt(i, m)), zi(i))))
    for s2, r in l.must(st, 'CredChain::verify_delegations', ch, ev, od, p1, p2, what='returns'): l.holds(s2, r, 'accepted')
def rnd_names(pc):
    out = []; seen = set()
    def go(t):
        if t in seen: return
        seen.add(t)
        if t.op == 'app' and str(t.args[0]).startswith('rnd') and t.args[0] not in out: out.append(t.args[0])
        for x in args_terms(t): go(x)
    for x in pc: go(x)
    return out
def accepted(odd):
    @lem('in an accepted chain every link at an %s level is consecutive, names its delegatee and is signed by the previous key' % ('odd' if odd else 'even'), ('G02',), 250)
    def _(l):
        st = l.st; ch, ev, od, p1, p2, a, b = chain(l, st); c = l.spec(st); j = sym('j', 'I')
        n, m = (a, b) if odd else (b, a); st.assume(le(ZERO, j), lt(j, n))
        for s2, o in l.run(st, 'CredChain::verify_delegations', ch, ev, od, p1, p2):
            if o[0] != 'ret': l.holds(s2, FALSE, 'no panic'); continue
            v = o[1]
            if isvar(l.spec(s2), v, 'Ok') is FALSE: continue
            for x in list(s2.pc):
                if x.op == 'forall' and x.args[0].sort == 'I':
                    for t in (iadd(imul(num(2), j), ONE), iadd(imul(num(2), j), num(2)), iadd(imul(num(2), a), ONE), iadd(imul(num(2), b), num(2))):
                        s2.assume(subst(x.args[1], {x.args[0]: t}))
            s2.pc = tuple(x for x in s2.pc if x.op != 'forall')        # the instances are enough
            res = v.fs[0]; s2 = s2.fork().assume(isvar(l.spec(s2), v, 'Ok'))
            s2.assume(res)
            if contradiction(s2.pc): continue
            c = l.spec(s2); lv = 1 if odd else 2
            l.holds(s2, and_(or_(eq(a, b), eq(a, iadd(b, ONE))), eq(c.len(ev), iadd(b, ONE)), eq(c.len(od), a)), 'levels alternate and there is one key per level')
            # s3: the link counts are those of an alternating chain
            shape, key, z0, zi, n2 = link_ok(c, ch, ev, od, p1, p2, odd, j)
            l.holds(s2, shape, 'level and number of attributes'); s2.assume(shape); l.holds(s2, key, 'delegatee key')
            lk = c.at(c.f(ch, 'odd_links' if odd else 'even_links'), j); der = c.at(ev, j) if odd else c.at(od, j)
            lvl = iadd(imul(num(2), j), ONE if odd else num(2))
            ok = any(prove(s2.pc, batch(c, lv, c.f(lk, 'signature'), c.f(lk, 'attributes'), der, p1 if odd else p2, fapp(nm, (lvl,)))) for nm in rnd_names(s2.pc))
            l.holds(s2, TRUE if ok else FALSE, 'combined equation of the link signature under the previous key')
accepted(True); accepted(False)
# one honest delegation at each kind of level gives a link that verifies under the delegator's key
def honest(odd):
    lv = 1 if odd else 2; PR = 'Groth%dSetupParams' % lv; iss = 'EvenLevelIssuer' if odd else 'OddLevelIssuer'; L_ = 'CredLinkOdd' if odd else 'CredLinkEven'
    vkn, dvkn = ('Groth2Verkey', 'Groth1Verkey') if odd else ('Groth1Verkey', 'Groth2Verkey')
    @lem('an honest delegation gives a link that verifies and extends the chain at its level (%s level)' % ('odd' if odd else 'even'), ('G02',), 120)
    def _(l):
        st = l.st; pr = l.sym(PR, 'pr'); c = l.spec(st); gk = LV[lv][0]; lvl = sym('lvl', 'I')
        st.assume(nz(R(c, pr, gk)), lt(ZERO, c.len(c.f(pr, 'y'))), le(ZERO, lvl), lt(lvl, num(2 ** 62)), eq(imod(lvl, num(2)), ZERO if odd else ONE))
        sk = fsym('sk'); vk = l.sym(vkn, 'dvk'); dvk = c.mk(dvkn, **{'0': rmul(R(c, pr, gk), sk)}); at_ = l.sym('Vec<amcl_wrapper::group_elem_g%d::G%d>' % (lv, lv), 'attrs')
        st.assume(lt(c.len(at_), c.len(c.f(pr, 'y'))))
        for s2, i in l.must(st, iss + '::new', lvl, what='issuer'):
            for s3, lk in l.must(s2, iss + '::delegate', i, at_, vk, sk, pr, what='delegation succeeds'):
                for s4, b in l.must(s3, L_ + '::verify', lk, vk, dvk, pr, what='link check returns'): l.holds(s4, b, 'link verifies')
                c = l.spec(s3); ch = l.sym('CredChain', 'ch'); f = 'odd_links' if odd else 'even_links'; n = c.len(c.f(ch, f)); first = ONE if odd else num(2)
                s5 = s3.fork()
                # a chain whose links are at consecutive levels, and a delegation at the next level
                j = fresh_var('I', 'j'); s5.assume(eq(iadd(lvl, ONE), iadd(imul(num(2), n), first)))
                s5.assume(forall(j, and_(le(ZERO, j), lt(j, n)), eq(c.D(c.f(l.spec(s5.fork().assume(and_(le(ZERO, j), lt(j, n)))).at(c.f(ch, f), j), 'level')), iadd(imul(num(2), j), first))))
                m = l.mut(s5, ch)
                for s6, _r in l.must(s5, 'CredChain::extend_with_' + ('odd' if odd else 'even'), m, lk, what='the link extends the chain'):
                    c = l.spec(s6); l.eq(s6, c.D(c.f(c.D(m), f)), c.seq(c.D(c.f(ch, f)), lk), 'chain plus the link')
honest(True); honest(False)
@con('CredChain::get_truncated', 'G02')
def _(c, s, n):
    n = c.D(n); od, ev = c.f(s, 'odd_links'), c.f(s, 'even_links'); a, b = c.len(od), c.len(ev)
    c.req(or_(eq(a, b), eq(a, iadd(b, ONE)))); g = le(n, iadd(a, b))
    at_ = lambda v, k: c.at(v, k)
    c.ok(g, c.under(g, lambda c: c.mk('CredChain', odd_links=c.seq((1, iadd(n, ONE), lambda k: c.at(od, idiv(k, num(2))), lambda k: eq(imod(k, num(2)), ONE))),
                                      even_links=c.seq((1, iadd(n, ONE), lambda k: c.at(ev, isub(idiv(k, num(2)), ONE)), lambda k: not_(eq(imod(k, num(2)), ONE))))))); c.err(not_(g))
# the batched chain check, for chains of one, two and three links (any number of attributes)
def batched(size):
    @lem('batched verification of a chain of %d link%s accepts exactly the combined equation of all links' % (size, 's' if size > 1 else ''), ('G02',), 120)
    def _(l):
        st = l.st; c = l.spec(st); p1, p2 = l.sym('Groth1SetupParams', 'p1'), l.sym('Groth2SetupParams', 'p2'); st.assume(lt(ZERO, c.len(c.f(p1, 'y'))), lt(ZERO, c.len(c.f(p2, 'y'))))
        no, ne = (size + 1) // 2, size // 2
        od_ = [l.sym('CredLinkOdd', 'o%d' % i) for i in range(no)]; ev_ = [l.sym('CredLinkEven', 'e%d' % i) for i in range(ne)]
        ek_ = [l.sym('Groth1Verkey', 'ek%d' % i) for i in range(ne + 1)]; ok_ = [l.sym('Groth2Verkey', 'ok%d' % i) for i in range(no)]
        ch = c.mk('CredChain', odd_links=Seq([One(x) for x in od_]), even_links=Seq([One(x) for x in ev_]))
        tot = lambda r, off, lv, lk, dvk, pr: radd(rmul(rpow(r, off), e0(c, lv, c.f(lk, 'signature'), dvk, pr)),
            c.sum(0, c.len(c.f(lk, 'attributes')), lambda k: rmul(rpow(r, iadd(iadd(off, k), ONE)), ek(c, lv, c.f(lk, 'signature'), c.f(lk, 'attributes'), dvk, pr, k))))
        for s2, o in l.run(st, 'CredChain::verify_delegations_batched', ch, Seq([One(x) for x in ek_]), Seq([One(x) for x in ok_]), p1, p2):
            if o[0] != 'ret': l.holds(s2, FALSE, 'no panic'); continue
            c = l.spec(s2); good = []; links = []
            for i in range(1, size + 1):
                odd = i % 2 == 1; lk = od_[i // 2] if odd else ev_[i // 2 - 1]; pr = p1 if odd else p2; lv = 1 if odd else 2
                dee, der = (ok_[i // 2], ek_[i // 2]) if odd else (ek_[i // 2], ok_[i // 2 - 1]); A = c.f(lk, 'attributes')
                good.append(and_(eq(c.D(c.f(lk, 'level')), num(i)), le(c.len(A), c.len(c.f(pr, 'y'))), eq(c.len(A), c.len(getf(c, lk, 'signature', 'T'))), hasvk(c, lk, dee)))
                links.append((lv, lk, der, pr))
            g = and_(*good); v = o[1]
            if isvar(c, v, 'Ok') is FALSE: l.holds(s2, not_(g), 'rejected only when a link is malformed'); continue
            l.holds(s2, g, 'accepted links are well formed'); s2.assume(g)
            done = False; seen = []
            def cand(x):
                if x.op == 'sym' and str(x.args[0]).startswith('rnd') and x not in seen: seen.append(x)
                for y in args_terms(x): cand(y)
            for x in vterms(v.fs[0]): cand(x)
            for r in seen:
                r = fromatom(r); t = R0; off = ZERO
                for lv, lk, der, pr in links: t = radd(t, tot(r, off, lv, lk, der, pr)); off = iadd(off, iadd(c.len(c.f(lk, 'attributes')), ONE))
                if prove_eq(s2.pc, v.fs[0], feq0(t)): done = True
            l.holds(s2, TRUE if done else FALSE, 'value is the combined equation')
for n in (1, 2, 3): batched(n)
CRATES = ['zmix']; MODELS = AmclModels
