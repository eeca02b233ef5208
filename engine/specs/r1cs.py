"""Contracts and lemmas for the Bulletproofs inner-product argument, constraint systems and gadgets (R01-R03)."""
from contracts import *
import functools
from terms import mons
from models_r1cs import R1CSModels, F, D
CRATES = ['bulletproofs_amcl']; CRATE = 'bulletproofs_amcl'; MODELS = R1CSModels
C = {}; LEM = []; TAGS = {}
def con(ident, props, n=0, **opts):
    def d(f): C['%s#%s' % (ident, n)] = Contract(CRATE, ident, f, n, opts); TAGS['%s#%s' % (ident, n)] = props; return f
    return d
def lem(name, props, limit=120):
    def d(f): LEM.append((props, Lemma(CRATE, name, f, limit))); return f
    return d
nz = lambda x: not_(feq0(x))
FE, GE = 'amcl_wrapper::field_elem::FieldElement', 'amcl_wrapper::group_elem_g1::G1'
def vec(l, name, n): return Seq([One(l.F('%s%d' % (name, i))) for i in range(n)])
def items(v): return [g.v for g in v.segs]
def dot(xs, ys):
    t = rnum(0)
    for x, y in zip(xs, ys): t = radd(t, rmul(x, y))
    return t
# ---------------------------------------------------------------- R01: inner-product argument
CI, VI, VS = 'IPP::create_ipp', 'IPP::verify_ipp', 'IPP::verification_scalars'
def ipp(l, n):
    v = {k: vec(l, k, n) for k in ('g', 'h', 'a', 'b', 'gf', 'hf')}; v['u'] = l.F('u'); v['t'] = l.sym('merlin::Transcript', 't')
    i = {k: items(v[k]) for k in ('g', 'h', 'a', 'b', 'gf', 'hf')}
    had = lambda x, y: [rmul(p, q) for p, q in zip(x, y)]
    v['P'] = radd(radd(dot(i['g'], had(i['a'], i['gf'])), dot(i['h'], had(i['b'], i['hf']))), rmul(dot(i['a'], i['b']), v['u']))
    return v
def honest(n):
    def f(l):
        v = ipp(l, n); st = l.st
        for s1, pr in l.must(st, CI, l.mut(st, v['t']), v['u'], v['gf'], v['hf'], v['g'], v['h'], v['a'], v['b'], what='create_ipp'):
            p = {k: l.ex.getf(s1, pr, k) for k in ('L', 'R', 'a', 'b')}
            l.must(s1, VI, num(n), l.mut(s1, v['t']), v['gf'], v['hf'], v['P'], v['u'], v['g'], v['h'], p['a'], p['b'], p['L'], p['R'], what='verify_ipp')
    return f
for n in (1, 2, 4, 8, 16, 32, 64): lem('R01.honest inner-product proofs verify, length %d' % n, ('R01',), 300)(honest(n))
def refuses(l, st, ident, *args, what, n=0):
    """the call returns Err on every path (and does not panic)"""
    bad = []; t0 = time.time(); k = 0
    for s2, o in l.run(st, ident, *args, n=n):
        if contradiction(s2.pc): continue
        if o[0] == 'panic': bad.append('panics (%s) under %s' % (o[1], short(s2.pc, 2000))); continue
        for s3, v in models.cases(l.ex, s2, o[1]):
            if contradiction(s3.pc): continue
            k += 1
            if v.vn != 'Err': bad.append('accepted under %s' % short([c for c in s3.pc if c not in st.pc], 600))
    l.res.add('%s#%s' % (l.name, what), 'failed' if bad else 'proved' if k else 'undecided', '\n'.join(bad) or ('' if k else 'vacuous'), time.time() - t0)
GV, FV = 'Vec<%s>' % GE, 'Vec<%s>' % FE
def mismatch(which):
    """vectors of any lengths, one of which is inconsistent"""
    def f(l):
        st = l.st.fork(); n = sym('n', 'I'); st.assume(le(ZERO, n)).assume(lt(n, num(1 << 31)))
        v = {k: l.sym(GV if k in 'gh' or k in 'LR' else FV, k) for k in ('g', 'h', 'gf', 'hf', 'L', 'R')}
        ln = {k: l.ex.seq_len(v[k]) for k in v}
        if which == 'rounds': st.assume(not_(eq(ln['L'], ln['R'])))
        elif which == 'power': v['L'] = vec(l, 'L', 3); v['R'] = vec(l, 'R', 3); st.assume(not_(eq(n, num(8))))
        elif which == 'many': st.assume(le(num(32), ln['L'])).assume(lt(n, num(1 << 31)))
        else: st.assume(not_(eq(ln[which], n)))
        refuses(l, st, VI, n, l.mut(st, l.sym('merlin::Transcript', 't')), v['gf'], v['hf'], l.F('P'), l.F('u'), v['g'], v['h'], l.F('a'), l.F('b'), v['L'], v['R'], what=which)
    return f
def rounds_of(m):
    def f(l):
        for n in range(10):
            if n == 1 << m: continue
            st = l.st.fork(); refuses(l, st, VI, num(n), l.mut(st, l.sym('merlin::Transcript', 't')), vec(l, 'gf', n), vec(l, 'hf', n), l.F('P'), l.F('u'), vec(l, 'g', n), vec(l, 'h', n), l.F('a'), l.F('b'), vec(l, 'L', m), vec(l, 'R', m), what='%d elements' % n)
    return f
for m in range(4): lem('R01.inner-product proofs of %d rounds are refused for any other number of elements' % m, ('R01',))(rounds_of(m))
for k, w in (('g', 'G generators'), ('h', 'H generators'), ('gf', 'G factors'), ('hf', 'H factors'), ('rounds', 'R rounds'), ('power', 'elements'), ('many', 'rounds, 32 or more of them')):
    lem('R01.inner-product proofs with another number of %s are refused' % w, ('R01',))(mismatch(k))
def bstr(b): return Seq([One(num(x)) for x in b])
def challenges(l, t, n, L, R):
    """the challenges of the rounds: hashes of the domain, the length and all commitments so far"""
    st = l.st.fork(); t = l.mut(st, t); xs = []
    def run(*a):
        nonlocal st
        for st, o in l.run(st, *a): pass
        return o[1]
    run(TP + 'innerproduct_domain_sep', t, num(n))
    for x, y in zip(L, R): run(TP + 'commit_point', t, bstr(b'L'), x); run(TP + 'commit_point', t, bstr(b'R'), y); xs.append(run(TP + 'challenge_scalar', t, bstr(b'x')))
    return xs
def scalars(m):
    """s_i is the product of the challenges, each inverted where the bit of i is not set"""
    def f(l):
        L, Rv = vec(l, 'L', m), vec(l, 'R', m); t = l.sym('merlin::Transcript', 't'); st = l.st; n = 1 << m
        tm = l.mut(st, t)
        for s1, r in l.must(st, VS, L, Rv, num(n), tm, what='verification_scalars'):
            sq, isq, s = (items(x) for x in r.fs)
            l.res.add(l.name + '#lengths', 'proved' if (len(sq), len(isq), len(s)) == (m, m, n) else 'failed', '%s' % ((len(sq), len(isq), len(s)),), 0)
            xs = challenges(l, t, n, items(L), items(Rv))
            for i in range(m):
                l.eq(s1, sq[i], rmul(xs[i], xs[i]), 'x%d^2' % i); l.eq(s1, isq[i], rinv(rmul(xs[i], xs[i])), 'x%d^-2' % i)
            for i in range(n):
                e = rnum(1)
                for j in range(m): e = rmul(e, xs[m - 1 - j] if i >> j & 1 else rinv(xs[m - 1 - j]))
                l.eq(s1, s[i], e, 's%d' % i)
    return f
def equation(m):
    """a proof is accepted exactly when the verification equation of the paper holds"""
    def f(l):
        n = 1 << m; v = ipp(l, n); L, Rv = vec(l, 'L', m), vec(l, 'R', m); st = l.st.fork(); a, b, P = l.F('pa'), l.F('pb'), l.F('P')
        xs = challenges(l, v['t'], n, items(L), items(Rv)); E = rmul(rmul(a, b), v['u'])
        for i in range(n):
            s = rnum(1)
            for j in range(m): s = rmul(s, xs[m - 1 - j] if i >> j & 1 else rinv(xs[m - 1 - j]))
            E = radd(E, radd(rmul(rmul(a, s), rmul(items(v['gf'])[i], items(v['g'])[i])), rmul(rmul(b, rinv(s)), rmul(items(v['hf'])[i], items(v['h'])[i]))))
        for i in range(m): E = rsub(E, radd(rmul(rmul(xs[i], xs[i]), items(L)[i]), rmul(rinv(rmul(xs[i], xs[i])), items(Rv)[i])))
        args = lambda s: (num(n), l.mut(s, v['t']), v['gf'], v['hf'], P, v['u'], v['g'], v['h'], a, b, L, Rv)
        s1 = st.fork().assume(feq0(rsub(E, P))); l.must(s1, VI, *args(s1), what='accepted where it holds')
        s2 = st.fork().assume(not_(feq0(rsub(E, P)))); refuses(l, s2, VI, *args(s2), what='refused where it does not')
    return f
for m in (0, 1, 2, 3): lem('R01.verification decides the equation, length %d' % (1 << m), ('R01',))(equation(m))
TP = 'Transcript as TranscriptProtocol::'
for m in (0, 1, 2, 3): lem('R01.verification scalars in closed form, %d rounds' % m, ('R01',))(scalars(m))
# ---------------------------------------------------------------- R02: linear combinations
LCT, VART = 'r1cs::linear_combination::LinearCombination', 'r1cs::linear_combination::Variable'
LCs = 'LinearCombination as '
def rho(ex, st, v):
    """the value an arbitrary assignment gives to a variable"""
    v = D(ex, st, v)
    if isinstance(v, IteV): return ite(v.c, rho(ex, st, v.a), rho(ex, st, v.b))
    return rnum(1) if v.vn == 'One' else fapp('rho.' + v.vn, (v.fs[0],))
def total(ex, st, terms, val):
    """sum of coefficient * value over a sequence of (variable, coefficient)"""
    def seg(g):
        if isinstance(g, One): p = D(ex, st, g.v); return rmul(val(p.fs[0]), F(ex, st, p.fs[1]))
        r = R0
        for x in g.body: r = radd(r, seg(x))
        return rmul(ind(g.cond), r) if isinstance(g, Guard) else rsum(g.var, g.cond, r)
    t = R0
    for g in D(ex, st, terms).segs: t = radd(t, seg(g))
    return t
def isvariable(v): return isvariable(v.a) if isinstance(v, IteV) else isinstance(v, Adt) and v.path.endswith('Variable')
def lcval(l, st, v):
    """the value of anything that converts to a linear combination"""
    ex = l.ex; v = D(ex, st, v)
    if isinstance(v, T) and v.sort == 'F': return v
    if isvariable(v): return rho(ex, st, v)
    return total(ex, st, ex.getf(st, v, 'terms'), lambda x: rho(ex, st, x))
def lcop(ident, n, lt_, rt, want):
    def f(l):
        a = l.sym(lt_, 'a'); args = [a]; ts = {}
        if rt: b = l.sym(rt, 'b'); args.append(b); ts = {'L': parse_ty(rt)}
        st = l.st.fork(); w = want(*[lcval(l, st, x) for x in args])
        for s1, v in l.must(st, ident, *args, n=n, tysub=ts, what='returns'): l.eq(s1, lcval(l, s1, v), w, 'value')
    return f
sub2, add2, mul2, neg1, id1 = (lambda x, y: rsub(x, y)), radd, (lambda x, y: rmul(x, y)), rneg, (lambda x: x)
for rt, rn in ((LCT, 'combination'), (VART, 'variable'), (FE, 'scalar')):
    for lt_, ln, A, S in ((LCT, 'combination', LCs + 'Add::add', LCs + 'Sub::sub'), (VART, 'variable', 'Variable as Add::add', 'Variable as Sub::sub')):
        lem('R02.%s plus %s' % (ln, rn), ('R02',))(lcop(A, 0, lt_, rt, add2)); lem('R02.%s minus %s' % (ln, rn), ('R02',))(lcop(S, 0, lt_, rt, sub2))
lem('R02.variable negated', ('R02',))(lcop('Variable as Neg::neg', 0, VART, None, neg1))
for i, n, rt, what, f in (('Mul', 0, LCT, 'times combination', mul2), ('Mul', 1, VART, 'times variable', mul2), ('Add', 0, VART, 'plus variable', add2), ('Sub', 0, VART, 'minus variable', sub2)):
    lem('R02.scalar ' + what, ('R02',))(lcop('FieldElement as %s::%s' % (i, i.lower()), n, FE, rt, f))
lem('R02.scalar reference times combination', ('R02',))(lcop('&FieldElement as Mul::mul', 0, FE, LCT, mul2))
for n, t in ((0, VART), (1, FE)): lem('R02.conversion of a ' + ('scalar' if n else 'variable'), ('R02',))(lcop(LCs + 'From::from', n, t, None, id1))
def absent(ident, want, vs):
    """the same over a list of concrete variables (in place updates and hash maps: bounded in the number of terms)"""
    def f(l):
        a = lcomb([(x, l.F('c%d' % i)) for i, x in enumerate(vs)]); st = l.st.fork(); w = want(lcval(l, st, a))
        for s1, v in l.must(st, ident, a, what='returns'): l.eq(s1, lcval(l, s1, v), w, 'value')
    return f
VSETS = lambda: ([], [var('One')], [var('Committed', 0), var('One')], [var('MultiplierLeft', 0), var('MultiplierRight', 0), var('MultiplierLeft', 0), var('MultiplierOutput', 0), var('One'), var('One')])
for i in range(4):
    lem('R02.combination of %d terms negated' % (0, 1, 2, 6)[i], ('R02',))(lambda l, i=i: absent(LCs + 'Neg::neg', neg1, VSETS()[i])(l))
    lem('R02.simplify keeps the value of %d terms' % (0, 1, 2, 6)[i], ('R02',))(lambda l, i=i: absent('LinearCombination::simplify', id1, VSETS()[i])(l))
for n, t in ((0, 'Vec<(%s, %s)>' % (VART, FE)), (1, '&Vec<(%s, %s)>' % (VART, FE))):
    def f(l, n=n, t=t):
        a = l.sym('Vec<(%s, %s)>' % (VART, FE), 'a'); w = total(l.ex, l.st, a, lambda x: rho(l.ex, l.st, x))
        for s1, v in l.must(l.st, LCs + 'FromIterator::from_iter', a, n=n, tysub={'T': parse_ty(t)}, what='returns'): l.eq(s1, lcval(l, s1, v), w, 'value')
    lem('R02.collected from %s' % ('references' if n else 'terms'), ('R02',))(f)
# ---------------------------------------------------------------- R02: prover and verifier of a circuit
VP = 'r1cs::linear_combination::Variable'
KINDS = ('Committed', 'MultiplierLeft', 'MultiplierRight', 'MultiplierOutput', 'One')
def var(kind, i=0): return Adt(VP, KINDS.index(kind), kind, [] if kind == 'One' else [num(i)])
def lcomb(ts): return Adt(LCT, 0, 'LinearCombination', [Seq([One(Tup([v, c])) for v, c in ts])])
class Side:
    """a prover or a verifier driven by a lemma: every call must return on exactly one path"""
    def __init__(s, l, st, kind, t):
        s.l = l; s.st = st; s.kind = kind; s.t = l.mut(st, t); s.g, s.h = l.F('g'), l.F('h'); s.V = []
        s.obj = s.call(kind + '::new', *((s.g, s.h, s.t) if kind == 'Prover' else (s.t,))); s.ref = l.mut(s.st, s.obj)
    def call(s, ident, *a, **k):
        r = s.l.must(s.st, ident, *a, **k)
        if len(r) != 1: raise Unsupported('%s: %d paths; %s' % (ident, len(r), [__import__("execu").show_short(c) for q in r[:2] for c in q[0].pc[-2:]]))
        s.st = r[0][0]; return r[0][1]
    def cs(s, m, *a, **k): return s.call('%s as ConstraintSystem::%s' % (s.kind, m), s.ref, *a, **k)
    def meth(s, m, *a, **k): return s.call('%s::%s' % (s.kind, m), *a, **k)
    def value(s): return models.D(s.l.ex, s.st, s.l.ex.read(s.st, (s.ref.fid, s.ref.local), s.ref.projs))
def wires(v, m, n):
    """values of all variables under the assignment"""
    out = [(var('Committed', j), v['v'][j]) for j in range(m)]
    for i in range(n): out += [(var('MultiplierLeft', i), v['l'][i]), (var('MultiplierRight', i), v['r'][i]), (var('MultiplierOutput', i), rmul(v['l'][i], v['r'][i]))]
    return out
def circuit(l, m, n, q, pad=0):
    v = {k: [l.F('%s%d' % (k, i)) for i in range(c)] for k, c in (('v', m), ('vb', m), ('l', n), ('r', n))}
    W = wires(v, m, n); P = 1
    while P < n: P *= 2
    v['G'] = vec(l, 'G', P + pad); v['H'] = vec(l, 'H', P + pad); cons = []
    for j in range(q):
        ts = [(x, l.F('c%d.%d' % (j, i))) for i, (x, _) in enumerate(W)]; e = rnum(0)
        for (x, c), (_, w) in zip(ts, W): e = radd(e, rmul(c, w))
        cons.append(lcomb(ts + [(var('One'), rneg(e))]))
    return v, cons
def some_pair(a, b): return some(Tup([a, b]))
def prove_verify(m, n, q, pad=0):
    def f(l):
        v, cons = circuit(l, m, n, q, pad); t = l.sym('merlin::Transcript', 't')
        p = Side(l, l.st.fork(), 'Prover', t); V = []
        for j in range(m): V.append(p.meth('commit', p.ref, v['v'][j], v['vb'][j]).fs[0])
        for i in range(n): p.cs('allocate_multiplier', some_pair(v['l'][i], v['r'][i]))
        for c in cons: p.cs('constrain', c)
        proof = p.meth('prove', p.value(), v['G'], v['H'], what='prove')
        w = Side(l, p.st, 'Verifier', t)
        for j in range(m): w.meth('commit', w.ref, V[j])
        for i in range(n): w.cs('allocate_multiplier', none())
        for c in cons: w.cs('constrain', c)
        w.meth('verify', w.value(), proof, w.g, w.h, v['G'], v['H'], what='verify')
    return f
for m, n, q, pad in ((1, 0, 1, 0), (0, 1, 1, 0), (1, 1, 2, 1), (1, 2, 2, 0), (2, 3, 2, 0)):
    lem('R02.a satisfied circuit of %d multipliers, %d commitments and %d constraints proves and verifies' % (n, m, q), ('R02',), 400)(prove_verify(m, n, q, pad))
from terms import args_terms
def subterms(t, seen=None):
    seen = set() if seen is None else seen; st = [t]
    while st:
        x = st.pop()
        if id(x) in seen: continue
        seen.add(id(x)); yield x
        st += list(args_terms(x))
def symnames(t): return {str(x.args[0]) for x in subterms(t) if x.op == 'sym'}
def fe(x): return x if x.op == 'poly' else fromatom(x)
class Chal:
    """the challenges that occur in the decision of the verifier, by label and by what they were drawn after"""
    def __init__(s, conds):
        s.all = {}
        for c in conds:
            for x in subterms(c):
                if x.op == 'app' and x.args[0] == 'rnd.nz.chal':
                    lb = ''.join(chr(y.args[0]) for y in label_bytes(x.args[2])); s.all[id(x)] = (lb, symnames(x.args[1]), x)
    def get(s, lb, has=(), hasnot=()):
        r = [x for l, n, x in s.all.values() if l == lb and all(h in n for h in has) and not any(h in n for h in hasnot)]
        if not r: return fapp('rnd.nz.chal', (sstr('not drawn'), sstr(lb)))
        if len(r) != 1: raise Unsupported('%d challenges %s after %s' % (len(r), lb, ','.join(has)))
        return r[0]
def label_bytes(t):
    out = []
    def go(v):
        if isinstance(v, tuple):
            for x in v: go(x)
        elif isinstance(v, T) and v.op == 'num': out.append(v)
    go(t.args[0] if t.op == 'val' else (t,)); return out
POINTS, SCALARS = ('A_I1', 'A_O1', 'S1', 'A_I2', 'A_O2', 'S2', 'T_1', 'T_3', 'T_4', 'T_5', 'T_6'), ('t_x', 't_x_blinding', 'e_blinding')
def verifier(l, m, n, q):
    """a verifier of the dense circuit of q constraints, with any commitments, any coefficients and any proof"""
    P = 1
    while P < n: P *= 2
    k = P.bit_length() - 1; V = [l.F('V%d' % j) for j in range(m)]; st = l.st.fork()
    W = [var('Committed', j) for j in range(m)] + [var(x, i) for i in range(n) for x in KINDS[1:4]] + [var('One')]
    co = [[(x, l.F('c%d.%d' % (j, i))) for i, x in enumerate(W)] for j in range(q)]
    d = {x: l.F(x) for x in POINTS + SCALARS}
    ip = {'a': l.F('ia'), 'b': l.F('ib'), 'L': vec(l, 'L', k), 'R': vec(l, 'R', k)}
    c = l.spec(st); proof = c.mk('R1CSProof', ipp_proof=c.mk('InnerProductArgumentProof', **ip), **d)
    w = Side(l, st, 'Verifier', l.sym('merlin::Transcript', 't'))
    for v in V: w.meth('commit', w.ref, v)
    for i in range(n): w.cs('allocate_multiplier', none())
    for x in co: w.cs('constrain', lcomb(x))
    return w, proof, dict(d, V=V, G=vec(l, 'G', P), H=vec(l, 'H', P), co=co, P=P, k=k, m=m, n=n, **ip)
def ok_conditions(l, w, args):
    """what the accepting paths assume"""
    out = []
    for s2, o in l.run(w.st.fork(), 'Verifier::verify', w.value(), *args):
        if contradiction(s2.pc): continue
        if o[0] == 'panic': l.res.add(l.name + '#no panic', 'failed', 'panics (%s) under %s' % (o[1], repr(s2.pc)[:2000]), 0); raise Failed('panic')
        for s3, v in models.cases(l.ex, s2, o[1]):
            if not contradiction(s3.pc) and v.vn == 'Ok': out.append([c for c in s3.pc if c not in w.st.pc])
    return out
def residuals(l, w, v, ch):
    """the two equations of the proof system: for t(x), and for l(x), r(x) and their inner product"""
    y, z, u, x, ww = (ch.get(*a) for a in (('y',), ('z',), ('u',), ('x', (), ('t_x',)), ('w',)))
    y, z, u, x, ww = map(fe, (y, z, u, x, ww)); n, m, P, k = v['n'], v['m'], v['P'], v['k']
    us = [fe(ch.get('x', ('L%d' % j,), ('L%d' % (j + 1),))) for j in range(k)]
    wt = {kd: [rnum(0)] * max(n, m, 1) for kd in KINDS}; ez = z
    for lc in v['co']:
        for q, c in lc:
            i = q.fs[0].args[0] if q.fs else 0; wt[q.vn][i] = radd(wt[q.vn][i], rmul(ez, c))
        ez = rmul(ez, z)
    wL, wR, wO, wV, wc = wt['MultiplierLeft'], wt['MultiplierRight'], wt['MultiplierOutput'], [rneg(a) for a in wt['Committed']], rneg(wt['One'][0])
    pw = lambda b, e: rnum(1) if e == 0 else rmul(b, pw(b, e - 1))
    yi = rinv(y); delta = rnum(0)
    for i in range(n): delta = radd(delta, rmul(rmul(pw(yi, i), wR[i]), wL[i]))
    x2 = rmul(x, x)
    B = rsub(rsub(rmul(rmul(x2, radd(wc, delta)), w.g), rmul(v['t_x'], w.g)), rmul(v['t_x_blinding'], w.h))
    for j in range(m): B = radd(B, rmul(x2, rmul(wV[j], v['V'][j])))
    for e, T_ in ((1, 'T_1'), (3, 'T_3'), (4, 'T_4'), (5, 'T_5'), (6, 'T_6')): B = radd(B, rmul(pw(x, e), v[T_]))
    A = rsub(rmul(rmul(ww, rsub(v['t_x'], rmul(v['a'], v['b']))), w.g), rmul(v['e_blinding'], w.h))
    for e, p1, p2 in ((1, 'A_I1', 'A_I2'), (2, 'A_O1', 'A_O2'), (3, 'S1', 'S2')): A = radd(A, rmul(pw(x, e), radd(v[p1], rmul(u, v[p2]))))
    for i in range(P):
        s = rnum(1); f = rnum(1) if i < n else u; inn = i < n
        for j in range(k): s = rmul(s, us[k - 1 - j] if i >> j & 1 else rinv(us[k - 1 - j]))
        gs = rsub(rmul(x, rmul(pw(yi, i), wR[i])) if inn else rnum(0), rmul(v['a'], s))
        hs = rsub(rmul(pw(yi, i), rsub(radd(rmul(x, wL[i]), wO[i]) if inn else rnum(0), rmul(v['b'], rinv(s)))), rnum(1))
        A = radd(A, radd(rmul(rmul(f, gs), items(v['G'])[i]), rmul(rmul(f, hs), items(v['H'])[i])))
    for j in range(k): A = radd(A, radd(rmul(rmul(us[j], us[j]), items(v['L'])[j]), rmul(rinv(rmul(us[j], us[j])), items(v['R'])[j])))
    return A, B
def decides(m, n, q):
    def f(l):
        w, proof, v = verifier(l, m, n, q); args = (proof, w.g, w.h, v['G'], v['H'])
        oks = ok_conditions(l, w, args); ch = Chal([c for o in oks for c in o]); A, B = residuals(l, w, v, ch)
        seen = set(['V%d' % j for j in range(m)] + list(POINTS[:6]))
        for lb, more, hasnot in (('y', (), ()), ('z', (), ()), ('u', POINTS[6:], ()), ('x', POINTS[6:], ('t_x',)), ('w', POINTS[6:] + SCALARS, ())):
            c = ch.get(lb, (), hasnot); need = seen | set(more); have = symnames(c)
            if 'not drawn' in [str(y.args[0]) for y in subterms(c) if y.op == 'str']: continue
            l.res.add('%s#challenge %s depends on everything committed before' % (l.name, lb), 'proved' if need <= have else 'failed', 'not on %s' % sorted(need - have), 0)
        rs = {x for o in oks for c in o for x in subterms(c) if x.op in ('sym', 'app') and str(x.args[0]).startswith('rnd') and not str(x.args[0]).startswith('rnd.nz.chal')}
        if len(rs) == 1 and len(oks) == 1 and oks[0] == [feq0(radd(A, rmul(fe(list(rs)[0]), B)))]:
            # accepted exactly where A + r*B is zero for one random r: both equations
            for s_ in ('accepted where both equations hold', 'refused where one does not'): l.res.add('%s#%s' % (l.name, s_), 'proved', '', 0)
            s1 = w.st.fork().assume(feq0(A)).assume(feq0(B)); l.must(s1, 'Verifier::verify', w.value(), *args, what='no panic'); return
        for ca, cb, what in ((1, 1, 'accepted where both equations hold'), (0, 1, 'refused where l(x), r(x) or their product is not as committed'), (1, 0, 'refused where t(x) is not as committed')):
            s1 = w.st.fork().assume(feq0(A) if ca else not_(feq0(A))).assume(feq0(B) if cb else not_(feq0(B)))
            if ca and cb: l.must(s1, 'Verifier::verify', w.value(), *args, what=what)
            else: refuses(l, s1, 'Verifier::verify', w.value(), *args, what=what)
    return f
for m, n, q in ((1, 0, 1), (0, 1, 1), (1, 2, 2), (1, 3, 2)):
    lem('R02.verification decides both equations, %d multipliers, %d commitments and %d constraints' % (n, m, q), ('R02',), 400)(decides(m, n, q))
def mixed(l, p, v):
    """one call of every way to allocate wires; returns the variables"""
    pr = p.kind == 'Prover'; a = p.cs('allocate', some(v[0]) if pr else none(), what='allocate')
    b = p.cs('allocate_single', some(v[1]) if pr else none(), what='allocate_single'); x, o = b.fs
    lr = p.cs('allocate_multiplier', some_pair(v[2], v[3]) if pr else none(), what='allocate_multiplier')
    L1 = lcomb([(a.fs[0] if a.vn == 'Ok' else a, l.F('k0')), (var('One'), l.F('k1'))]); L2 = lcomb([(x, l.F('k2')), (lr.fs[2], l.F('k3'))])
    mm = p.cs('multiply', L1, L2, what='multiply')
    return a, x, o, lr, mm
def allocations(l):
    """every way to allocate wires: prover and verifier agree on the variables, and what they allocate proves and verifies"""
    v = [l.F('s%d' % i) for i in range(4)]; t = l.sym('merlin::Transcript', 't'); G, H = vec(l, 'G', 4), vec(l, 'H', 4)
    p = Side(l, l.st.fork(), 'Prover', t); rp = mixed(l, p, v)
    # the prover's values of the wires
    ov = rmul(v[2], v[3]); lv = radd(rmul(l.F('k0'), v[0]), l.F('k1')); rv = radd(rmul(l.F('k2'), v[1]), rmul(l.F('k3'), ov))
    val = lambda x: p.cs('evaluate_lc', lcomb([(x, rnum(1))]), what='evaluate_lc').fs[0]
    for x, want, nm in ((rp[0], v[0], 'first'), (rp[1], v[1], 'second'), (rp[2].fs[0], rmul(v[0], v[1]), 'product of the pair'), (rp[3].fs[0], v[2], 'left'), (rp[3].fs[1], v[3], 'right'), (rp[3].fs[2], ov, 'output'),
                        (rp[4].fs[0], lv, 'left of the product'), (rp[4].fs[1], rv, 'right of the product'), (rp[4].fs[2], rmul(lv, rv), 'the product')):
        l.eq(p.st, val(x), want, 'value of ' + nm)
    cons = l.ex.getf(p.st, p.value(), 'constraints')
    for i, g in enumerate(items(cons)): l.eq(p.st, p.cs('evaluate_lc', g, what='evaluate_lc').fs[0], rnum(0), 'constraint %d vanishes' % i)
    pf = p.meth('prove', p.value(), G, H, what='prove')
    w = Side(l, p.st, 'Verifier', t); rw = mixed(l, w, v)
    for a, b, nm in zip(rp, rw, ('allocate', 'allocate_single', 'its output', 'allocate_multiplier', 'multiply')): l.eq(w.st, b, a, 'verifier and prover give the same variables: ' + nm)
    w.meth('verify', w.value(), pf, w.g, w.h, G, H, what='verify')
lem('R02.every way to allocate wires', ('R02',), 400)(allocations)
def lacking(kind, g, h):
    def f(l):
        m, n, q = 1, 3, 1; t = l.sym('merlin::Transcript', 't')
        if kind == 'Prover':
            v, cons = circuit(l, m, n, q); p = Side(l, l.st.fork(), 'Prover', t); p.meth('commit', p.ref, v['v'][0], v['vb'][0])
            for i in range(n): p.cs('allocate_multiplier', some_pair(v['l'][i], v['r'][i]))
            refuses(l, p.st, 'Prover::prove', p.value(), vec(l, 'G', g), vec(l, 'H', h), what='refused')
        else:
            w, proof, v = verifier(l, m, n, q); refuses(l, w.st, 'Verifier::verify', w.value(), proof, w.g, w.h, vec(l, 'G', g), vec(l, 'H', h), what='refused')
    return f
for kind in ('Prover', 'Verifier'):
    for g, h in ((3, 4), (4, 3), (0, 0), (4, 2), (2, 4)): lem('R02.%s refuses %d and %d generators for three multipliers' % (kind, g, h), ('R02',))(lacking(kind, g, h))
def rounds(a, b):
    def f(l):
        w, proof, v = verifier(l, 1, 3, 1); c = l.spec(w.st); pf = dict({x: v[x] for x in POINTS + SCALARS}, ipp_proof=c.mk('InnerProductArgumentProof', a=v['a'], b=v['b'], L=vec(l, 'L', a), R=vec(l, 'R', b)))
        refuses(l, w.st, 'Verifier::verify', w.value(), c.mk('R1CSProof', **pf), w.g, w.h, v['G'], v['H'], what='refused')
    return f
for a, b in ((1, 2), (2, 1), (1, 1), (3, 3), (0, 0), (2, 0)): lem('R02.a proof of %d and %d rounds for three multipliers is refused' % (a, b), ('R02',))(rounds(a, b))
def randomized(n1, n2, m=1):
    """a circuit whose second part is made once its first part is committed, with coefficients that depend on a challenge"""
    def f(l):
        v, _ = circuit(l, m, n1 + n2, 0); t = l.sym('merlin::Transcript', 't'); W = wires(v, m, n1 + n2); chal = []
        def second(side):
            def cb(ex, st, args):
                R = 'Randomizing%s as ' % side
                def one(outs):
                    outs = [(s, o) for s, o in outs if not contradiction(s.pc)]
                    if len(outs) != 1 or outs[0][1][0] != 'ret': raise Unsupported('%d paths in the second phase' % len(outs))
                    return outs[0][0], outs[0][1][1]
                st, z = one(l.run(st, R + 'RandomizedConstraintSystem::challenge_scalar', args[0], bstr(b'second'))); chal.append(z)
                for i in range(n1, n1 + n2): st, _ = one(l.run(st, R + 'ConstraintSystem::allocate_multiplier', args[0], some_pair(v['l'][i], v['r'][i]) if side == 'Prover' else none()))
                e = rnum(0); ts = []
                for i, (x, w) in enumerate(W): c = rmul(l.F('d%d' % i), z); ts.append((x, c)); e = radd(e, rmul(c, w))
                st, _ = one(l.run(st, R + 'ConstraintSystem::constrain', args[0], lcomb(ts + [(var('One'), rneg(e))])))
                return [(st, ('ret', ok(UNITV)))]
            return FnVal(('py', cb))
        def build(s):
            for i in range(n1): s.cs('allocate_multiplier', some_pair(v['l'][i], v['r'][i]) if s.kind == 'Prover' else none())
            e = rnum(0); ts = []
            for i, (x, w) in enumerate(W[:m + 3 * n1]): ts.append((x, l.F('c%d' % i))); e = radd(e, rmul(l.F('c%d' % i), w))
            s.cs('constrain', lcomb(ts + [(var('One'), rneg(e))]))
            s.cs('specify_randomized_constraints', second(s.kind), what='specify_randomized_constraints')
        p = Side(l, l.st.fork(), 'Prover', t); V = [p.meth('commit', p.ref, v['v'][j], v['vb'][j]).fs[0] for j in range(m)]; build(p)
        proof = p.meth('prove', p.value(), v['G'], v['H'], what='prove')
        w = Side(l, p.st, 'Verifier', t)
        for x in V: w.meth('commit', w.ref, x)
        build(w); w.meth('verify', w.value(), proof, w.g, w.h, v['G'], v['H'], what='verify')
        l.res.add(l.name + '#one challenge', 'proved' if len(chal) == 2 and chal[0] is chal[1] else 'failed', '%d' % len(chal), 0)
    return f
for n1, n2 in ((1, 1), (1, 2), (0, 1), (2, 0)): lem('R02.a randomised circuit of %d and %d multipliers proves and verifies' % (n1, n2), ('R02',), 400)(randomized(n1, n2))
def leftover(l):
    """a wire left single in the first phase: the second phase starts a new multiplier on both sides"""
    a, b, z0 = l.F('s0'), l.F('s1'), []; t = l.sym('merlin::Transcript', 't'); G, H = vec(l, 'G', 2), vec(l, 'H', 2); got = {}
    def second(side):
        def cb(ex, st, args):
            outs = [(s, o) for s, o in l.run(st, 'Randomizing%s as ConstraintSystem::allocate' % side, args[0], some(b) if side == 'Prover' else none()) if not contradiction(s.pc)]
            if len(outs) != 1 or outs[0][1][0] != 'ret': raise Unsupported('%d paths in the second phase' % len(outs))
            st, x = outs[0][0], outs[0][1][1].fs[0]; got.setdefault(side, []).append(x)
            outs = l.run(st, 'Randomizing%s as ConstraintSystem::constrain' % side, args[0], lcomb([(x, rnum(1)), (var('One'), rneg(b))]))
            return [(s, ('ret', ok(UNITV))) for s, _ in outs]
        return FnVal(('py', cb))
    def build(s):
        x = okv(s.cs('allocate', some(a) if s.kind == 'Prover' else none())); got.setdefault(s.kind, []).append(x)
        s.cs('constrain', lcomb([(x, rnum(1)), (var('One'), rneg(a))])); s.cs('specify_randomized_constraints', second(s.kind))
    p = Side(l, l.st.fork(), 'Prover', t); build(p); proof = p.meth('prove', p.value(), G, H, what='prove')
    w = Side(l, p.st, 'Verifier', t); build(w)
    w.meth('verify', w.value(), proof, w.g, w.h, G, H, what='verify')
    for i, (x, y) in enumerate(zip(got['Prover'], got['Verifier'])): l.eq(w.st, y, x, 'wire %d is the same on both sides' % i)
lem('R02.a wire left single in the first phase stays single', ('R02',), 400)(leftover)
# ---------------------------------------------------------------- R03: gadgets
GD = 'r1cs::gadgets::'
def prover_constraints(l, p):
    """the values of all constraints the prover recorded"""
    return [p.cs('evaluate_lc', g, what='evaluate_lc').fs[0] for g in items(l.ex.getf(p.st, p.value(), 'constraints'))]
def okv(v): return v.fs[0] if isinstance(v, Adt) and v.vn == 'Ok' else v
def verifier_constraints(l, w):
    """the constraints a verifier recorded as polynomials over the wires (products of multipliers are substituted)"""
    import sympy
    syms = {}
    def sy(n): return syms.setdefault(n, sympy.Symbol(n))
    def poly(x):
        r = sympy.Integer(0)
        for m, k in mons(x).items():
            t = sympy.Rational(k) if not isinstance(k, int) else sympy.Integer(k)
            for a, e in m:
                if e < 0: raise Unsupported('inverse in a constraint')
                t *= sy(repr(a)) ** e
            r += t
        return r
    def wire(v):
        v = D(l.ex, w.st, v)
        if v.vn == 'One': return sympy.Integer(1)
        i = v.fs[0]
        if i.op != 'num': raise Unsupported('wire %r' % (i,))
        i = i.args[0]
        return {'Committed': lambda: sy('C%d' % i), 'MultiplierLeft': lambda: sy('L%d' % i), 'MultiplierRight': lambda: sy('R%d' % i), 'MultiplierOutput': lambda: sy('L%d' % i) * sy('R%d' % i)}[v.vn]()
    out = []
    for g in items(l.ex.getf(w.st, w.value(), 'constraints')):
        e = sympy.Integer(0)
        for t in l.ex.getf(w.st, D(l.ex, w.st, g), 'terms').segs:
            if not isinstance(t, One): raise Unsupported('constraint of unknown length')
            p = D(l.ex, w.st, t.v); e += wire(p.fs[0]) * poly(F(l.ex, w.st, p.fs[1]))
        out.append(sympy.expand(e))
    return out, sy
def eliminate(cons, keep):
    """solve constraints that are linear in a wire with a constant coefficient; keep: symbols that are not solved for"""
    import sympy
    cons = [c for c in cons if c != 0]; changed = True
    while changed:
        changed = False
        for c in cons:
            for v in sorted(c.free_symbols - keep, key=str):
                P = sympy.Poly(c, v)
                if P.degree() == 1 and P.coeff_monomial(v).is_number:
                    sol = sympy.expand(v - c / P.coeff_monomial(v)); cons = [sympy.expand(x.subs(v, sol)) for x in cons if x is not c]; cons = [x for x in cons if x != 0]; changed = True; break
            if changed: break
    return cons
def member(cons, goal):
    """the goal lies in the ideal of the constraints: it vanishes wherever all of them do"""
    import sympy
    goal = sympy.expand(goal)
    if goal == 0: return True
    if not cons: return False
    vs = sorted(set().union(goal.free_symbols, *[c.free_symbols for c in cons]), key=str, reverse=True)
    if not vs: return True
    G = sympy.groebner(cons, *vs, order='grevlex', domain='QQ')
    return G.exprs == [1] or G.reduce(goal)[1] == 0
def implied(l, w, goal, what, keep=('C0',)):
    """every assignment that satisfies the verifier's constraints makes goal(symbols) zero; goal None: no assignment satisfies them together with the extra polynomials"""
    t0 = time.time(); cons, sy = verifier_constraints(l, w); g, extra = goal(sy); kp = {sy(k) for k in keep} | {x for x in g.free_symbols}
    for e in extra: kp |= e.free_symbols
    r = member(eliminate(cons, kp) + list(extra), g)
    l.res.add('%s#%s' % (l.name, what), 'proved' if r else 'failed', '' if r else 'not implied by the constraints %s' % (cons,), time.time() - t0)
def started(l, kind): return Side(l, l.st.fork(), kind, l.sym('merlin::Transcript', 't'))
def complete(ident, args, assume=(), what='every constraint vanishes'):
    def f(l):
        a = args(l); p = Side(l, functools.reduce(lambda s, c: s.assume(c), assume(l) if assume else [], l.st.fork()), 'Prover', l.sym('merlin::Transcript', 't'))
        p.call(GD + ident, *[p.ref if x is PV else x for x in a], what='prove')
        for i, c in enumerate(prover_constraints(l, p)): l.eq(p.st, c, rnum(0), 'constraint %d vanishes' % i)
    return f
PV = object()
def sound(ident, args, n, goals, keep=('C0',)):
    def f(l):
        w = started(l, 'Verifier'); cm = vec(l, 'V', n); w.call(GD + ident, *[w.ref if x is PV else cm if x == 'V' else x for x in args(l)], what='verify')
        for what, g in goals: implied(l, w, g, what, keep)
    return f
def fewer(ident, args, n):
    def f(l):
        for k in range(n):
            w = started(l, 'Verifier'); refuses(l, w.st, GD + ident, *[w.ref if x is PV else vec(l, 'V', k) if x == 'V' else x for x in args(l)], what='%d commitments are refused' % k)
    return f
def prod(xs):
    import sympy
    r = sympy.Integer(1)
    for x in xs: r *= x
    return r
U3 = ('R03',)
# non-zero
lem('R03.non-zero: complete', U3)(complete('non_zero::prove_non_zero_val', lambda l: (l.F('v'), some(l.F('r')), none(), PV), lambda l: [nz(l.F('v'))]))
import sympy as _sp
lem('R03.non-zero: sound', U3)(sound('non_zero::verify_non_zero_val', lambda l: ('V', PV), 2, [('zero satisfies no assignment', lambda sy: (_sp.Integer(1), [sy('C0')]))]))
lem('R03.non-zero: too few commitments', U3)(fewer('non_zero::verify_non_zero_val', lambda l: ('V', PV), 2))
# set membership
for n in (1, 2, 3):
    S_ = lambda l, n=n: vec(l, 's', n)
    for j in range(n):
        lem('R03.set membership: complete, member %d of %d' % (j, n), U3)(complete('set_membership::prove_set_membership', lambda l, n=n, j=j: (l.F('s%d' % j), some(l.F('r')), vec(l, 's', n), none(), PV)))
    lem('R03.set membership: sound, %d elements' % n, U3)(sound('set_membership::verify_set_membership', lambda l, n=n: (vec(l, 's', n), 'V', PV), n + 1,
        [('the committed value is an element', lambda sy, n=n: (prod(sy('C0') - sy('s%d' % i) for i in range(n)), []))]))
    lem('R03.set membership: too few commitments, %d elements' % n, U3)(fewer('set_membership::verify_set_membership', lambda l, n=n: (vec(l, 's', n), 'V', PV), n + 1))
    lem('R03.set non-membership: complete, %d elements' % n, U3)(complete('set_non_membership::prove_set_non_membership', lambda l, n=n: (l.F('v'), some(l.F('r')), vec(l, 's', n), none(), PV),
        lambda l, n=n: [nz(rsub(l.F('s%d' % i), l.F('v'))) for i in range(n)]))
    lem('R03.set non-membership: sound, %d elements' % n, U3)(sound('set_non_membership::verify_set_non_membership', lambda l, n=n: (vec(l, 's', n), 'V', PV), 2 * n + 1,
        [('element %d satisfies no assignment' % i, lambda sy, i=i: (_sp.Integer(1), [sy('C0') - sy('s%d' % i)])) for i in range(n)]))
    lem('R03.set non-membership: too few commitments, %d elements' % n, U3)(fewer('set_non_membership::verify_set_non_membership', lambda l, n=n: (vec(l, 's', n), 'V', PV), 2 * n + 1))
ASETS = ((0,), (7,), (0, 5), (3, 2**63 + 5), (0, 1, 2**64 - 1))
A = 'set_membership_alt::'
for st_ in ASETS:
    sq = lambda st_=st_: Seq([One(num(x)) for x in st_])
    for x in st_: lem('R03.alternative set membership: complete, %d of %s' % (x, list(st_)), U3)(complete(A + 'prove_set_membership_alt', lambda l, sq=sq, x=x: (num(x), some(l.F('r')), sq(), none(), PV)))
    n = len(st_)
    lem('R03.alternative set membership: sound, %s' % list(st_), U3)(sound(A + 'verify_set_membership_alt', lambda l, sq=sq: (sq(), 'V', PV), n + 1,
        [('the committed value is an element', lambda sy, n=n, st_=st_: (prod(sy('C%d' % n) - x for x in st_), []))], keep=('C%d' % n,)))
    lem('R03.alternative set membership: too few commitments, %s' % list(st_), U3)(fewer(A + 'verify_set_membership_alt', lambda l, sq=sq: (sq(), 'V', PV), n + 1))
# ranges
B_ = 'bound_check::'
for lo, hi, n in ((0, 1, 1), (5, 6, 1), (3, 6, 2), (0, 3, 2), (10, 13, 2), (1, 8, 3), (0, 5, 3), (2**64 - 4, 2**64 - 1, 2)):
    for x in range(lo, hi + 1): lem('R03.range: complete, %d in %d..%d of %d bits' % (x, lo, hi, n), U3)(complete(B_ + 'prove_bounded_num', lambda l, x=x, lo=lo, hi=hi, n=n: (num(x), some(l.F('r')), num(lo), num(hi), num(n), none(), PV)))
    both = prod
    lem('R03.range: sound, %d..%d of %d bits' % (lo, hi, n), U3)(sound(B_ + 'verify_bounded_num', lambda l, lo=lo, hi=hi, n=n: (num(lo), num(hi), num(n), 'V', PV), 3,
        [('the committed value is not below the range', lambda sy, lo=lo, n=n: (prod(sy('C0') - lo - k for k in range(1 << n)), [])), ('the committed value is not above the range', lambda sy, hi=hi, n=n: (prod(hi - sy('C0') - k for k in range(1 << n)), []))]))
for x, lo, hi, n in ((0, 0, 2**64 - 1, 64), (2**64 - 1, 0, 2**64 - 1, 64), (2**63 + 12345, 2**60, 2**64 - 1, 64), (2**58, 2**58 - 1, 2**58 + 1, 58), (77, 3, 2**32, 33)):
    lem('R03.range: complete, %d in %d..%d of %d bits' % (x, lo, hi, n), U3)(complete(B_ + 'prove_bounded_num', lambda l, x=x, lo=lo, hi=hi, n=n: (num(x), some(l.F('r')), num(lo), num(hi), num(n), none(), PV)))
lem('R03.range: too few commitments', U3)(fewer(B_ + 'verify_bounded_num', lambda l: (num(3), num(9), num(3), 'V', PV), 3))
