"""Models for the BLS modules of libursa: the pairing wrapper (models_cl, contracts U03) and amcl_wrapper (models_amcl)."""
from models_cl import *
from models_cl import CL, OV, CLModels, sha
import models, models_amcl, models_bbs
from models_amcl import AM, AmclModels, CONSTS
BL = {}
def _dnew(ex, fr, st, c, a):
    t = ex.subty(fr, c.self_ty); n = tyname(strip_refs(t))
    if n in ('Sha256', 'Keccak256', 'Sha512', 'Sha3_256'): return Obj('digest', alg=n, data=Seq([]))
    return models.default(ex, t)
BL['Default::default'] = BL['Digest::new'] = _dnew
def _din(ex, fr, st, c, a):
    out = []
    for s2, w in cases(ex, st, D(ex, st, a[1])):
        d = D(ex, s2, a[0]); v = d.with_(data=ex.seq_concat([d.data, w]))
        if isinstance(a[0], MRef): setref(ex, s2, a[0], v); out.append((s2, UNITV))
        else: out.append((s2, v))
    return out
BL['Digest::input'] = BL['Digest::update'] = BL['Digest::chain'] = _din
def hashed(alg, data):
    if alg == 'Sha256': return sha(data)
    k = fresh_var('I', 'k'); return Seq([Comp(k, and_(le(ZERO, k), lt(k, num(64 if alg == 'Sha512' else 32))), [One(app('hash.' + alg, (valterm(data), k), 'I'))])])
BL['Digest::result'] = BL['Digest::finalize'] = lambda ex, fr, st, c, a: (lambda d: hashed(d.alg, d.data))(D(ex, st, a[0]))
for k in ('Hkdf::new', 'Hkdf::expand'):
    if k in models_bbs.BBS: BL[k] = models_bbs.BBS[k]
BL['GenericArray::as_slice'] = BL['GenericArray::deref'] = lambda ex, fr, st, c, a: D(ex, st, a[0])
class BlsModels(CLModels):
    RING = CLModels.RING | AmclModels.RING
    ALIAS = AmclModels.ALIAS
    externals = CLModels.externals | AmclModels.externals | {'hkdf', 'sha2', 'sha3', 'digest'}
    def __init__(s):
        super().__init__(); s.tables = [STD, CL, AM, BL]
        for k, v in CONSTS.items(): s.consts[k] = num(v)
