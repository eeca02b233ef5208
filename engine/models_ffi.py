"""Models for the C interface (libursa::ffi): pointers are null or name an object; library operations are opaque functions of their arguments."""
from models import *
import models, re
from models_cl import CL
FF = {}; FOV = {}
NULL = Obj('null')
def D(ex, st, v): return ex.deref(st, v)
def isnull(v): return isinstance(v, Obj) and v.kind == 'null'
def ff(*names):
    def d(f):
        for n in names: FF[n] = f
        return f
    return d
@ff('*::is_null', 'const_ptr::is_null', 'mut_ptr::is_null', 'ptr::is_null', 'std::ptr::is_null')
def _(ex, fr, st, c, a):
    v = a[0]
    return TRUE if isnull(v) else FALSE
@ff('::as_ref', '::as_mut', 'const_ptr::as_ref', 'mut_ptr::as_ref', 'mut_ptr::as_mut', 'ptr::as_ref', 'ptr::as_mut')
def _(ex, fr, st, c, a): return none() if isnull(a[0]) else some(a[0]) if isinstance(a[0], (T, MRef, Seq)) else a[0]
@ff('::cast', 'const_ptr::cast', 'mut_ptr::cast', 'ptr::cast')
def _(ex, fr, st, c, a): return a[0]
@ff('ptr::null', 'null', 'std::ptr::null', 'ptr::null_mut')
def _(ex, fr, st, c, a): return NULL
@ff('slice::from_raw_parts', 'from_raw_parts', 'std::slice::from_raw_parts')
def _(ex, fr, st, c, a):
    w = D(ex, st, a[0])
    if not isinstance(w, Seq): raise Unsupported('from_raw_parts of %s' % repr(w)[:60])
    out = []
    for s2, g in ex.branch(st, le(D(ex, st, a[1]), ex.seq_len(w))): out.append((s2, ex.seq_slice(s2, w, ZERO, D(ex, s2, a[1])) if g else ('panic', 'read beyond the buffer')))
    return out
@ff('::write', 'ptr::write', 'std::ptr::write', 'mut_ptr::write')
def _(ex, fr, st, c, a):
    if not isinstance(a[0], MRef): raise Unsupported('write through %s' % repr(a[0])[:60])
    setref(ex, st, a[0], a[1]); return UNITV
@ff('Box::into_raw', 'into_raw')
def _(ex, fr, st, c, a): return a[0]
@ff('Box::from_raw', 'from_raw')
def _(ex, fr, st, c, a):
    """the object is taken back (and dropped at the end) as the type it was given out as"""
    want = OWNED.get(a[0]) if isinstance(a[0], T) else None; got = re.findall(r'Box::<(.*)>::from_raw', c.raw)
    if want is not None and (not got or got[0].split('::')[-1] != want): return ('panic', 'a %s is released as %s' % (want, got))
    return a[0]
FOV['errors::set_current_error'] = FOV['set_current_error'] = lambda ex, fr, st, c, a: UNITV
FOV['errors::err_msg'] = FOV['err_msg'] = lambda ex, fr, st, c, a: ERRV
def _kind(ex, fr, st, c, a):
    """any kind of error"""
    d = ex.prog.tt['ursa'].find(parse_ty('errors::UrsaCryptoErrorKind')); r = None
    for vi, (vn, fs) in enumerate(d.variants):
        v = Adt('UrsaCryptoErrorKind', vi, vn, [app('err.num:usize', (), 'I') for _ in fs])
        r = v if r is None else ite_val(app('err.is.' + vn, (), 'B'), v, r)
    return r
FOV['UrsaCryptoError::kind'] = _kind
LIB = {}
def outcome(name, ids):
    """(when the operation succeeds, the values it gives, the object it worked on afterwards)"""
    o = LIB[name]; mk = lambda i: app('lib.%s%s' % (name, i), ids, 'B' if o['bool_'] else 'X')
    n = max(1, o['arity'])
    if o['seq']: return TRUE, [None, app('lib.len.' + name, ids, 'I')], None
    return (app('lib.ok.' + name, ids, 'B') if o['fallible'] else TRUE), [mk('')] if n == 1 else [mk('.%d' % i) for i in range(n)], app('lib.after.' + name, ids, 'X')
def lib(name, fallible=True, bool_=False, unit=False, arity=1, opt=False, seq=False, changes=0):
    """a library operation: an opaque function of its arguments (and of the randomness of this call)"""
    LIB[name] = dict(fallible=fallible, bool_=bool_, unit=unit, arity=arity, opt=opt, seq=seq)
    def f(ex, fr, st, c, a):
        ids = tuple(valterm(D(ex, st, x)) for x in a); good, vals, after = outcome(name, ids); out = []
        for s2, g in ex.branch(st, good):
            if g and a and isinstance(a[changes], MRef): setref(ex, s2, a[changes], after)
            if seq: s2.assume(le(ZERO, vals[1])); out.append((s2, bytes_of(name, ids, vals[1]))); continue
            if not opt:
                v = UNITV if unit else vals[0] if len(vals) == 1 else Tup(vals)
                out.append((s2, (ok(v) if g else err(ERRV)) if fallible else v)); continue
            if not g: out.append((s2, err(ERRV))); continue
            for s3, h in ex.branch(s2, app('lib.some.' + name, ids, 'B')):       # the last result is optional
                w = some(vals[-1]) if h else none()
                out.append((s3, ok(w if len(vals) == 1 else Tup(vals[:-1] + [w])) if fallible else w))
        return out
    FOV[name] = f; LIBF[name] = f
def bytes_of(name, ids, n):
    """the bytes an object gives out"""
    j = fresh_var('I', 'k'); return Seq([Comp(j, and_(le(ZERO, j), lt(j, n)), [One(app('lib.byte.' + name, ids + (j,), 'I'))])])
LIBF = {}; OWNED = {}
@ff('serde_json::to_string', 'to_string', 'serde_json::from_str', 'from_str')
def _(ex, fr, st, c, a):
    ty = [g for g in c.gens if repr(g).strip() and "'" not in repr(g)]
    if not ty: raise Unsupported('json of an unnamed type')
    n = '%s:%s' % (c.method or c.segs[-1], repr(ty[-1]).split('::')[-1])
    if n not in LIBF: raise Unsupported('%s is not an operation of the table' % n)
    return LIBF[n](ex, fr, st, c, a)
@ff('CString::into_raw', '*::as_ptr')
def _(ex, fr, st, c, a): return a[0]
FOV['utils::ctypes::string_to_cstring'] = FOV['ctypes::string_to_cstring'] = FOV['string_to_cstring'] = lambda ex, fr, st, c, a: a[0]
def _tails(ex, fr, st, c, a): return app('lib.FFITailsAccessor::new', tuple(valterm(D(ex, st, x)) for x in a), 'X')
FOV['FFITailsAccessor::new'] = _tails
def _cstr(ex, fr, st, c, a):
    if isnull(a[0]): return ok(none())
    s = D(ex, st, a[0])
    return [(s2, ok(some(s)) if g else err(ERRV)) for s2, g in ex.branch(st, app('str.utf8', (s,), 'B'))]
FOV['utils::ctypes::c_str_to_string'] = FOV['ctypes::c_str_to_string'] = FOV['c_str_to_string'] = _cstr
@ff('String::is_empty', 'str::is_empty')
def _(ex, fr, st, c, a):
    s = D(ex, st, a[0])
    return app('str.empty', (s,), 'B') if isinstance(s, T) and s.sort == 'S' else models.STD['String::is_empty'](ex, fr, st, c, a)
def _clone(ex, fr, st, c, a): return D(ex, st, a[0])
class FfiModels(Models):
    unroll = 3
    externals = Models.externals | {'openssl', 'amcl', 'log', 'lazy_static', 'rand', 'serde_json', 'ffi_support'}
    def __init__(s): super().__init__(); s.tables = [STD, FF, {k: v for k, v in CL.items() if 'log' in k or 'Level' in k}]; s.overrides = FOV
    def override(s, info, callee): return _clone if info.ident.endswith(' as Clone::clone') else s.overrides.get(info.ident)
    def field(s, ex, st, v, p):
        return v if isinstance(v, T) and v.sort == 'X' and re.search(r'std::ptr::(Unique|NonNull)|\*const', str(p)) else None       # a box is its content
@ff('Into::into')
def _(ex, fr, st, c, a):
    to = c.trait_args[0] if c.trait_args else None
    if to is not None and to.k == 'path' and to.name.split('::')[-1] == 'ErrorCode':
        src = repr(c.self_ty).split('::')[-1]
        for info in ex.prog.byident['ErrorCode as From::from']:
            if re.search(r'\b%s\)' % src, info.fn.header): return ex.run_fn(info.fn, list(a), st, {}, 1, 'ursa')
    return models.STD['Into::into'](ex, fr, st, c, a)
@ff('HashSet::from_iter', 'FromIterator::from_iter', '*::from_iter')
def _(ex, fr, st, c, a):
    v = D(ex, st, a[0])
    if isinstance(v, IterV): v = Seq(list(v.segs))
    if not isinstance(v, Seq): raise Unsupported('set of %s' % repr(v)[:60])
    return app('set.of', (valterm(v),), 'X')
