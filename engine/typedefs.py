"""Struct/enum definitions of a crate, read from `rustc -Zunpretty=expanded`."""
import re
from mirparse import parse_ty, split_top, scan, match_brace, match_angle, Ty

TOK = re.compile(r'''//[^\n]*|/\*.*?\*/|b?"(?:\\.|[^"\\])*"|r#*"|'(?:\\.[^']*|[^'\\])'|[A-Za-z_][A-Za-z0-9_]*|\d[\w.]*|::|->|=>|\s+|.''', re.S)

def clean(src):
    """drop comments, replace string contents"""
    out = []
    i = 0
    for m in TOK.finditer(src):
        t = m.group(0)
        if t.startswith('//') or t.startswith('/*'): out.append(' '); continue
        if t.startswith('"') or t.startswith('b"'): out.append('""'); continue
        if t.startswith("'") and len(t) > 1: out.append("'x'"); continue
        out.append(t)
    return ''.join(out)

class TypeDef:
    def __init__(s, path, kind, params, variants):
        s.path = path; s.kind = kind; s.params = params; s.variants = variants  # [(name, [(field, Ty)])]
        s.name = path.split('::')[-1]
    def __repr__(s): return '%s %s%s %r' % (s.kind, s.path, s.params, s.variants)

# structs of other crates that the code builds and takes apart
EXTERNAL = {'aead::Payload': [('msg', '&[u8]'), ('aad', '&[u8]')]}
class TypeTable:
    def __init__(s):
        s.defs = {}; s.byname = {}; s.uses = {}; s.aliases = {}
    def load(s, path):
        src = clean(open(path).read())
        s._mod(src, 0, len(src), [])
        for path, fs in EXTERNAL.items():
            if path.split('::')[-1] in src and not any(d.name == path.split('::')[-1] for d in s.defs.values()):
                s.defs[path] = TypeDef(path, 'struct', [], [(path.split('::')[-1], [(n, parse_ty(t)) for n, t in fs])])
        for d in s.defs.values():
            s.byname.setdefault(d.name, []).append(d)
        return s
    def _mod(s, src, i, end, mod):
        rx = re.compile(r'\s+|#!?\[|\b(mod|struct|enum|type|use|fn|impl|trait|const|static|extern|union|macro_rules)\b|[{(\[]|[;}]|\w+|.', re.S)
        mp = '::'.join(mod)
        while i < end:
            m = rx.match(src, i)
            if not m: break
            t = m.group(0)
            if t.startswith('#'):
                i = match_br(src, m.end() - 1) + 1; continue
            kw = m.group(1)
            if kw == 'mod':
                m2 = re.compile(r'\s*(\w+)\s*([{;])').match(src, m.end())
                if m2.group(2) == ';': i = m2.end(); continue
                e = match_br(src, m2.end() - 1)
                s._mod(src, m2.end(), e, mod + [m2.group(1)]); i = e + 1; continue
            if kw in ('struct', 'enum', 'union'):
                m2 = re.compile(r'\s*(\w+)\s*').match(src, m.end())
                name = m2.group(1); j = m2.end(); params = []
                if src[j] == '<':
                    e = match_angle(src, j + 1)
                    params = [x.split(':')[0].strip() for x in split_top(src[j+1:e]) if not x.strip().startswith("'")]
                    j = e + 1
                k = scan(src, j, '{(;') 
                path = '::'.join(mod + [name])
                if kw == 'struct':
                    if src[k] == ';': fs = []; i = k + 1
                    elif src[k] == '{':
                        e = match_br(src, k); fs = s._named(src[k+1:e]); i = e + 1
                    else:
                        e = match_br(src, k); fs = s._tuple(src[k+1:e]); i = src.index(';', e) + 1
                    s.defs[path] = TypeDef(path, 'struct', params, [(name, fs)])
                elif kw == 'enum':
                    e = match_br(src, k)
                    vs = []
                    for v in split_top(src[k+1:e]):
                        v = strip_attrs(v)
                        if not v: continue
                        m3 = re.match(r'(\w+)\s*', v)
                        rest = v[m3.end():]
                        if rest.startswith('{'): fs = s._named(rest[1:rest.rindex('}')])
                        elif rest.startswith('('): fs = s._tuple(rest[1:rest.rindex(')')])
                        else: fs = []
                        vs.append((m3.group(1), fs))
                    s.defs[path] = TypeDef(path, 'enum', params, vs); i = e + 1
                else:
                    i = match_br(src, k) + 1
                continue
            if kw == 'type':
                e = src.index(';', m.end())
                m2 = re.match(r'\s*(\w+)\s*(<[^=]*>)?\s*=\s*(.*)$', src[m.end():e], re.S)
                if m2: s.aliases['::'.join(mod + [m2.group(1)])] = m2.group(3).strip()
                i = e + 1; continue
            if kw == 'use':
                e = src.index(';', m.end())
                s._use(src[m.end():e].strip(), mod); i = e + 1; continue
            if kw in ('fn', 'impl', 'trait', 'extern', 'macro_rules'):
                k = m.end()
                # find body '{' or ';' at top level
                k = find_body(src, k)
                if src[k] == '{': i = match_br(src, k) + 1
                else: i = k + 1
                continue
            if kw in ('const', 'static'):
                if re.compile(r'\s*fn\b|\s*unsafe\b').match(src, m.end()): i = m.end(); continue
                k = find_semi(src, m.end()); i = k + 1; continue
            if t in '{([':
                i = match_br(src, m.end() - 1) + 1; continue
            i = m.end()
    def _named(s, body):
        out = []
        for f in split_top(body):
            f = strip_attrs(f)
            if not f: continue
            f = re.sub(r'^pub(\s*\([^)]*\))?\s+', '', f)
            n, t = f.split(':', 1)
            out.append((n.strip(), ' '.join(t.split())))
        return out
    def _tuple(s, body):
        out = []
        for i, f in enumerate(split_top(body)):
            f = strip_attrs(f)
            f = re.sub(r'^pub(\s*\([^)]*\))?\s*', '', f)
            if f: out.append((str(i), ' '.join(f.split())))
        return out
    def _use(s, u, mod):
        def go(prefix, u):
            u = u.strip()
            j = scan(u, 0, '{')
            if j < len(u) and u[j] == '{':
                base = u[:j].strip().rstrip(':').strip()
                for x in split_top(u[j+1:u.rindex('}')]): go(prefix + [p for p in base.split('::') if p], x)
                return
            m = re.match(r'^(.*?)\s+as\s+(\w+)$', u)
            path = m.group(1) if m else u
            segs = prefix + [p.strip() for p in path.split('::') if p.strip()]
            nm = m.group(2) if m else segs[-1]
            s.uses.setdefault('::'.join(mod), {})[nm] = '::'.join(segs)
        go([], u)
    def resolve(s, name, mod):
        """type name as written in module -> full path of a local def, or a Ty for aliases/externals (by last segment)"""
        segs = name.split('::')
        last = segs[-1]
        cand = '::'.join(mod.split('::') + [name]) if mod else name
        if cand in s.defs: return cand
        if cand in s.aliases: return ('alias', s.aliases[cand], mod)
        u = s.uses.get(mod, {}).get(segs[0])
        if u:
            full = '::'.join([u] + segs[1:])
            full = re.sub(r'^(crate|self)::', '', full)
            if full.startswith('super::'):
                m2 = mod.split('::')
                while full.startswith('super::'): full = full[7:]; m2 = m2[:-1]
                full = '::'.join(m2 + [full])
            if full in s.defs: return full
            if full in s.aliases: return ('alias', s.aliases[full], '::'.join(full.split('::')[:-1]))
            last = full.split('::')[-1]
            mm = '::'.join(full.split('::')[:-1])
            if mm in s.uses and last in s.uses[mm] and mm != mod:
                return s.resolve(last, mm)
            ds = [d for d in s.byname.get(last, []) ]
            if len(ds) == 1: return ds[0].path
            # external
            return ('ext', last)
        # glob / prelude: unique by name
        ds = s.byname.get(last, [])
        if len(ds) == 1: return ds[0].path
        if len(ds) > 1:
            # nearest module
            best = max(ds, key=lambda d: common(d.path, mod))
            return best.path
        # glob aliases
        al = [k for k in s.aliases if k.split('::')[-1] == last]
        if len(al) == 1: return ('alias', s.aliases[al[0]], '::'.join(al[0].split('::')[:-1]))
        us = [v[last] for m_, v in s.uses.items() if last in v and v[last].split('::')[-1] != last]
        if len(set(us)) == 1: return ('ext', us[0].split('::')[-1])
        return ('ext', last)
    def find(s, ty):
        """TypeDef for a MIR type (full path)"""
        if ty.k != 'path': return None
        d = s.defs.get(ty.full)
        if d: return d
        ds = s.byname.get(ty.name, [])
        if not ds: return None
        if '::' in ty.full:
            # re-exported path: prefer matching suffix, else unique
            ms = [d for d in ds if d.path.endswith(ty.full)]
            if len(ms) == 1: return ms[0]
            root = ty.full.split('::')[0]
            if root in ('std', 'core', 'alloc', 'failure'): return None
        if len(ds) == 1: return ds[0]
        ms = [d for d in ds if d.path == ty.name]
        if ms: return ms[0]
        return max(ds, key=lambda d: common(d.path, ty.full))
    def field_ty(s, d, fty, args):
        """resolve a source-level field type string in d's module to a Ty"""
        mod = '::'.join(d.path.split('::')[:-1])
        t = parse_ty(norm_src_ty(fty))
        return s._res(t, mod, dict(zip(d.params, args)), d)
    def _res(s, t, mod, sub, d=None):
        if t.k in ('ref', 'refmut', 'slice', 'tuple', 'ptr'): return Ty(t.k, t.name, [s._res(a, mod, sub, d) for a in t.args])
        if t.k == 'array': return Ty('array', t.name, [s._res(a, mod, sub, d) for a in t.args])
        if t.k != 'path': return t
        if t.full in sub: return sub[t.full]
        if t.full == 'Self' and d: return Ty('path', d.name, [], d.path)
        args = [s._res(a, mod, sub, d) for a in t.args]
        r = s.resolve(t.full, mod)
        if isinstance(r, tuple):
            if r[0] == 'alias': return s._res(parse_ty(norm_src_ty(r[1])), r[2], {}, d)
            return Ty('path', r[1], args, r[1])
        return Ty('path', r.split('::')[-1], args, r)

def norm_src_ty(t): return re.sub(r'\s*([<>,:;&\[\]()])\s*', lambda m: {',': ', ', ';': '; ', ':': ':'}.get(m.group(1), m.group(1)), t)

def common(a, b):
    n = 0
    for x, y in zip(a.split('::'), b.split('::')):
        if x != y: break
        n += 1
    return n

def strip_attrs(f):
    f = f.strip()
    while f.startswith('#['):
        e = match_br(f, 1); f = f[e+1:].strip()
    return f

def match_br(s, i):
    pair = {'(': ')', '[': ']', '{': '}'}
    d = 0; n = len(s)
    rx = re.compile(r'[(\[{]|[)\]}]')
    for m in rx.finditer(s, i):
        if m.group(0) in '([{': d += 1
        else:
            d -= 1
            if d == 0: return m.start()
    raise ValueError('unbalanced')

def find_body(s, i):
    d = 0
    for m in re.compile(r'[(\[]|[)\]]|[{;]').finditer(s, i):
        c = m.group(0)
        if c in '([': d += 1
        elif c in ')]': d -= 1
        elif d == 0: return m.start()
    return len(s) - 1

def find_semi(s, i):
    d = 0
    for m in re.compile(r'[(\[{]|[)\]}]|;').finditer(s, i):
        c = m.group(0)
        if c in '([{': d += 1
        elif c in ')]}': d -= 1
        elif d == 0: return m.start()
    return len(s) - 1

if __name__ == '__main__':
    import sys
    for p in sys.argv[1:]:
        t = TypeTable().load(p)
        for d in t.defs.values():
            if 'Visitor' in d.name or '__' in d.name: continue
            print(d.kind, d.path, d.params, [(v, [(f, repr(t.field_ty(d, ty, [Ty('path', x) for x in d.params]))) for f, ty in fs]) for v, fs in d.variants])
