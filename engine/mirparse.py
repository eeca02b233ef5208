"""Parser for `rustc -Zunpretty=mir` dumps.

Produces Function objects: argument locals with types, basic blocks with
statements and a terminator in a small tuple language.  Nothing is rewritten:
what is dropped are storage markers, debug-info lines and unwind (cleanup) edges.
"""
import re, sys
from functools import lru_cache

OPEN = {'(': ')', '[': ']', '{': '}'}
CLOSE = set(')]}')

def skip_string(s, i):
    # s[i] == '"'
    i += 1
    while s[i] != '"':
        if s[i] == '\\': i += 1
        i += 1
    return i + 1

def scan(s, i, stops):
    """advance from i to the first top-level occurrence of a char in stops"""
    depth = 0; ang = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == '"': i = skip_string(s, i); continue
        if c == "'":
            # char literal or lifetime
            m = re.compile(r"'(\\.[^']*|[^'\\])'").match(s, i)
            if m: i = m.end(); continue
            i += 1; continue
        if depth == 0 and ang == 0 and c in stops: return i
        if c in OPEN: depth += 1
        elif c in CLOSE:
            depth -= 1
            if depth < 0: return i
        elif c == '<' :
            # treat as bracket if not an operator: MIR has no infix operators
            if s[i:i+2] != '<=' : ang += 1
        elif c == '>':
            if i > 0 and s[i-1] in '-=': pass
            else: ang -= 1
        i += 1
    return n

def split_top(s, sep=','):
    out = []; i = 0; n = len(s); start = 0
    while i <= n:
        j = scan(s, i, sep)
        out.append(s[start:j].strip())
        if j >= n: break
        i = start = j + 1
    if out and out[-1] == '': out.pop()
    return out

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'name', 'args', 'full')
    def __init__(s, k, name='', args=(), full=None):
        s.k = k; s.name = name; s.args = tuple(args); s.full = full if full is not None else name
    def __repr__(s):
        if s.k == 'path':
            return s.name + ('<' + ', '.join(map(repr, s.args)) + '>' if s.args else '')
        if s.k in ('ref', 'refmut', 'ptr'):
            return {'ref': '&', 'refmut': '&mut ', 'ptr': '*'}[s.k] + repr(s.args[0])
        if s.k == 'slice': return '[' + repr(s.args[0]) + ']'
        if s.k == 'array': return '[%r; %s]' % (s.args[0], s.name)
        if s.k == 'tuple': return '(' + ', '.join(map(repr, s.args)) + ')'
        return s.k + ':' + s.name
    def key(s): return (s.k, s.name, s.full, tuple(a.key() for a in s.args))
    def __eq__(s, o): return isinstance(o, Ty) and s.key() == o.key()
    def __hash__(s): return hash(s.key())

UNIT = Ty('tuple')

def strip_path_generics(s):
    """a::B::<T>::c -> ([segments], [generic-arg-string lists])"""
    segs = []; gens = []
    i = 0; n = len(s); cur = ''
    while i < n:
        if s.startswith('::<', i) or (s[i] == '<' and (cur != '')):
            j = i + (3 if s.startswith('::<', i) else 1)
            e = match_angle(s, j)
            inner = s[j:e]
            if s.startswith('::<', i) and inner.startswith('impl ') and s.startswith('::', e + 1):
                # `slice::<impl [T]>::len`
                if cur: segs.append(cur); gens.append([])
                segs.append('<' + inner + '>'); gens.append([]); cur = ''
            else:
                segs.append(cur); gens.append(split_top(inner)); cur = ''
            i = e + 1
            if s.startswith('::', i) and not s.startswith('::<', i): i += 2
            elif s.startswith('::<impl', i): pass
            continue
        if s[i] == '<':
            e = match_angle(s, i + 1)
            segs.append(s[i:e + 1]); gens.append([]); i = e + 1
            if s.startswith('::', i): i += 2
            continue
        if s[i] == '{':
            e = match_brace(s, i)
            cur += s[i:e + 1]; i = e + 1
            continue
        if s.startswith('::', i):
            if cur: segs.append(cur); gens.append([]); cur = ''
            i += 2; continue
        cur += s[i]; i += 1
    if cur: segs.append(cur); gens.append([])
    return segs, gens

def match_angle(s, i):
    """i just after '<'; returns index of the matching '>'"""
    d = 1; n = len(s)
    while i < n:
        c = s[i]
        if c == '"': i = skip_string(s, i); continue
        if c == '<': d += 1
        elif c == '>' and s[i-1] not in '-=':
            d -= 1
            if d == 0: return i
        i += 1
    raise ValueError('unbalanced <> in ' + s)

def match_brace(s, i):
    d = 0
    while i < len(s):
        if s[i] == '"': i = skip_string(s, i); continue
        if s[i] == '{': d += 1
        elif s[i] == '}':
            d -= 1
            if d == 0: return i
        i += 1
    raise ValueError('unbalanced {} in ' + s)

@lru_cache(maxsize=None)
def parse_ty(s):
    s = s.strip()
    if s.startswith('for<'):
        e = match_angle(s, 4); return parse_ty(s[e+1:])
    if s.startswith('&'):
        s = s[1:].lstrip()
        m = re.match(r"'[A-Za-z_0-9]+\s+", s)
        if m: s = s[m.end():]
        if s.startswith('mut '): return Ty('refmut', args=[parse_ty(s[4:])])
        return Ty('ref', args=[parse_ty(s)])
    if s.startswith('*const '): return Ty('ptr', args=[parse_ty(s[7:])])
    if s.startswith('*mut '): return Ty('ptr', args=[parse_ty(s[5:])])
    if s.startswith('('):
        return Ty('tuple', args=[parse_ty(x) for x in split_top(s[1:-1])])
    if s.startswith('['):
        inner = s[1:-1]; j = scan(inner, 0, ';')
        if j < len(inner): return Ty('array', inner[j+1:].strip(), [parse_ty(inner[:j])])
        return Ty('slice', args=[parse_ty(inner)])
    if s == '!': return Ty('never')
    if s.startswith('dyn ') or s.startswith('impl '): return Ty('dyn', s)
    if s.startswith('{'):
        return Ty('closure', s)
    if re.match(r'(unsafe )?(extern "[^"]*" )?fn\(', s): return Ty('fnptr', s)
    if s.startswith('<'):
        return Ty('proj', s)
    segs, gens = strip_path_generics(s)
    args = []
    for g in gens:
        for a in g:
            a = a.strip()
            if a.startswith("'"): continue
            if re.match(r"^[A-Za-z_]+ = ", a): a = a.split(' = ', 1)[1]
            if re.match(r'^-?\d', a) or a.startswith('{'):
                args.append(Ty('const', a)); continue
            args.append(parse_ty(a))
    full = '::'.join(segs)
    return Ty('path', segs[-1], args, full)

# ---------------------------------------------------------------- places / operands
def parse_place(s):
    """-> (local, [proj...]); proj: ('deref',) ('f', idx, Ty) ('v', name) ('i', local) ('ci', off, fromend) ('sub', a, b, fromend)"""
    p, i = _place(s, 0)
    assert i == len(s), (s, i)
    return p

def _place(s, i):
    if s[i] == '(':
        if s[i+1] == '*':
            (l, pr), j = _place(s, i + 2)
            assert s[j] == ')', s
            base = (l, pr + [('deref',)]); j += 1
        else:
            (l, pr), j = _place(s, i + 1)
            if s[j] == '.':
                m = re.compile(r'\.(\d+): ').match(s, j)
                e = scan(s, m.end(), ')')
                base = (l, pr + [('f', int(m.group(1)), s[m.end():e])]); j = e + 1
            elif s.startswith(' as ', j):
                e = scan(s, j + 4, ')')
                nm = s[j+4:e]
                m = re.match(r'variant#(\d+)', nm)
                base = (l, pr + [('v', nm)]); j = e + 1
            elif s[j] == ')':
                base = (l, pr); j += 1
            else: raise ValueError('place ' + s[j:])
    else:
        m = re.compile(r'_\d+').match(s, i)
        if not m: raise ValueError('place? ' + s[i:])
        base = (m.group(0), []); j = m.end()
    while j < len(s) and s[j] == '[':
        e = s.index(']', j)
        inner = s[j+1:e]
        m = re.match(r'^(-?\d+) of (\d+)$', inner)
        if re.match(r'^_\d+$', inner): pj = ('i', inner)
        elif m: pj = ('ci', int(m.group(1)), inner.startswith('-'))
        else:
            m = re.match(r'^(\d*)(?::|\.\.)(-?)(\d*)$', inner)
            if not m: raise ValueError('index ' + inner)
            pj = ('sub', int(m.group(1) or 0), int(m.group(3) or 0), m.group(2) == '-' or m.group(3) == '')
        base = (base[0], base[1] + [pj]); j = e + 1
    return base, j

def parse_operand(s):
    s = s.strip()
    if s.startswith('no_retag '): s = s[9:]
    if s.startswith('copy '): return ('place', parse_place(s[5:]))
    if s.startswith('move '): return ('place', parse_place(s[5:]))
    if s.startswith('const '): return ('const', s[6:])
    if s.startswith('_') or s.startswith('('): return ('place', parse_place(s))
    return ('const', s)

BINOPS = {'Add','Sub','Mul','Div','Rem','BitXor','BitAnd','BitOr','Shl','Shr','Eq','Lt','Le','Ne','Ge','Gt','Cmp','Offset',
          'AddWithOverflow','SubWithOverflow','MulWithOverflow','AddUnchecked','SubUnchecked','MulUnchecked'}
UNOPS = {'Not','Neg','PtrMetadata'}

def parse_rvalue(s):
    s = s.strip()
    if s.startswith(('copy ', 'move ', 'const ', 'no_retag ')):
        # maybe cast
        j = scan_cast(s)
        if j is not None:
            op = parse_operand(s[:j])
            rest = s[j+4:]
            k = rest.rindex(' (')
            # the kind may itself contain parens: PointerCoercion(Unsize, Implicit)
            m = re.search(r' \(((?:[A-Z][A-Za-z]*)(?:\(.*\))?)\)$', rest)
            return ('cast', op, rest[:m.start()], m.group(1))
        return ('use', parse_operand(s))
    if s.startswith('&'):
        t = s[1:]
        if t.startswith('mut '): return ('refmut', parse_place(t[4:]))
        if t.startswith('raw mut '): return ('refmut', parse_place(t[8:]))
        if t.startswith("raw const "): return ("ref", parse_place(t[10:].replace("(fake) ", "")))
        if t.startswith('fake '): return ('ref', parse_place(re.sub(r'^fake (shallow |deep )?', '', t)))
        m = re.match(r"'[a-z_0-9A-Z]+ ", t)
        if m: t = t[m.end():]
        return ('ref', parse_place(t))
    m = re.match(r'^([A-Z][A-Za-z]*)\(', s)
    if m:
        nm = m.group(1)
        inner = s[m.end():-1]
        if nm in BINOPS:
            a, b = split_top(inner); return ('bin', nm, parse_operand(a), parse_operand(b))
        if nm in UNOPS: return ('un', nm, parse_operand(inner))
        if nm == 'Len': return ('len', parse_place(inner))
        if nm == 'CopyForDeref': return ('use', ('place', parse_place(inner)))
        if nm in ('SizeOf', 'AlignOf'): return ('sizeof', inner)
    if s.startswith('discriminant('): return ('discr', parse_place(s[13:-1]))
    if s.startswith('deref_copy '): return ('use', ('place', parse_place(s[11:])))
    if s.startswith('['):
        inner = s[1:-1]
        j = scan(inner, 0, ';')
        if j < len(inner): return ('repeat', parse_operand(inner[:j]), inner[j+1:].strip())
        return ('array', [parse_operand(x) for x in split_top(inner)])
    if s.startswith('('):
        return ('tuple', [parse_operand(x) for x in split_top(s[1:-1])])
    if s.startswith('{closure@') or s.startswith('{coroutine'):
        e = match_brace(s, 0)
        name = s[:e+1]; rest = s[e+1:].strip()
        caps = []
        if rest.startswith('{'):
            for f in split_top(rest[1:-1]):
                j = scan(f, 0, ':'); caps.append((f[:j].strip(), parse_operand(f[j+1:])))
        return ('closure', name, caps)
    # ADT aggregate
    j = scan(s, 0, '({')
    if j < len(s):
        path = s[:j].strip()
        if s[j] == '(':
            return ('adt', path, [(None, parse_operand(x)) for x in split_top(s[j+1:-1])])
        fs = []
        for f in split_top(s[j+1:-1]):
            k = scan(f, 0, ':'); fs.append((f[:k].strip(), parse_operand(f[k+1:])))
        return ('adt', path, fs)
    return ('adt', s, [])

def scan_cast(s):
    depth = 0; i = 0; n = len(s); ang = 0
    while i < n:
        c = s[i]
        if c == '"': i = skip_string(s, i); continue
        if c == "'":
            m = re.compile(r"'(\\.[^']*|[^'\\])'").match(s, i)
            if m: i = m.end(); continue
        if c in '([{': depth += 1
        elif c in ')]}': depth -= 1
        elif c == '<': ang += 1
        elif c == '>' and s[i-1] not in '-=': ang -= 1
        elif depth == 0 and ang == 0 and s.startswith(' as ', i) and s.endswith(')'): return i
        i += 1
    return None

# ---------------------------------------------------------------- callee
class Callee:
    __slots__ = ('raw', 'trait', 'self_ty', 'method', 'segs', 'gens', 'trait_args', 'key')
    def __repr__(s): return s.raw

@lru_cache(maxsize=None)
def parse_callee(raw):
    c = Callee(); c.raw = raw; c.trait = None; c.self_ty = None; c.trait_args = []; c.segs = []; c.gens = []
    if raw.startswith('<'):
        e = match_angle(raw, 1)
        inner = raw[1:e]
        j = scan_as(inner)
        rest = raw[e+1:].lstrip(':')
        rs, rg = strip_path_generics(rest)
        c.method = rs[-1]; c.gens = [parse_ty_or_none(x) for x in rg[-1]]; c.segs = rs
        if j is not None and inner.startswith('impl '):
            if ' for ' not in inner[:j]:
                # a method of an argument of type `impl Trait`
                tr = parse_ty(inner[j+4:]); c.trait = tr.name; c.trait_args = list(tr.args); c.key = '%s::%s' % (c.trait, c.method)
                return c
            j = None
        if j is None:
            c.self_ty = parse_ty(inner) if not inner.startswith('impl ') else None
            c.key = '%s::%s' % (c.self_ty.name if c.self_ty else inner, c.method)
        else:
            c.self_ty = parse_ty(inner[:j]); tr = parse_ty(inner[j+4:])
            c.trait = tr.name; c.trait_args = list(tr.args)
            c.key = '%s::%s' % (c.trait, c.method)
        return c
    segs, gens = strip_path_generics(raw)
    c.segs = segs
    c.method = segs[-1]
    c.gens = [parse_ty_or_none(x) for x in gens[-1]]
    if len(segs) >= 2:
        prev = segs[-2]
        if prev.startswith('<impl '):
            t = parse_ty(prev[6:-1])
            c.self_ty = t
            nm = {'slice': 'slice', 'array': 'array'}.get(t.k, t.name)
            c.key = nm + '::' + c.method
        else:
            args = [parse_ty_or_none(x) for x in gens[-2]]
            args = [a for a in args if a is not None]
            c.self_ty = Ty('path', prev, args, '::'.join(segs[:-1]))
            c.key = prev + '::' + c.method
    else:
        c.key = c.method
    return c

def parse_ty_or_none(x):
    x = x.strip()
    if x.startswith("'"): return None
    if re.match(r'^-?\d', x) or x in ('true', 'false'): return Ty('const', x)
    return parse_ty(x)

def scan_as(s):
    i = 0; d = 0; ang = 0
    while i < len(s):
        c = s[i]
        if c in '([{': d += 1
        elif c in ')]}': d -= 1
        elif c == '<': ang += 1
        elif c == '>' and s[i-1] not in '-=': ang -= 1
        elif d == 0 and ang == 0 and s.startswith(' as ', i): return i
        i += 1
    return None

# ---------------------------------------------------------------- functions
class Function:
    def __init__(s, name, header, lines, kind):
        s.name = name; s.header = header; s.lines = lines; s.kind = kind
        s._parsed = False
    def parse(s):
        if s._parsed: return s
        s._parsed = True
        s.args = []; s.locals = {}
        if s.kind == 'fn':
            # header: fn NAME(_1: T, ..) -> R {
            h = s.header
            i = len('fn ') + len(s.name)
            assert h[i] == '(', h
            j = scan(h, i + 1, ')')
            for a in split_top(h[i+1:j]):
                nm, ty = a.split(': ', 1); s.args.append(nm); s.locals[nm] = ty
            s.ret = h[j+1:].strip()[2:].strip().rstrip('{').strip()
            s.locals['_0'] = s.ret
        s.blocks = {}; s.debug = {}
        cur = None
        for ln in s.lines:
            t = ln.strip()
            if not t: continue
            if cur is None:
                m = re.match(r'^bb(\d+)( \(cleanup\))?: \{$', t)
                if m:
                    cur = int(m.group(1)); stmts = []; clean = bool(m.group(2)); continue
                m = re.match(r'^let (mut )?(_\d+): (.*);$', t)
                if m: s.locals[m.group(2)] = m.group(3); continue
                m = re.match(r'^debug (\S+) => (.*);$', t)
                if m: s.debug.setdefault(m.group(2), m.group(1))
                continue
            if t == '}':
                if not clean: s.blocks[cur] = stmts
                cur = None; continue
            if t.startswith(('StorageLive', 'StorageDead', 'PlaceMention', 'FakeRead', 'AscribeUserType', 'nop', 'Retag', 'Coverage', 'BackwardIncompatibleDrop', 'ConstEvalCounter')): continue
            stmts.append(t)
        s._pb = {}
        return s
    def block(s, n):
        b = s._pb.get(n)
        if b is None:
            b = [parse_stmt(t) for t in s.blocks[n]]
            s._pb[n] = b
        return b

def _bb(x): return int(x.strip()[2:])

def _targets(t):
    # "[return: bb1, unwind continue]" | "unwind continue" | "bb3"
    t = t.strip()
    if t.startswith('['):
        d = {}
        for x in split_top(t[1:-1]):
            if ': ' in x:
                k, v = x.split(': ', 1); d[k.strip()] = v.strip()
            else: d[x] = None
        return d
    return {'_': t}

def parse_stmt(t):
    t = t.rstrip(';') if t.endswith(';') else t
    if t == 'return': return ('return',)
    if t == 'unreachable': return ('unreachable',)
    if t in ('resume', 'unwind resume', 'abort') or t.startswith('terminate'): return ('resume',)
    if t.startswith('goto -> '): return ('goto', _bb(t[8:]))
    if t.startswith('switchInt('):
        j = scan(t, 10, ')')
        op = parse_operand(t[10:j])
        rest = t[j+1:].strip()[3:].strip()
        cases = []
        other = None
        for x in split_top(rest[1:-1]):
            k, v = x.split(': ')
            if k == 'otherwise': other = _bb(v)
            else: cases.append((int(k), _bb(v)))
        return ('switch', op, cases, other)
    if t.startswith('drop('):
        j = scan(t, 5, ')')
        d = _targets(t[j+1:].strip()[3:])
        return ('drop', t[5:j], _bb(d['return']))
    if t.startswith('assert('):
        j = scan(t, 7, ')')
        parts = split_top(t[7:j])
        d = _targets(t[j+1:].strip()[3:])
        cond = parts[0]; neg = cond.startswith('!')
        return ('assert', neg, parse_operand(cond[1:] if neg else cond), parts[1], _bb(d['success']), [x for x in parts[2:]])
    if t.startswith('falseEdge') or t.startswith('falseUnwind'):
        m = re.search(r'real: (bb\d+)', t); return ('goto', _bb(m.group(1)))
    m = re.match(r'^discriminant\((.*)\) = (\d+)$', t)
    if m: return ('setdiscr', parse_place(m.group(1)), int(m.group(2)))
    if t.startswith('intrinsic') or t.startswith('assume(') or t.startswith('Intrinsic') : return ('nop', t)
    j = scan(t, 0, '=')
    while j < len(t) and not (t[j-1] == ' ' and t[j+1] == ' '):
        j = scan(t, j + 1, '=')
    if j >= len(t):
        return ('nop', t)
    lhs = parse_place(t[:j].strip()); rhs = t[j+1:].strip()
    # call?
    k = find_arrow(rhs)
    if k is not None:
        tgt = _targets(rhs[k+4:])
        callpart = rhs[:k].rstrip()
        # function path then (args)
        a = find_args(callpart)
        func = callpart[:a].strip()
        args = [parse_operand(x) for x in split_top(callpart[a+1:-1])]
        ret = tgt.get('return')
        if func.startswith(('move ', 'copy ', 'no_retag ')): f = ('op', parse_operand(func))
        else:
            f = ('fn', func)
        return ('call', lhs, f, args, _bb(ret) if ret else None)
    return ('assign', lhs, parse_rvalue(rhs))

def find_arrow(s):
    d = 0; i = 0; n = len(s); ang = 0
    best = None
    while i < n:
        c = s[i]
        if c == '"': i = skip_string(s, i); continue
        if c == "'":
            m = re.compile(r"'(\\.[^']*|[^'\\])'").match(s, i)
            if m: i = m.end(); continue
        if c in '([{': d += 1
        elif c in ')]}': d -= 1
        elif d == 0 and s.startswith(' -> ', i):
            r = s[i+4:]
            if r.startswith('[return:') or r.startswith('[unwind') or r.startswith('unwind'): best = i; return i
        i += 1
    return best

def find_args(s):
    """index of the '(' opening the final argument list"""
    assert s.endswith(')'), s
    i = 0; n = len(s); stack = []
    last = None
    while i < n:
        c = s[i]
        if c == '"': i = skip_string(s, i); continue
        if c == "'":
            m = re.compile(r"'(\\.[^']*|[^'\\])'").match(s, i)
            if m: i = m.end(); continue
        if c in '([{': stack.append(i)
        elif c in ')]}':
            last = stack.pop()
        i += 1
    return last

HDR = re.compile(r'^(?:(?:pub )?(?:unsafe )?fn (.*)|(const|static|static mut) (.*))$')

class Dump:
    """index of one crate's MIR dump"""
    def __init__(s, path, crate):
        s.crate = crate; s.fns = {}; s.consts = {}; s.allocs = {}; s.order = []
        cur = None; buf = None; hdr = None
        with open(path) as f:
            for ln in f:
                if buf is not None:
                    if ln.startswith('}'):
                        s._add(hdr, buf); buf = None
                    else: buf.append(ln)
                    continue
                if ln.startswith('fn ') or ln.startswith('const ') or ln.startswith('static '):
                    h = ln.rstrip('\n')
                    if h.endswith('{'): hdr = h; buf = []
                    else: s._add_const1(h)
                elif ln.startswith('alloc'):
                    h = ln.rstrip('\n')
                    if h.endswith('{'): hdr = h; buf = []
                    else: s._add(h, [])
                elif ln.startswith('unsafe fn '):
                    hdr = ln[7:].rstrip('\n'); buf = []
    def _add(s, hdr, buf):
        if hdr.startswith('alloc'):
            s.allocs[hdr.split(' ')[0]] = buf; return
        if hdr.startswith('fn '):
            # name up to top-level '('
            j = scan(hdr, 3, '(')
            # closures inside path contain parens? no
            name = hdr[3:j]
            fn = Function(name, hdr, buf, 'fn')
            base = name; k = 1
            while name in s.fns: name = base + '#dup%d' % k; k += 1
            fn.uname = name
            s.fns[name] = fn; s.order.append(name)
        else:
            h = re.sub(r'^(const|static mut|static) ', '', hdr)
            m = re.match(r'^(.*?): (.*?) = \{$', h)
            j = find_colon(h)
            name = h[:j]; ty = h[j+2:].rsplit(' = {', 1)[0]
            fn = Function(name, hdr, buf, 'const'); fn.ret = ty
            m = re.match(r'^(.*)::(promoted\[\d+\])$', name)
            if m and s.order and s.fns[s.order[-1]].name == m.group(1): s.fns[s.order[-1]].__dict__.setdefault('promoted', {})[m.group(2)] = fn
            s.consts.setdefault(name, fn)
    def _add_const1(s, h):
        h = re.sub(r'^(const|static mut|static) ', '', h)
        j = find_colon(h)
        if j is None: return
        name = h[:j]; rest = h[j+2:]
        if ' = ' in rest:
            ty, v = rest.rsplit(' = ', 1)
            s.consts.setdefault(name, ('val', ty, v.rstrip(';')))

def find_colon(h):
    i = 0; ang = 0; d = 0
    while i < len(h):
        c = h[i]
        if c == '<': ang += 1
        elif c == '>' and h[i-1] not in '-=': ang -= 1
        elif c in '({[': d += 1
        elif c in ')}]': d -= 1
        elif ang == 0 and d == 0 and h.startswith(': ', i): return i
        i += 1
    return None

if __name__ == '__main__':
    import time
    for p in sys.argv[1:]:
        t = time.time()
        d = Dump(p, 'x')
        bad = 0; nst = 0
        kinds = {}
        for n, f in d.fns.items():
            try:
                f.parse()
                for b in f.blocks:
                    for st in f.block(b):
                        nst += 1; kinds[st[0]] = kinds.get(st[0], 0) + 1
                        if st[0] == 'nop': print('NOP', st)
                        if st[0] == 'call' and st[2][0] == 'fn': parse_callee(st[2][1])
                for l, ty in f.locals.items(): parse_ty(ty)
            except Exception as e:
                bad += 1
                if bad < 10: print('BAD', n[:150], type(e), str(e)[:200])
        print(p, len(d.fns), 'fns', len(d.consts), 'consts', nst, 'stmts', bad, 'bad', kinds, round(time.time()-t, 1))
