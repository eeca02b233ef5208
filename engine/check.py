"""Decide one property: discharge its contracts and lemmas on MIR of /repo's current tree, then replay on the real code.

usage: check.py PROPERTY [quick|thorough]
exit 0: held on everything explored; exit 1: VIOLATION line printed."""
import sys, os, time, json, subprocess, importlib, multiprocessing as mp, signal, threading, hashlib, shutil, re
sys.setrecursionlimit(100000)
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
REPO = '/repo'; BUILD = os.path.join(VERIF, '.build')
from plan import PLAN, HDEPS, NOTES, LEVEL
WS_MEMBERS = ['libursa', 'libzmix', 'libzmix/bbs', 'libzmix/bulletproofs_amcl']
PKG = {'bbs': 'bbs', 'zmix': 'zmix', 'bulletproofs_amcl': 'bulletproofs_amcl', 'ursa': 'ursa', 'us': 'ursa_sharing'}

def env(**kw):
    e = dict(os.environ)
    e.update(HOME='/root', PATH='/root/.cargo/bin:' + e.get('PATH', ''), RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true',
             CARGO_TERM_COLOR='never', RUSTC_WRAPPER='', CARGO_INCREMENTAL='0', RUST_BACKTRACE='0', LIBCLANG_PATH='/usr/lib/llvm-14/lib')
    e.pop('RUSTFLAGS', None); e.update(kw); return e

_wsl = threading.Lock()
def workspace():
    with _wsl: return _workspace()
def _workspace():
    """a cargo workspace that reaches the crates of /repo through symlinks (they are not members of /repo's own)"""
    ws = os.path.join(BUILD, 'ws'); os.makedirs(ws + '/libursa', exist_ok=True)
    def link(src, dst):
        if os.path.islink(dst) or os.path.exists(dst):
            if os.path.islink(dst) and os.readlink(dst) == src: return
            os.remove(dst)
        os.symlink(src, dst)
    def put(p, t):
        if not os.path.exists(p) or open(p).read() != t: open(p, 'w').write(t)
    link(REPO + '/libzmix', ws + '/libzmix')
    for f in os.listdir(ws + '/libursa'):
        if os.path.islink(ws + '/libursa/' + f): os.remove(ws + '/libursa/' + f)
    for f in os.listdir(REPO + '/libursa'):
        if f != 'Cargo.toml': link(REPO + '/libursa/' + f, ws + '/libursa/' + f)
    put(ws + '/libursa/Cargo.toml', ''.join(l for l in open(REPO + '/libursa/Cargo.toml') if not l.startswith('bytebuffer-rs')))
    put(ws + '/Cargo.toml', '[workspace]\nmembers = %s\nresolver = "1"\n' % json.dumps(WS_MEMBERS))
    put(ws + '/Cargo.lock', open(HERE + '/Cargo.lock.ws').read())
    return ws

class Broken(Exception): pass

def sh(cmd, cwd, e, out=None, timeout=800):
    with open(out, 'w') if out else open(os.devnull, 'w') as f:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=f, stderr=subprocess.PIPE, timeout=timeout, text=True)
    return p.returncode, p.stderr

def dump(crates):
    """MIR and macro-expanded source of the crates, from the current tree"""
    d = os.path.join(BUILD, 'mir'); os.makedirs(d, exist_ok=True)
    ws = None; mir = ['-Zunpretty=mir', '-Zmir-opt-level=0', '-Zub-checks=no', '-Ztrim-diagnostic-paths=false']
    cleaned = set()
    for c in crates:
        if c == 'us':
            cwd = REPO; pre = ['cargo', '--config', os.path.join(HERE, 'openssl.toml')]
            e = env(CARGO_TARGET_DIR=BUILD + '/dump2', RUSTC_BOOTSTRAP='1', RUSTFLAGS='--force-warn unconditional_recursion')
            members = ['ursa_sharing']
        else:
            ws = ws or workspace(); cwd = ws; pre = ['cargo']
            e = env(CARGO_TARGET_DIR=BUILD + '/dump', RUSTC_BOOTSTRAP='1'); members = ['bbs', 'bulletproofs_amcl', 'ursa', 'zmix']
        if cwd not in cleaned:
            for m in members: sh(pre + ['clean', '--offline', '-p', m], cwd, e)
            cleaned.add(cwd)
        for ext, opts in (('mir', mir), ('exp', ['-Zunpretty=expanded'])):
            out = '%s/%s.%s' % (d, c, ext)
            rc, err = sh(pre + ['rustc', '--profile', 'check', '-p', PKG[c], '--lib', '--offline', '--'] + opts, cwd, e, out)
            if rc or os.path.getsize(out) < 100: raise Broken('cannot read MIR of %s: %s' % (c, err[-1500:]))
    return d

def harness_build(h):
    src = os.path.join(VERIF, 'harness', h); workspace()
    e = env(CARGO_TARGET_DIR=os.path.join(BUILD, 'h' if h != 'sharing' else 'hs'))
    pre = ['cargo'] + (['--config', os.path.join(HERE, 'openssl.toml')] if h == 'sharing' else [])
    lock = open(src + '/Cargo.lock').read()
    sh(pre + ['clean', '--offline'] + [x for p in HDEPS[h] + ['h_' + h] for x in ('-p', p)], src, e)
    rc, err = sh(pre + ['build', '--offline'], src, e)
    if open(src + '/Cargo.lock').read() != lock: open(src + '/Cargo.lock', 'w').write(lock)
    if rc: raise Broken('harness %s does not build: %s' % (h, err[-3000:]))
    return os.path.join(e['CARGO_TARGET_DIR'], 'debug', 'h_' + h)

def run_to(cmd, timeout, e=None):
    import resource
    def lim(): resource.setrlimit(resource.RLIMIT_AS, (16 << 30, 16 << 30)); resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, preexec_fn=lim, env=e, cwd='/tmp')
    try: out, _ = p.communicate(timeout=timeout); return p.returncode, out
    except subprocess.TimeoutExpired:
        p.kill(); out, _ = p.communicate(); return 'timeout', out or ''

def harness_run(h, prop, tier, seed):
    """[(scenario, case, seed, detail)], cases per scenario, known findings"""
    b = harness_build(h)
    budget = 75 if tier == 'quick' else 420
    e = dict(os.environ, H_BUDGET=str(budget))
    rc, out = run_to([b, 'run', prop, tier, str(seed)], budget + 60, e)
    fails, cases, known = [], {}, []
    for l in out.splitlines():
        f = l.split('\t')
        if f[0] == 'FAIL': fails.append((f[1], int(f[2]), int(f[3]), f[4]))
        elif f[0] == 'CASES': cases[f[1]] = int(f[2])
        elif f[0] == 'KNOWN': known.append((f[1], f[2]))
    if rc not in (0, 1):
        # the code under test killed or hung the process: find the case
        rc2, out2 = run_to([b, 'list', prop, tier, str(seed)], 20, e)
        names = [l.split('\t')[1:] for l in out2.splitlines() if l.startswith('SC\t')]
        t0 = time.time()
        for name, n in names:
            for c in range(int(n)):
                if time.time() - t0 > 150: break
                r, o = run_to([b, 'replay', prop, name, str(c), str(seed)], 20, e)
                if r not in (0, 1):
                    fails.append((name, c, seed, 'process %s' % ('hangs' if r == 'timeout' else 'killed by signal %s' % -r))); break
        if not fails: fails.append(('run', 0, seed, 'harness process ended with %s' % rc))
    return b, fails, cases, known

# ------------------------------------------------------------------ deductive part
_S = {}
def _work(task):
    kind, mname, key, limit = task
    from execu import Executor, Unsupported
    import contracts, solver
    mod, prog, cons = _S[mname]
    t = time.time(); r = contracts.Result(); s0 = dict(vars(solver.stats))
    ex = Executor(prog, mod.MODELS(), cons)
    def alarm(*a): raise Unsupported('time limit')
    signal.signal(signal.SIGALRM, alarm)
    own = mod.C[key].opts.get('limit', 0) if kind == 'c' else 0; signal.alarm(max(int(limit * 2.5) + 5, min(2 * own, 500)))
    name = key
    try:
        if kind == 'x':
            name = 'external ' + mod.EXT[key][1]; lean(mod.EXT[key], r)
        elif kind == 'c':
            c = mod.C[key]; name = '%s::%s' % (c.crate, c.ident); contracts.check_contract(ex, c, r, limit)
        else:
            l = mod.LEM[key][1]; name = 'lemma ' + l.name; l.limit = min(getattr(l, 'limit', limit), limit); contracts.check_lemma(ex, l, r)
    except BaseException as e:
        r.add(str(name), 'undecided', 'internal: %r' % e)
    finally: signal.alarm(0)
    st = {k: v - s0.get(k, 0) for k, v in vars(solver.stats).items()}
    return dict(kind=kind, name=name, obs=r.obs, secs=time.time() - t, models=sorted(map(str, ex.models_used)), assumed=sorted(set(map(str, ex.assumed))),
                contracts=sorted(map(str, ex.contracts_used)), inlined=sorted(map(str, ex.inlined)), stats=st)

def lean(e, r):
    """a mathematical lemma checked by Lean: no error, no sorry, only the standard axioms"""
    t = time.time(); f = os.path.join(VERIF, 'lean', e[2])
    try: p = subprocess.run(['lean', f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=200, cwd='/tmp')
    except Exception as x: r.add(e[1], 'undecided', repr(x), time.time() - t); return
    ax = re.findall(r'depends on axioms: \[(.*?)\]', p.stdout, re.S); okax = {'propext', 'Classical.choice', 'Quot.sound'}
    good = p.returncode == 0 and 'sorry' not in p.stdout and ax and all({y.strip() for y in x.split(',')} <= okax for x in ax)
    r.add(e[1], 'proved' if good else 'undecided', '' if good else p.stdout[-500:], time.time() - t)

def deductive(prop, mods, tier, log):
    from execu import Program
    tasks = []; crates = []
    limit = 60 if tier == 'quick' else 240
    ms = {}
    for m in mods:
        mod = importlib.import_module('specs.' + m); ms[m] = mod
        for c in mod.CRATES:
            if c not in crates: crates.append(c)
    d = dump(crates)
    t0 = time.time()
    for m, mod in ms.items():
        prog = Program(REPO)
        for c in mod.CRATES: prog.load(c, '%s/%s.mir' % (d, c), '%s/%s.exp' % (d, c))
        cons = [c for c in mod.C.values() if not c.opts.get('check_only')]
        _S[m] = (mod, prog, cons)
        for k, c in mod.C.items():
            if prop in (mod.TAGS[k].split() if isinstance(mod.TAGS[k], str) else mod.TAGS[k]): tasks.append(('c', m, k, limit))
        for i, (props, l) in enumerate(mod.LEM):
            if prop in props: tasks.append(('l', m, i, limit))
        for i, e in enumerate(getattr(mod, 'EXT', [])):
            if prop in e[0]: tasks.append(('x', m, i, limit))
    log('%d functions and lemmas' % len(tasks))
    with mp.get_context('fork').Pool(min(8, len(tasks) or 1), maxtasksperchild=4) as pool:
        res = pool.map(_work, tasks, chunksize=1)
    return res, crates, d

def main():
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    log = lambda m: print('[%6.1fs] %s' % (time.time() - t0, m), flush=True)
    mods, harness = PLAN[prop]
    os.makedirs(BUILD, exist_ok=True); os.makedirs(VERIF + '/evidence', exist_ok=True); os.makedirs(VERIF + '/replay', exist_ok=True)
    known = {}
    for l in open(VERIF + '/known_findings.txt'):
        m = re.match(r'known: property=(\S+) id=(\S+) (.*)', l)
        if m and m.group(1) == prop: known[m.group(2)] = m.group(3).strip()
    hres = {}; herr = {}
    def hrun():
        for h in harness:
            try: hres[h] = harness_run(h, prop, tier, seed)
            except Exception as e: herr[h] = repr(e)[:3000]
    th = threading.Thread(target=hrun); th.start()
    res = []; crates = []; dumperr = None; d = None
    if mods:
        try: res, crates, d = deductive(prop, mods, tier, log)
        except Broken as e: dumperr = str(e)
    th.join()
    obs = [(r['name'],) + tuple(o) for r in res for o in r['obs']]
    failed = [o for o in obs if o[2] == 'failed']; und = [o for o in obs if o[2] == 'undecided']; proved = [o for o in obs if o[2] == 'proved']
    viol = []; kf = []
    # concrete failing inputs first
    for h, (b, fails, cases, kn) in hres.items():
        for sc, c, s, det in fails:
            p = '%s/replay/%s-%s-%s-%s.json' % (VERIF, prop, h, sc, c)
            json.dump(dict(property=prop, harness=h, scenario=sc, case=c, seed=s, detail=det,
                           command='/verif/check.sh replay %s %s %s %s %s' % (h, prop, sc, c, s)), open(p, 'w'), indent=1)
            viol.append((p, '%s/%s case %s: %s' % (h, sc, c, det), True))
        for kid, det in dict(kn).items():
            if kid in known: kf.append((kid, det))
            else:
                p = '%s/replay/%s-%s-%s.json' % (VERIF, prop, h, kid); json.dump(dict(property=prop, harness=h, finding=kid, detail=det), open(p, 'w'), indent=1)
                viol.append((p, '%s %s: %s' % (h, kid, det), True))
    hard = []
    for o in failed:
        k = [x for x in known if x.startswith('ob:') and o[1].startswith(x[3:].replace('_', ' ')) or x == 'ob:' + re.sub(r'\W+', '_', o[1])]
        if k: kf.append((k[0], o[1])); continue
        hard.append(o)
    if hard:
        p = '%s/replay/%s-obligations.json' % (VERIF, prop)
        json.dump(dict(property=prop, failed=[dict(unit=o[0], obligation=o[1], verifier_output=o[3]) for o in hard]), open(p, 'w'), indent=1)
        for o in hard[:6]: log('FAILED %s: %s' % (o[1], o[3][:600].replace('\n', ' ')))
    for h, e in herr.items(): log('HARNESS ERROR %s: %s' % (h, e))
    if dumperr: log('MIR ERROR ' + dumperr)
    for kid, desc in {k: known[k] for k, _ in kf}.items(): print('KNOWN-FINDING: property=%s %s' % (prop, desc))
    for o in und: log('undecided %s: %s' % (o[1], o[3][:200].replace('\n', ' ')))
    cases = sum(sum(x[2].values()) for x in hres.values())
    fns = sorted({r['name'] for r in res if r['kind'] == 'c'}); lemmas = sorted({r['name'] for r in res if r['kind'] != 'c'})
    agg = {}
    for r in res:
        for k, v in r['stats'].items():
            if isinstance(v, (int, float)): agg[k] = round(agg.get(k, 0) + v, 3)
    ext = sorted({m for r in res for m in r['models']}); assumed = sorted({a for r in res for a in r['assumed']})
    level = LEVEL.get(prop, 'proof')
    cov = dict(obligations=len(obs), discharged=len(proved), failed=len(failed), undecided=[dict(obligation=o[1], reason=o[3][:300]) for o in und],
               checker_cmd='python3-vt /verif/engine/check.py %s %s' % (prop, tier),
               trusted_base=['rustc MIR of %s (stable toolchain, -Zmir-opt-level=0) is the code that runs' % ', '.join(crates), 'the symbolic executor and ring normaliser in /verif/engine',
                             'z3 (QF/quantified linear integer arithmetic, booleans, uninterpreted functions)', 'models of external functions listed under external_models'] + NOTES.get('trusted', []),
               functions_under_contract=fns, lemmas=lemmas, inlined_functions=sorted({m for r in res for m in r['inlined']}),
               external_models=ext, solver=agg,
               units=[dict(name=r['name'], obligations=len(r['obs']), discharged=sum(o[1] == 'proved' for o in r['obs']), secs=round(r['secs'], 2)) for r in res],
               bounded=dict(label='bounded replay on the real code: random and boundary inputs, not counted as proved', cases={h: x[2] for h, x in hres.items()}, total=cases, seed=seed),
               evaluations=cases, distinct_nontrivial=cases, rule='every case draws fresh inputs from its own seed (scenario, case number, VERIF_SEED); cases are distinct by seed and each runs the real code against an independently computed oracle',
               samples=[dict(harness=h, scenario=s, case=0, seed=seed) for h, x in hres.items() for s in list(x[2])[:3]])
    if level == 'other': cov['explanation'] = NOTES.get(prop, '')
    nv = len([v for v in viol]) + (1 if hard else 0)
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assumed + NOTES.get('assumptions', []) + NOTES.get(prop + ':assumptions', []),
              wall_s=round(time.time() - t0, 2), violations=nv)
    json.dump(ev, open('%s/evidence/%s.json' % (VERIF, prop), 'w'), indent=1)
    log('%d obligations, %d discharged, %d failed, %d undecided; %d bounded cases' % (len(obs), len(proved), len(failed), len(und), cases))
    if viol:
        for p, det, _ in viol[:8]: log('FAIL ' + det[:600])
        print('VIOLATION property=%s replay=%s' % (prop, viol[0][0])); return 1
    if hard:
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, p)); return 1
    if dumperr or herr:
        # the tree does not build, so nothing could be decided
        p = '%s/replay/%s-build.json' % (VERIF, prop); json.dump(dict(property=prop, error=dumperr or herr), open(p, 'w'), indent=1)
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, p)); return 1
    return 0

def setup():
    os.makedirs(BUILD, exist_ok=True)
    crates = sorted({c for p, (ms, _) in PLAN.items() for m in ms for c in importlib.import_module('specs.' + m).CRATES})
    dump(crates)
    for h in sorted({h for _, hs in PLAN.values() for h in hs}): harness_build(h)

if __name__ == '__main__':
    if sys.argv[1] == 'setup': setup(); sys.exit(0)
    if sys.argv[1] == 'replay':
        b = harness_build(sys.argv[2]); rc, out = run_to([b, 'replay'] + sys.argv[3:], 120); print(out, end=''); sys.exit(rc if rc in (0, 1) else 1)
    sys.exit(main())
