import sys, time, traceback, os
sys.path.insert(0, __import__('os').path.dirname(__import__('os').path.abspath(__file__)))
from execu import *; import models, models_bbs
def setup(crate='bbs', M=None):
    p = Program()
    p.load(crate, '/tmp/w/%s.mir' % crate, '/tmp/w/%s.exp' % crate)
    return p
if __name__ == '__main__':
    crate = sys.argv[1]; pats = sys.argv[2:]
    import models_amcl
    import models_sharing
    import models_cl
    MM = models_cl.CLModels if crate == "ursa" else models_sharing.SharingModels if crate == "us" else models_bbs.BBSModels if crate == 'bbs' else models_amcl.AmclModels
    p = setup(crate)
    for ident, infos in sorted(p.byident.items()):
        if pats and not any(x in ident for x in pats): continue
        for i in infos:
            ex = Executor(p, MM()); ex.deadline = time.time() + 20
            i.fn.parse(); t = time.time()
            if i.fn.kind != 'fn': continue
            try:
                args = []; st = State()
                for n in i.fn.args:
                    ty = parse_ty(i.fn.locals[n])
                    v = ex.mk_sym(ty, 'a' + n, (), crate)
                    if ty.k == 'refmut':
                        st.mem[(0, n)] = v; v = MRef(0, n, [])
                    args.append(v)
                outs = ex.run_fn(i.fn, args, st, {}, 0, crate)
                print('OK   %-60s %.2fs %d outcomes' % (ident, time.time() - t, len(outs)))
                if len(pats) and pats[-1] == ident:
                    for s2, o in outs:
                        print('   pc', [c for c in s2.pc]); print('   ->', o); print('   mem', s2.mem)
            except Exception as e:
                if isinstance(e, Unsupported): print('UNS  %-60s %.2fs %s' % (ident, time.time() - t, str(e)[:200]))
                else:
                    print('EXC  %-60s %s' % (ident, e)); 
                    if '-t' in sys.argv or len(pats): traceback.print_exc()
