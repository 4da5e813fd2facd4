"""developer runner: python dv/dev.py C06 [name] [sym|con|both]"""
import sys, os, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
import warnings; warnings.filterwarnings('ignore')
from dv import engine, transform
prop = sys.argv[1]; names = sys.argv[2].split(',') if len(sys.argv) > 2 and sys.argv[2] != 'all' else None
which = sys.argv[3] if len(sys.argv) > 3 else 'both'
repo = os.environ.get('DV_REPO', '/repo')
real = engine.load_contract_real(prop, repo)
if names is None:
    import multiprocessing as mp
    def f(n):
        return n, engine.check_contract(prop, n, repo, os.environ.get('VERIF_TIER', 'quick'), 1, which)
    pool = mp.get_context('fork').Pool(8, maxtasksperchild=1)
    it = pool.imap_unordered(f, list(real), chunksize=1)
else: it = ((n, engine.check_contract(prop, n, repo, os.environ.get('VERIF_TIER', 'quick'), 1, which)) for n in names)
for n, o in it:
    st = {}
    for l, s, h, k in o.obl: st[s] = st.get(s, 0) + 1
    how = {}
    for l, s, h, k in o.obl:
        if s == 'proved': how[h] = how.get(h, 0) + 1
    print('%-28s %s paths=%d %s how=%s evals=%d checks=%d skips=%d distinct=%d wall=%.1f' % (n, '' if real[n].symbolic else '[bounded]', o.paths, st, how, o.evals, o.checks, o.skips, len(o.distinct), o.wall))
    for u in o.unsupported: print('    UNSUPPORTED', u[-int(os.environ.get('DV_W','160')):])
    for u in o.undecided[:3]: print('    UNDECIDED', str(u)[:int(os.environ.get("DV_NOTE","260"))])
    for v in o.violations: print('    VIOLATION', v['message'][:300], str(v['inputs'])[:300], v['how'])
    sys.stdout.flush()
