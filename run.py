#!/opt/venv/bin/python
"""Decide one property:  run.py --property C06 --tier quick

Every contract of the property is verified against /repo's current source (the
source is re-transformed on every run), refuted obligations are replayed on the
real code, and every contract is also evaluated on the real code.
exit 0: held; exit 1 with a VIOLATION line: broken."""
import os, sys
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'; sys.dont_write_bytecode = True
for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'): os.environ.setdefault(k, '1')
os.environ.setdefault('PYTHONHASHSEED', '0')
import warnings; warnings.filterwarnings('ignore')
import argparse, json, time, signal, traceback
import logging; logging.disable(logging.CRITICAL)
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.setrecursionlimit(20000)
import multiprocessing as mp

def worker(prop, name, repo, tier, seed, conn):
    try:
        os.setsid()
        sys.stdout = open(os.devnull, 'w'); sys.stderr = open(os.devnull, 'w')
        from dv import engine, sym
        o = engine.check_contract(prop, name, repo, tier, seed)
        d = dict(obl=o.obl, paths=o.paths, covered=o.covered, unsupported=o.unsupported, undecided=o.undecided, violations=o.violations,
                 evals=o.evals, checks=o.checks, distinct=len(o.distinct), samples=o.samples, z3s=o.z3s, wall=o.wall, notes=sorted(o.notes), skips=o.skips)
        conn.send(d)
    except BaseException:
        conn.send({'crash': traceback.format_exc()[-1500:]})
    finally: conn.close()

def run_all(prop, names, repo, tier, seed, ncpu, total):
    """every contract in its own process, with a time limit"""
    from dv import engine
    real = engine.load_contract_real(prop, repo)
    ctx = mp.get_context('fork')
    todo = list(names); live = {}; res = {}; t0 = time.time()
    while todo or live:
        while todo and len(live) < ncpu:
            n = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(prop, n, repo, tier, seed, b)); p.start(); b.close()
            k = real[n].budget * (3 if tier == 'thorough' else 1) + (300 if tier == 'thorough' else 60)
            live[n] = (p, a, time.time() + k)
        time.sleep(0.02)
        for n in list(live):
            p, a, lim = live[n]
            got = False
            if a.poll():
                try: res[n] = a.recv(); got = True
                except EOFError: res[n] = {'crash': 'process ended'}; got = True
            elif not p.is_alive(): res[n] = {'crash': 'process ended with %s' % p.exitcode}; got = True
            elif time.time() > lim or time.time() - t0 > total:
                res[n] = {'crash': 'time limit'}; got = True
                try: os.killpg(p.pid, signal.SIGKILL)
                except OSError: p.kill()
            if got: p.join(5); a.close(); del live[n]
        if time.time() - t0 > total:
            for n in todo: res[n] = {'crash': 'time limit of the run'}
            todo = []
    return res

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--repo', default=os.environ.get('DV_REPO', '/repo')); ap.add_argument('--only', default=None)
    ap.add_argument('--evidence', default=os.path.join(VERIF, 'evidence')); ap.add_argument('--baseline', action='store_true')
    a = ap.parse_args()
    prop, tier = a.property, a.tier
    try: seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError: seed = 1
    t0 = time.time()
    sys.path.insert(0, a.repo)
    os.makedirs(a.evidence, exist_ok=True)
    repdir = os.path.join(a.evidence, 'replay'); os.makedirs(repdir, exist_ok=True)
    man = {}
    mf = os.path.join(VERIF, 'MANIFEST.json')
    level = 'proof'; 
    if os.path.exists(mf):
        for c in json.load(open(mf))['checks']:
            if c['property'] == prop: level = c['level']
    base = {}
    bf = os.path.join(VERIF, 'baseline.json')
    if os.path.exists(bf): base = json.load(open(bf)).get(prop, {})
    viol = []
    def write_replay(tag, d):
        p = os.path.join(repdir, '%s-%s.json' % (prop, tag))
        json.dump(d, open(p, 'w'), indent=1, default=str)
        return p
    try:
        from dv import engine
        real = engine.load_contract_real(prop, a.repo)
    except Exception as e:
        # the code cannot be imported: every contract over it fails
        p = write_replay('import', {'property': prop, 'error': traceback.format_exc()})
        print('VIOLATION property=%s replay=%s' % (prop, p)); 
        json.dump({'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': {'evaluations': 1, 'distinct_nontrivial': 0, 'rule': 'import of the code', 'samples': ['import']}, 'wall_s': time.time() - t0, 'violations': 1}, open(os.path.join(a.evidence, prop + '.json'), 'w'))
        return 1
    names = [n for n in real if a.only is None or n in a.only.split(',')]
    order = sorted(names, key=lambda n: -base.get(n, {}).get('wall', 1))
    total = 780 if tier == 'quick' else 3500
    res = run_all(prop, order, a.repo, tier, seed, min(8, mp.cpu_count()), total)
    # crashed workers: once more, alone
    again = [n for n in order if 'crash' in res[n] and 'time limit' not in res[n]['crash']]
    if again: res.update(run_all(prop, again, a.repo, tier, seed, 2, 120))
    obl = dis = evals = distinct = 0; samples = []; z3s = 0; notes = set(); per = {}; hows = {}
    bounded = []; undec = []
    for n in names:
        r = res[n]; c = real[n]
        e = {'title': c.title, 'functions': c.targets, 'bounded': (c.bounded or 'not symbolically executable') if not c.symbolic else None}
        per[n] = e
        if 'crash' in r:
            e['error'] = r['crash'][-300:]; undec.append('%s: %s' % (n, r['crash'][-200:])); continue
        o = len(r['obl']); d = sum(1 for x in r['obl'] if x[1] == 'proved')
        obl += o; dis += d; evals += r['evals']; distinct += r['distinct']; z3s += r['z3s']; notes |= set(r['notes'])
        for x in r['obl']:
            if x[1] == 'proved': hows[x[2]] = hows.get(x[2], 0) + 1
        samples += [{n: s} for s in r['samples'][:1]]
        proved = c.symbolic and o > 0 and d == o and not r['unsupported'] and r['covered'] > 0
        e.update(obligations=o, discharged=d, paths=r['paths'], proved=bool(proved), evaluations=r['evals'], wall_s=round(r['wall'], 2), solver_s=round(r['z3s'], 2))
        if r['unsupported']: e['unsupported'] = r['unsupported']
        if r['undecided']: e['undecided'] = r['undecided'][:3]
        if not proved:
            bounded.append(n)
            if c.symbolic: undec.append('%s: %s' % (n, (r['unsupported'] or [str(u['obligation']) for u in r['undecided']] or ['no obligations'])[0][:160]))
        if r['violations']:
            v = r['violations'][0]
            p = write_replay(n, {'property': prop, 'contract': n, 'title': c.title, 'functions': c.targets, 'obligation': v['obligation'], 'what': v['message'], 'how': v['how'], 'inputs': v['inputs'],
                                 'replay': '/opt/venv/bin/python %s/replay.py %s' % (VERIF, os.path.join(repdir, '%s-%s.json' % (prop, n)))})
            viol.append((n, p, v['message'], False))
        elif base.get(n, {}).get('proved') and not proved:
            ref = [u for u in r['undecided'] if u['status'] == 'refuted' and u.get('exact')]
            if ref:
                p = write_replay(n, {'property': prop, 'contract': n, 'title': c.title, 'functions': c.targets, 'obligation': ref[0]['obligation'], 'solver': ref[0], 'what': 'this obligation is discharged on the unchanged tree and is refuted on the current one; no failing input was found'})
                viol.append((n, p, 'refuted: ' + ref[0]['obligation'], True))
    # known findings
    known = []
    kf = os.path.join(VERIF, 'known_findings.json')
    if os.path.exists(kf) and a.only is None:
        from dv import ctx as C
        for f in json.load(open(kf)).get('findings', []):
            if f['property'] != prop: continue
            import importlib
            m = importlib.import_module('contracts.' + prop.lower())
            try: still = m.__dict__['finding_' + f['id']]()
            except Exception as x: still = True
            if still:
                known.append(f['id']); print('KNOWN-FINDING: property=%s %s' % (prop, f['what']))
    proofs = [n for n in names if per[n].get('proved')]
    if not evals and not viol:
        undec.append('no evaluation was made')
    cov = {'obligations': obl, 'discharged': dis,
           'checker_cmd': '/opt/venv/bin/python run.py --property %s --tier %s' % (prop, tier),
           'trusted_base': TRUSTED,
           'contracts': per, 'contracts_proved': len(proofs), 'contracts_bounded': bounded,
           'functions_under_contract': sorted({t for n in names for t in real[n].targets}),
           'functions_proved': sorted({t for n in proofs for t in real[n].targets}),
           'discharged_by': hows, 'solver_s': round(z3s, 2), 'undecided': undec,
           'evaluations': evals, 'distinct_nontrivial': distinct,
           'rule': 'each contract is evaluated on the real code with drawn inputs; an evaluation is non-trivial when it reaches at least one check, and distinct by its inputs',
           'samples': (samples[:6] or ['none']), 'known_findings': known}
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': ASSUME + sorted(notes), 'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    json.dump(ev, open(os.path.join(a.evidence, prop + '.json'), 'w'), indent=1, default=str)
    if a.baseline:
        print(json.dumps({n: {'proved': bool(per[n].get('proved')), 'obligations': per[n].get('obligations', 0), 'wall': per[n].get('wall_s', 0)} for n in names}))
    print('%s: %d contracts, %d proved (%d/%d obligations), %d evaluations, %.1f s' % (prop, len(names), len(proofs), dis, obl, evals, time.time() - t0))
    for u in undec: print('UNDECIDED', u)
    viol.sort(key=lambda v: v[3])
    for n, p, msg, nf in viol:
        print('  %s: %s' % (n, msg[:300]))
    if viol:
        n, p, msg, nf = viol[0]
        print('VIOLATION property=%s replay=%s%s' % (prop, p, ' no-failing-input-found' if nf else ''))
        return 1
    if not evals:
        return 3
    return 0

TRUSTED = ['z3 and the rational-function normaliser of dv/prove.py', 'the source transformation dv/transform.py and the symbolic NumPy of dv/npshim.py and dv/sym.py (cross-checked: every contract is also evaluated on the real code under CPython and NumPy)', 'CPython, executing the transformed source']
ASSUME = ['machine arithmetic is treated as mathematical: reals for floats, unbounded integers', 'divisors are non-zero where the contract does not say otherwise', 'termination is not verified']
if __name__ == '__main__':
    r = main()
    sys.stdout.flush()
    os._exit(r)
