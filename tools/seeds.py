#!/opt/venv/bin/python
"""run the checks on copies of the code with each planted bug, and record in tools/caught.json which contracts reported it
   tools/seeds.py [ids]   (without ids: those not recorded yet)"""
import sys, os, json, glob, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = V + '/tools/caught.json'
caught = json.load(open(f)) if os.path.exists(f) else {}
ids = sys.argv[1:] or [i for i in sorted(os.listdir(V + '/seeded')) if i not in caught]
for i in ids:
    d = V + '/seeded/' + i; p = json.load(open(d + '/meta.json'))['property']
    t = tempfile.mkdtemp(prefix='seed')
    try:
        subprocess.run(['cp', '-a', '/repo', t + '/repo'], check=True)
        subprocess.run(['git', '-C', t + '/repo', 'apply', d + '/patch.diff'], check=True)
        r = subprocess.run([sys.executable, V + '/run.py', '--property', p, '--repo', t + '/repo', '--evidence', t + '/ev'], cwd=V, capture_output=True, text=True, env=dict(os.environ, DV_REPO=t + '/repo', PYTHONDONTWRITEBYTECODE='1', VERIF_SEED='1'))
        rep = sorted(glob.glob(t + '/ev/replay/*.json'))
        w = [os.path.basename(x)[len(p) + 1:-5] + (' (refuted, no input)' if 'solver' in json.load(open(x)) else '') for x in rep]
        if r.returncode == 1: caught[i] = p + ': ' + ', '.join('`%s`' % x for x in w)
        elif r.returncode == 0: caught[i] = 'missed'
        print(i, p, r.returncode, w, flush=True)
        json.dump(caught, open(f, 'w'), indent=0, sort_keys=True)
    finally: shutil.rmtree(t)
