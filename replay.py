#!/opt/venv/bin/python
"""Re-run the contract named by a replay file on its recorded inputs, on the real code."""
import sys, json, os, random, warnings
warnings.filterwarnings('ignore'); sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
from dv import engine
d = json.load(open(sys.argv[1])); repo = os.environ.get('DV_REPO', '/repo')
con = engine.load_contract_real(d['property'], repo)[d['contract']]
def un(v):
    if isinstance(v, dict) and 'array' in v: return np.array(v['array'], dtype={'f': float, 'i': int, 'b': bool}[v['dtype']])
    return v
if 'inputs' not in d: print('no failing input; the refuted obligation:', d['obligation']); sys.exit(2)
st, msg, cc = engine.run_concrete(con, random.Random(1), {k: un(v) for k, v in d['inputs'].items()})
print(st, msg); sys.exit(1 if st == 'fail' else 0)
