"""Run one contract: explore paths symbolically, discharge obligations, replay
counter-models on the real code, and evaluate the contract on concrete inputs."""
import os, sys, shutil, time, json, random, traceback, hashlib, types, importlib, importlib.util, builtins
import numpy as np
from fractions import Fraction
from . import terms as t, prove as P, sym, npshim, transform, dtshim
from .ctx import *
from . import ctx as C
R = sym.R

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def own(c, prop):
    """the contracts of a module are those written in it, not those of modules it takes helpers from"""
    return os.path.basename(c.fn.__code__.co_filename) == prop.lower() + '.py'

def load_contract_sym(prop, repo):
    """contract module through the same transformation, over transformed repo modules"""
    shims = {'numpy': npshim.NPI, 'math': npshim.MATH, 'scipy': npshim._Ext('scipy'), 'numpy.ma': npshim.MA(), 'datetime': dtshim.MOD}
    ld = transform.Loader(npshim.DV, shims, repo)
    p = os.path.join(VERIF, 'contracts', prop.lower() + '.py')
    def loadmod(path, name):
        src = open(path, encoding='utf8').read()
        tree = transform.transform_source(src, os.path.relpath(path, VERIF))
        m = types.ModuleType(name); m.__file__ = path
        b = dict(builtins.__dict__); b['__import__'] = imp; b.update(npshim.DV.builtins())
        m.__dict__['__builtins__'] = b; m.__dict__['_dv_'] = npshim.DV
        loaded[name] = m
        exec(compile(tree, path, 'exec'), m.__dict__)
        return m
    loaded = {}
    def imp(nm, globals=None, locals=None, fromlist=(), level=0):
        if nm == 'contracts' or nm.startswith('contracts.'):
            sub = fromlist[0] if nm == 'contracts' else nm.split('.')[1]
            if sub not in loaded: loadmod(os.path.join(VERIF, 'contracts', sub + '.py'), sub)
            if nm == 'contracts':
                ns = types.SimpleNamespace()
                for f in fromlist:
                    if f not in loaded: loadmod(os.path.join(VERIF, 'contracts', f + '.py'), f)
                    setattr(ns, f, loaded[f])
                return ns
            return loaded[sub]
        if nm == 'dv.ctx': return C
        return ld.imp(nm, globals, locals, fromlist, level)
    n0 = len(C.REG)
    m = loadmod(p, prop.lower())
    cs = [c for c in C.REG[n0:] if own(c, prop)]; del C.REG[n0:]
    return {c.name: c for c in cs}, ld

_real = {}
def load_contract_real(prop, repo):
    if prop not in _real: _real[prop] = _load_real(prop, repo)
    return _real[prop]
def _load_real(prop, repo):
    if repo not in sys.path: sys.path.insert(0, repo)
    if VERIF not in sys.path: sys.path.insert(0, VERIF)
    n0 = len(C.REG)
    m = importlib.import_module('contracts.' + prop.lower())
    cs = [c for c in C.REG[n0:] if own(c, prop)]; del C.REG[n0:]
    return {c.name: c for c in cs}

class Outcome:
    def __init__(self):
        self.obl = []        # (label, status, how)
        self.paths = 0; self.unsupported = []; self.violations = []; self.notes = set()
        self.evals = 0; self.checks = 0; self.distinct = set(); self.samples = []; self.skips = 0
        self.undecided = []; self.z3s = 0.0; self.covered = 0; self.wall = 0

def explore(con, ld, out, t_end):
    """all paths of the contract; yields (ctx, obligations)"""
    work = [([], [], set())]    # (choice prefix, decision prefix, places where paths split)
    while work:
        ch, dec, R.fork_sites = work.pop()
        if time.time() > t_end: raise sym.Unsupported('time budget')
        R.deadline = t_end
        R.reset(dec); R.tail = []; R.nch = 0; R.chprefix = list(ch); R.chsize = []; R.chmax = {}
        sc = Symbolic(); sc.loader = ld
        err = None
        try:
            con.fn(sc)
        except Skip: 
            err = 'skip'
        except sym.MergeFail as e:
            if e.site and e.site not in R.fork_sites:
                R.fork_sites.add(e.site); work.append((ch, dec, R.fork_sites)); continue
            raise
        except sym.Unsupported: raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            err = e
            if os.environ.get('DV_DEBUG'): traceback.print_exc()
            R.frames = []
            if isinstance(e, IndexError) and str(e).startswith('only integers'): raise sym.Unsupported('native container indexed with a symbolic value (%s:%d)' % (os.path.basename(tb[-1].filename), tb[-1].lineno))
            if tb and os.path.dirname(os.path.abspath(tb[-1].filename)) == os.path.dirname(os.path.abspath(__file__)) and isinstance(e, (AttributeError, TypeError, NameError, KeyError, AssertionError, RecursionError)) and not getattr(e, 'modelled', False):
                raise sym.Unsupported('engine: %s: %s (%s:%d)' % (type(e).__name__, str(e)[:160], os.path.basename(tb[-1].filename), tb[-1].lineno))
            # where was it raised
            R.obl.append((R.path(), t.FALSE, 'no exception (%s: %s)' % (type(e).__name__, str(e)[:120]), 'exception'))
        finally:
            if sc.tmp_: shutil.rmtree(sc.tmp_, ignore_errors=True)
        # schedule alternatives
        full = R.chprefix
        for p in R.pending: work.append((full, p, R.fork_sites))
        for i in range(len(ch), R.nch):
            for j in range(1, R.chmax[i]):
                work.append((full[:i] + [j], [], set()))
        yield sc, (None if err == 'skip' else list(R.obl)), list(R.base)

def model_values(sc, m, z, rng, small):
    """inputs read off a z3 model"""
    import z3
    vals = {}
    def ev(zv, s):
        v = m.eval(zv, model_completion=True)
        if s == 'I': return v.as_long() if z3.is_int_value(v) else None
        if s == 'B': return z3.is_true(v)
        if z3.is_rational_value(v): return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
        if z3.is_algebraic_value(v): return float(v.approx(12).numerator_as_long()) / float(v.approx(12).denominator_as_long())
        return None
    for nm, v in sc.ints.items():
        x = ev(z.go(v), 'I')
        if x is not None: vals[nm] = x
    for nm, v in sc.reals.items():
        x = ev(z.go(v), 'R')
        if x is not None: vals[nm] = x
    for nm, j in sc.choices.items(): vals['?' + nm] = j
    arrs = {}
    for nm, (fn, shape, kd) in sc.arrays.items():
        srt = {'f': 'R', 'i': 'I', 'b': 'B'}[kd]
        key = (fn, ('I',) * len(shape), srt)
        f = z.f.get(key)
        if f is None: continue
        def fun(idx, f=f, srt=srt):
            import z3
            return ev(f(*[z3.IntVal(i) for i in idx]), srt)
        arrs[nm] = fun
    return vals, arrs

def run_concrete(con, rng, values=None):
    """('ok'|'skip'|'fail'|'error', message, ctx)"""
    cc = Concrete(rng, values)
    try:
        with np.errstate(all='ignore'):
            con.fn(cc)
        r = ('ok', '')
    except (Skip, MemoryError) as e: r = ('skip', str(e)[:100])
    except CheckFailed as e: r = ('fail', str(e))
    except RuntimeError as e:
        if 'duplicate input' in str(e): raise
        r = ('fail', 'exception %s: %s' % (type(e).__name__, e))
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        r = ('fail', 'exception %s: %s (at %s:%d)' % (type(e).__name__, str(e)[:200], os.path.basename(tb[-1].filename), tb[-1].lineno))
    finally:
        if cc.tmp_:
            import shutil; shutil.rmtree(cc.tmp_, ignore_errors=True)
    return r[0], r[1], cc

def jsonable(v):
    if isinstance(v, np.ndarray): return {'array': v.tolist(), 'dtype': v.dtype.kind}
    if isinstance(v, (np.integer,)): return int(v)
    if isinstance(v, (np.floating,)): return float(v)
    if isinstance(v, np.bool_): return bool(v)
    return v

def replay_model(con_real, sc, hyps, goal, out, seed, m, z, n_try=6):
    """search for a failing real input near the counter-model"""
    tries = []
    if m is not None: tries.append((m, z))
    rng = random.Random(seed)
    for cap in (con_real.cap, None):
        # small dimensions
        extra = []
        for nm, v in sc.ints.items():
            lo, hi = sc.caps.get(nm, (None, None))
            if isinstance(hi, int) and hi - (lo or 0) > 40: continue
            if cap is not None: extra += [t.le(v, t.K(cap + (lo if isinstance(lo, int) else 0)))]
        if cap is None and m is not None: continue
        r, m2, z2 = P.model_of(tuple(hyps) + tuple(extra), goal, 3000)
        if m2 is not None: tries.insert(0, (m2, z2))
    for m2, z2 in tries:
        vals, arrs = model_values(sc, m2, z2, rng, True)
        if any(isinstance(v, int) and abs(v) > 200 and sc.caps.get(k, (0, 0))[1] is None for k, v in vals.items()): continue
        big = 1
        for k in range(n_try):
            v = dict(vals)
            if k % 2 == 0: v.update(arrs)
            try: st, msg, cc = run_concrete(con_real, random.Random(seed + k), v)
            except MemoryError: continue
            out.evals += 1
            if st == 'fail': return msg, cc
    return None

def check_contract(prop, name, repo, tier, seed, which='both'):
    t0 = time.time()
    out = Outcome()
    real = load_contract_real(prop, repo)[name]
    budget = real.budget * (3 if tier == 'thorough' else 1)
    if real.symbolic and which in ('both', 'sym'):
        try:
            cs, ld = load_contract_sym(prop, repo)
            con = cs[name]
            t_end = t0 + budget
            for sc, obl, base in explore(con, ld, out, t_end):
                out.paths += 1
                if obl is None: continue
                # vacuity: the hypotheses of this path are satisfiable
                r, m, z = P.model_of(base, t.FALSE, 2000)
                if r == 'proved':
                    out.paths -= 1
                    continue
                out.covered += 1
                seen = set()
                for hyps, goal, label, kd in obl:
                    if (hyps, goal) in seen: continue
                    seen.add((hyps, goal))
                    facts = tuple(sym.all_facts(list(hyps) + [goal]))
                    tm = max(1.0, min(con.timeout * (3 if tier == 'thorough' else 1), t_end - time.time()))
                    try: res = P.prove(hyps + facts, goal, fuel=con.fuel, timeout=tm)
                    except (RecursionError, P.TooBig) as e: res = P.Result('unknown', 'error', note=repr(e)[:100])
                    out.obl.append((label, res.status, res.how, kd))
                    if res.status == 'proved': continue
                    if res.status == 'refuted' or kd == 'exception' or res.status == 'unknown':
                        rp = None
                        if len(out.violations) < 1:
                            rp = replay_model(real, sc, hyps + facts, goal, out, seed, res.model, res.z)
                        if rp is not None:
                            out.violations.append({'obligation': label, 'message': rp[0], 'inputs': {k: jsonable(v) for k, v in rp[1].drawn.items() if not callable(v)}, 'how': 'counter-model replayed'})
                            raise StopIteration
                    out.undecided.append({'obligation': label, 'kind': kd, 'status': res.status, 'note': res.note, 'exact': res.exact})
        except StopIteration: pass
        except sym.Unsupported as e:
            out.unsupported.append(str(e)[:300])
            if os.environ.get('DV_DEBUG'): traceback.print_exc()
        except RecursionError as e:
            out.unsupported.append('recursion limit')
        except Exception as e:
            out.unsupported.append('engine: %s' % traceback.format_exc()[-600:])
    out.z3s = P.STATS['z3_s']
    # concrete evaluation of the same contract
    if which in ('both', 'con') and not out.violations:
        n = real.samples * (12 if tier == 'thorough' else 1)
        if out.unsupported or out.undecided: n *= 3
        tc = time.time(); lim = (240 if tier == 'thorough' else 25)
        i = 0; tries = 0
        while i < n and tries < n * 6 and time.time() - tc < lim:
            tries += 1
            rng = random.Random('%s/%s/%s/%d' % (seed, prop, name, tries))
            st, msg, cc = run_concrete(real, rng)
            if st == 'skip': out.skips += 1; continue
            i += 1; out.evals += 1; out.checks += cc.nchecks
            h = hashlib.sha1(repr(sorted((k, v.tobytes() if isinstance(v, np.ndarray) else repr(v)) for k, v in cc.drawn.items())).encode()).hexdigest()
            if cc.nchecks: out.distinct.add(h)
            if len(out.samples) < 2: out.samples.append({k: (jsonable(v) if not isinstance(v, np.ndarray) or v.size <= 8 else 'array%s' % (v.shape,)) for k, v in cc.drawn.items()})
            if st == 'fail':
                out.violations.append({'obligation': msg.split(':')[0], 'message': msg, 'inputs': {k: jsonable(v) for k, v in cc.drawn.items()}, 'how': 'contract evaluated on the real code'})
                break
            if not cc.drawn and i >= 1: break     # no inputs: one evaluation is all
    out.notes |= R.notes
    out.wall = time.time() - t0
    return out
