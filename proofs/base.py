"""Obligations: generation from the current source and discharge.

An obligation is a Python function run(R) executed once per path of the real
code: it builds arbitrary inputs satisfying the precondition, has the
interpreter execute the function under contract, and calls R.require for
every part of the postcondition.  Paths fork inside the interpreter; each
R.require is a solver query 'path condition implies postcondition'.  The
obligation is proved when every path of the exhaustive exploration discharges
all its requirements; there is no bound on lengths, values or iterations
unless the obligation is registered as bounded."""
import os, sys, time, random, traceback, multiprocessing as mp, queue as _q, signal
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
from pyvc import verifier as V, models as MD, libs, lang as L
from pyvc.core import *
from pyvc.interp import *
from pyvc.loops import PathEnd, Drop, Found
from lib import env

class Refuted(Exception):
    def __init__(self, msg, detail, model, case=None, definite=True):
        Exception.__init__(self, msg)
        self.msg, self.detail, self.model, self.case, self.definite = msg, detail, model, case, definite
class Undecided(Exception): pass

OBLS = {}
class Obl(object):
    def __init__(self, name, fn, props, functions, bounded, weight, uses, timeout_ms, assumes, unroll, fold=False, prepare=None, fallback=None):
        self.name, self.fn, self.props, self.functions = name, fn, props, functions
        self.bounded, self.weight, self.uses, self.timeout_ms, self.assumes = bounded, weight, uses, timeout_ms, assumes
        self.unroll = unroll
        self.fold = fold
        self.prepare = prepare
        self.fallback = fallback        # run instead if this obligation is not proved
def obl(name, props, functions, bounded=None, weight=1, uses=(), timeout_ms=4000, assumes=(), unroll=None, fold=False, prepare=None, fallback=None):
    """bounded: text stating the bound; uses: contracts assumed at call sites"""
    def d(fn):
        OBLS[name] = Obl(name, fn, set(props.split()), functions.split(), bounded, weight, list(uses), timeout_ms, list(assumes), unroll, fold, prepare, fallback)
        return fn
    return d

INV = {}          # obligation -> loop -> location -> templates
CONTRACTS = {}
def contract(name, quals):
    """call-site meaning of a function; verified by the obligation of that name"""
    def d(fn):
        CONTRACTS[name] = (quals.split(), fn)
        return fn
    return d

class Out(object):
    """outcome of a call"""
    def __init__(self, kind, v): self.kind, self.v = kind, v
    @property
    def ok(self): return self.kind == 'ok'
    def __repr__(self): return '%s:%r' % (self.kind, self.v)

class Run(object):
    """one path of an obligation"""
    def __init__(self, I, ctx, prop, stats):
        self.I, self.ctx, self.prop, self.stats = I, ctx, prop, stats
    # -- names
    def name(self, q):
        ps = q.split('.')
        m = self.I.modules.get(ps[0])
        if m is None: raise Unsupported('module %s not found' % ps[0])
        v = m.ns.get(ps[1], MISSING)
        if v is MISSING: raise Unsupported('%s not found' % q)
        for p in ps[2:]:
            v = self.I.getattr(v, p)
        return v
    def exc_class(self, q): return self.name(q)
    def lib(self, o):
        """exception outcome is of the library's own types"""
        return o.kind == 'exc' and o.v.cls.sub(self.name('utils.RKSVException'))
    def cls(self, o, *quals):
        for q in quals:
            try: c = self.name(q)
            except (Unsupported, PyRaise): continue
            if o.v.cls.sub(c): return True
        return False
    # -- values
    def text(self, name='text', dfa=None):
        return SStr([self.ctx.atom(self.ctx.fresh(name, 'S'), dfa)])
    def bytes(self, name='data', dfa=None):
        return SBytes([self.ctx.atom(self.ctx.fresh(name, 'S'), dfa if dfa is not None else L.BYTES)])
    def int(self, name='n', lo=None, hi=None):
        t = self.ctx.fresh(name, 'I')
        if lo is not None: self.ctx.assume(t >= lo)
        if hi is not None: self.ctx.assume(t <= hi)
        return SInt(t)
    def bool(self, name='b'): return SBool(self.ctx.fresh(name, 'B'))
    def opaque(self, kind, name=None): return Opaque(kind, self.ctx.fresh(name or kind, 'A'))
    def pick(self, n, label=''):
        """case distinction of the specification"""
        return self.ctx.choose([True] * n, label)
    def new(self, q, *a, **k): return self.I.call(self.name(q), list(a), k)
    # -- execution
    def call(self, f, *a, **k):
        if isinstance(f, str): f = self.name(f)
        try: return Out('ok', self.I.call(f, list(a), k))
        except PyRaise as p: return Out('exc', p.exc)
    def meth(self, o, n, *a, **k):
        try: return Out('ok', self.I.call(self.I.getattr(o, n), list(a), k))
        except PyRaise as p: return Out('exc', p.exc)
    def get(self, o, n): return self.I.getattr(o, n)
    def eq(self, a, b):
        r = self.I.models.equal(self.I, a, b)
        return r if isinstance(r, (bool, SBool)) else mkbool(r)
    def length(self, v): return self.I.call(self.I.builtins['len'], [v], {})
    def isinst(self, v, q):
        c = self.name(q) if isinstance(q, str) else self.I.pyclass(q)
        return self.I.typeof(v).sub(c)
    # -- requirements
    def mine(self, props):
        return props is None or self.prop is None or self.prop in props.split()
    def implied(self, cond):
        """True / False (refuted, model available) / None"""
        if isinstance(cond, SBool): cond = cond.t
        if cond is True: return True
        if cond is False:
            r = self.ctx.check()
            return True if r == z3.unsat else False if r == z3.sat else None
        cond = z3.simplify(cond)
        if z3.is_true(cond): return True
        r = self.ctx.check(z3.Not(cond))
        if r == z3.unsat: return True
        if r == z3.unknown:
            self.ctx.solver.set('timeout', 30000)
            r = self.ctx.check(z3.Not(cond))
            self.ctx.solver.set('timeout', self.ctx.ex.timeout_ms)
            if r == z3.unsat: return True
        return False if r == z3.sat else None
    def require(self, cond, msg, props=None, case=None):
        if not self.mine(props): return
        self.stats['queries'] += 1
        r = self.implied(cond)
        if r is True: return
        model = ''
        if r is False:
            try: model = str(self.ctx.solver.model())[:4000]
            except Exception: pass
        trace = '\n'.join('%s: alternative %d  %s' % (l, i, str(c)[:160].replace('\n', ' ')) for l, i, c in (self.ctx.trace if len(self.ctx.trace) < 60 else self.ctx.trace[:15] + self.ctx.trace[-40:]))
        raise Refuted(msg, trace, model, case, definite=(r is False and not self.ctx.notes))
    def done(self, label='end'):
        self.stats['reach'][label] = self.stats['reach'].get(label, 0) + 1

# ---------------------------------------------------------------- discharge
_I = [None]
def interp():
    if _I[0] is None: _I[0] = V.load(env.REPO)
    return _I[0]

def infer(name, seconds=20, want=6):
    """guesses loop invariants from a few paths through the first iteration"""
    t0 = time.time()
    found = {}; got = {}
    I = interp(); I.loops_seen = set()
    def merge(r):
        stale = False
        for key, f in r['found']:
            got[key] = got.get(key, 0) + 1
            if key not in found: found[key] = f
            else:
                old = found[key]
                new = {loc: [t for t in old.get(loc, []) if t in f.get(loc, [])] for loc in list(old) + [x for x in f if x not in old]}
                if any(v[:1] != old[l][:1] for l, v in new.items() if l in old):
                    # guesses for later loops relied on what turned out to be wrong
                    ks = list(found)
                    for k in ks[ks.index(key) + 1:]: del found[k]; got.pop(k, None)
                    stale = True
                found[key] = new
                if stale: return
    rnd = random.Random(1)
    idle = 0
    while idle < 1 and time.time() - t0 < seconds:
        # one round: from the start until enough paths through every loop seen are found
        seen, have, n = len(I.loops_seen), sum(got.values()), 0
        prefixes = [[]]
        while prefixes and time.time() - t0 < seconds and n < 400 and (set(got) != I.loops_seen or min(got.values(), default=0) < want):
            r = run_slice(name, None, prefixes, 60, {'mode': 'infer', 'gen': 0, 'inv': found, 'paths': 6})
            prefixes = r['pending']; n += 1
            rnd.shuffle(prefixes)
            merge(r)
        # loops that follow those found so far
        prefixes = [[]]
        for _ in range(12):
            if not prefixes or len(I.loops_seen) > seen or time.time() - t0 > seconds: break
            r = run_slice(name, None, prefixes, 60, {'mode': 'infer', 'gen': 0, 'inv': found, 'paths': 8})
            prefixes = r['pending']; rnd.shuffle(prefixes)
            merge(r)
        idle = 0 if len(I.loops_seen) > seen else idle + 1
    return found

def run_slice(name, prop, prefixes, seconds, extra):
    """explores from the given decision prefixes for some time; returns what
    was found and the prefixes left"""
    o = OBLS[name]
    I = interp()
    ex = Explorer(timeout_ms=o.timeout_ms)
    ex.lit_hook = MD.lit_hook; ex.eq_hook = MD.eq_hook
    from . import common
    if o.prepare: o.prepare(I)
    I.contracts = {'utils.init_class_overrides': lambda I, f, a, k: None}
    for c in o.uses:
        if c not in CONTRACTS: continue        # used as a lemma only
        for q in CONTRACTS[c][0]: I.contracts[q] = CONTRACTS[c][1]
    I.called = {}; I.used_contracts = set()
    extra = extra or {}
    if 'inv' in extra: INV[name] = extra['inv']
    res = {'gen': extra.get('gen', 0), 'found': [], 'drop': [], 'name': name, 'paths': 0, 'queries': 0, 'refuted': [], 'undecided': {}, 'reach': {}, 'pending': []}
    ex.work = [list(p) for p in prefixes]
    t0 = time.time()
    end = t0 + seconds
    while ex.work:
        if time.time() > end or ex.stats['paths'] >= extra.get('paths', 1 << 60): break
        ctx = Ctx(ex, ex.work.pop())
        ex.stats['paths'] += 1
        st = {'queries': 0, 'reach': res['reach']}
        try:
            I.begin(ctx)
            if o.unroll: ctx.data.update(o.unroll)
            ctx.data['mode'] = extra.get('mode')
            R = Run(I, ctx, prop, st)
            o.fn(R)
        except (Infeasible, PathEnd): pass
        except Drop as d:
            res['drop'].append(d.key)
            if len(res['drop']) >= 4: ex.work = []
        except Found as f: res['found'].append((f.key, f.found))
        except Refuted as r:
            e = {'msg': r.msg, 'trace': r.detail, 'model': r.model, 'case': r.case, 'definite': r.definite, 'notes': list(ctx.notes)}
            (res['refuted'] if r.definite else res['undecided'].setdefault('not definite: ' + r.msg, [])).append(e if r.definite else 1)
            if r.definite and len(res['refuted']) >= 2: ex.work = []
        except (Unsupported, Undecided, PathBudget) as u:
            if ctx.check() == z3.unsat: continue
            k = '%s: %s' % (type(u).__name__, str(u)[:160])
            res['undecided'].setdefault(k, []).append(1)
            if sum(len(v) for v in res['undecided'].values()) > 400: ex.work = []
        except PyRaise as p:
            k = 'exception in the specification: %s' % p.exc.cls.name
            res['undecided'].setdefault(k, []).append(1)
        except (RecursionError, z3.Z3Exception) as u:
            if os.environ.get("PYVC_TB"): traceback.print_exc()
            k = '%s: %s' % (type(u).__name__, str(u)[:160])
            res['undecided'].setdefault(k, []).append(1)
        except Exception as u:
            if os.environ.get("PYVC_TB"): traceback.print_exc()
            tb = traceback.extract_tb(u.__traceback__)[-1]
            k = 'internal: %s: %s (%s:%d)' % (type(u).__name__, str(u)[:120], os.path.basename(tb.filename), tb.lineno)
            res['undecided'].setdefault(k, []).append(1)
        res['queries'] += st['queries']
    res['pending'] = ex.work
    res['paths'] = ex.stats['paths']; res['checks'] = ex.stats['checks']; res['solver_s'] = ex.stats['time']; res['unknown'] = ex.stats['unknown']
    res['wall_s'] = time.time() - t0
    res['undecided'] = {k: len(v) for k, v in res['undecided'].items()}
    res['called'] = sorted(I.called); res['contracts'] = sorted(I.used_contracts)
    return res

def _worker(tasks, results, memlimit):
    import resource
    try: resource.setrlimit(resource.RLIMIT_AS, (memlimit, memlimit))
    except Exception: pass
    sys.setrecursionlimit(20000)
    try: import threading; threading.stack_size(512 * 1024 * 1024)
    except Exception: pass
    def loop():
        while True:
            t = tasks.get()
            if t is None: return
            try: results.put(run_slice(*t))
            except BaseException as e:
                results.put({'gen': (t[4] or {}).get('gen', 0), 'name': t[0], 'paths': 0, 'queries': 0, 'refuted': [], 'undecided': {'worker: %s: %s' % (type(e).__name__, str(e)[:200]): 1},
                    'reach': {}, 'pending': [], 'checks': 0, 'solver_s': 0, 'unknown': 0, 'wall_s': 0, 'called': [], 'contracts': []})
    th = threading.Thread(target=loop); th.start(); th.join()

def closure(names):
    """obligations plus those of the contracts they use"""
    out, st = [], list(names)
    while st:
        n = st.pop(0)
        if n in out: continue
        out.append(n)
        for c in OBLS[n].uses:
            if c in OBLS and c not in out: st.append(c)
    return out

def discharge(names, prop, seconds, nproc=4, slice_s=6.0, verbose=False):
    """runs obligations in nproc processes; dynamic splitting of the paths"""
    interp()
    cx = mp.get_context('fork')
    tasks, results = cx.Queue(), cx.Queue()
    agg = {}
    npend = {n: 0 for n in names}
    cur = {}
    todo = []
    for n in sorted(names, key=lambda n: -OBLS[n].weight):
        o = OBLS[n]
        if o.prepare: o.prepare(interp())
        p = prop if prop in o.props else None
        agg[n] = {'name': n, 'paths': 0, 'queries': 0, 'refuted': [], 'undecided': {}, 'reach': {}, 'checks': 0, 'solver_s': 0., 'unknown': 0, 'wall_s': 0., 'called': set(), 'contracts': set(), 'left': 0}
        x = None
        if o.fold: x = {'gen': 0, 'inv': INV[n] if n in INV else infer(n)}
        cur[n] = x
        todo.append((n, p, [[]], slice_s, x)); npend[n] += 1
    for t in todo: tasks.put(t)
    ps = [cx.Process(target=_worker, args=(tasks, results, 6 << 30), daemon=True) for _ in range(nproc)]
    for p in ps: p.start()
    end = time.time() + seconds
    out = len(todo)
    while out:
        if time.time() > end + 3 * slice_s + 30: break
        try: r = results.get(timeout=1)
        except _q.Empty:
            if not any(p.is_alive() for p in ps): break
            continue
        out -= 1
        n = r['name']; a = agg[n]; npend[n] -= 1
        if r.get('gen', 0) != (cur[n] or {}).get('gen', 0): continue
        if r.get('drop'):
            x = cur[n]; inv = x['inv']
            for key, loc, t in r['drop']:
                l = inv.setdefault(key, {})
                if t is None: l[loc] = []
                else: l[loc] = [u for u in l.get(loc, []) if u != t]
            cur[n] = {'gen': x['gen'] + 1, 'inv': inv}
            if verbose: print('restart', n, r['drop'])
            if x['gen'] > 40 or time.time() > end: a['undecided']['no inductive loop invariant found'] = 1; continue
            for k in ('paths', 'queries', 'checks'): a[k] = 0
            a['refuted'] = []; a['undecided'] = {}; a['reach'] = {}
            tasks.put((n, prop if prop in OBLS[n].props else None, [[]], slice_s, cur[n])); out += 1; npend[n] += 1
            continue
        for k in ('paths', 'queries', 'checks', 'solver_s', 'unknown', 'wall_s'): a[k] += r[k]
        a['refuted'] += r['refuted']
        for k, v in r['undecided'].items(): a['undecided'][k] = a['undecided'].get(k, 0) + v
        for k, v in r['reach'].items(): a['reach'][k] = a['reach'].get(k, 0) + v
        a['called'].update(r['called']); a['contracts'].update(r['contracts'])
        pend = r['pending']
        nund = sum(a['undecided'].values())
        if pend and len(a['refuted']) < 2 and nund < 800:
            if time.time() > end: a['left'] += len(pend)
            else:
                k = min(len(pend), max(1, nproc))
                for i in range(k):
                    tasks.put((n, prop if prop in OBLS[n].props else None, pend[i::k], slice_s, cur[n])); out += 1; npend[n] += 1
        elif pend: a['left'] += len(pend)
    for n in names:
        if npend[n] > 0: agg[n]['left'] += npend[n]
    for _ in ps: tasks.put(None)
    for p in ps:
        p.join(.2)
        if p.is_alive(): p.kill()
    return [finish(agg[n], prop) for n in names]

def finish(a, prop=None):
    o = OBLS[a['name']]
    d = {'name': a['name'], 'function': ' '.join(o.functions), 'n': a['queries'], 'paths': a['paths'], 'queries': a['checks'],
        'solver': 'z3 %s' % z3.get_version_string(), 'solver_s': round(a['solver_s'], 2), 'wall_s': round(a['wall_s'], 2),
        'uses': o.uses, 'reach': a['reach'], 'called': sorted(a['called']), 'assumes': o.assumes}
    if a['refuted']:
        r = a['refuted'][0]
        # a refuted lemma leaves the property undecided unless it states part of the property
        d.update(status='refuted' if prop is None or prop in o.props else 'undecided', detail=r['msg'] + '\n' + r['trace'], model=r['model'], case=r['case'])
    elif a['undecided'] or a['left']:
        d.update(status='undecided', detail='; '.join('%s (%d paths)' % kv for kv in sorted(a['undecided'].items(), key=lambda x: -x[1])[:6]) + ('; %d paths not explored' % a['left'] if a['left'] else ''))
    elif not a['reach'] or a['queries'] == 0:
        d.update(status='undecided', detail='vacuous: no path reached the postcondition')
    elif o.bounded: d.update(status='bounded', detail='holds within the bound: ' + o.bounded)
    else: d.update(status='proved', detail='')
    return d
