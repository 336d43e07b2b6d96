#!/opt/venv/bin/python
"""check.py <property> -- decides one property on /repo's working tree.

1. deductive part: every obligation of the property's contracts is generated
   from the current source and discharged (pyvc/, obligations in proofs/);
2. concrete part: the real code is compared with the reference semantics on
   generated inputs (cross-check of the contracts and of the trusted models,
   bounded stand-in for functions out of the verifier's reach, and source of
   the failing inputs reported).
Exit 0: held; exit 1: VIOLATION line(s)."""
import sys, os, time, json, hashlib, random, signal, traceback, multiprocessing as mp, re
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
if __name__ == '__main__' and os.environ.get('PYTHONHASHSEED') != '0':
    # reproducible order of sets
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
from lib import env
T0 = time.time()

class CaseTimeout(BaseException): pass
def _alrm(*a): raise CaseTimeout()
def timed(case, secs):
    from lib import fals
    old = signal.signal(signal.SIGALRM, _alrm)
    signal.setitimer(signal.ITIMER_REAL, secs)
    try: return fals.run(case)
    except CaseTimeout: return [(None, 'no result within %d s' % secs)]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0); signal.signal(signal.SIGALRM, old)

def shape(case):
    """identifies the kind of situation exercised (for counting)"""
    s = json.dumps(case, sort_keys=True)
    s = re.sub(r'[A-Za-z0-9+/_=.-]{24,}', '*', s)
    return hashlib.sha1(s.encode()).hexdigest()[:16]

def worker(prop, wid, seed, deadline, q):
    try:
        sys.setrecursionlimit(3000)
        from lib import fals
        rng = random.Random('%s/%d/%d' % (prop, seed, wid))
        n = 0; shapes = set(); bad = []; errs = {}; samples = []
        gs = fals.GENS.get(prop, [])
        i = 0
        while time.time() < deadline and gs and len(bad) < 3:
            g = gs[i % len(gs)]; i += 1
            try: case = json.loads(json.dumps(g(rng)))
            except Exception as e:
                k = 'generator %s: %s' % (g.__name__, type(e).__name__); errs[k] = errs.get(k, 0) + 1
                if errs[k] > 200: break
                continue
            try: r = timed(case, 20)
            except Exception as e:
                k = 'harness %s: %s: %s' % (case['kind'], type(e).__name__, str(e)[:100]); errs[k] = errs.get(k, 0) + 1
                continue
            n += 1; shapes.add(shape(case))
            if len(samples) < 2: samples.append(json.dumps(case)[:600])
            r = [(p, m) for p, m in r if p in (None, prop)]
            if r: bad.append((case, r))
        q.put((wid, n, shapes, bad, errs, samples))
    except BaseException as e:
        q.put((wid, 0, set(), [], {'worker: %s' % type(e).__name__ + str(e)[:200]: 1}, []))

def falsify(prop, seconds, nproc, seed):
    ctx = mp.get_context('fork'); q = ctx.Queue()
    # shared key material is created once
    from lib import fals, scen
    scen.keys(); 
    if prop in ('C14', 'C16', 'C10', 'C19', 'C17'): fals.kpool(); fals.recpool()
    ps = [ctx.Process(target=worker, args=(prop, w, seed, time.time() + seconds, q), daemon=True) for w in range(nproc)]
    for p in ps: p.start()
    return ps, q
def collect(ps, q, seconds):
    res = {}; end = time.time() + seconds + 60
    while len(res) < len(ps) and time.time() < end:
        try: r = q.get(timeout=1); res[r[0]] = r
        except Exception:
            if not any(p.is_alive() for p in ps):
                try:
                    while True: r = q.get(timeout=.5); res[r[0]] = r
                except Exception: break
    for p in ps:
        if p.is_alive(): p.kill()
    n = sum(r[1] for r in res.values()); shapes = set().union(*[r[2] for r in res.values()]) if res else set()
    bad = [b for r in sorted(res.items()) for b in r[1][3]]; errs = {}
    for r in res.values():
        for k, v in r[4].items(): errs[k] = errs.get(k, 0) + v
    if len(res) < len(ps): errs['workers without result'] = len(ps) - len(res)
    samples = [s for r in res.values() for s in r[5]][:3]
    return n, shapes, bad, errs, samples

def confirm_child(case, prop, conn):
    try: conn.send([m for p, m in timed(case, 60) if p in (None, prop)])
    except BaseException as e: conn.send([])
def confirm(case, prop):
    a, b = mp.get_context('fork').Pipe()
    p = mp.get_context('fork').Process(target=confirm_child, args=(case, prop, b)); p.start()
    r = a.recv() if a.poll(90) else []
    p.join(5)
    if p.is_alive(): p.kill()
    return r

def outdir():
    d = os.path.join(HERE, 'out'); os.makedirs(d, exist_ok=True); return d
def replay_file(prop, data):
    s = json.dumps(data, indent=1, sort_keys=True)
    f = os.path.join(outdir(), '%s-%s.json' % (prop, hashlib.sha1(s.encode()).hexdigest()[:10]))
    with open(f, 'w') as h: h.write(s)
    return f

def known(prop):
    out = []
    try:
        for l in open(os.path.join(HERE, 'known_findings.txt'), encoding='utf-8'):
            m = re.match(r'known: property=(\S+) (.*)', l.strip())
            if m and m.group(1) == prop: out.append(m.group(2))
    except OSError: pass
    return out

def main(argv):
    prop = argv[1]
    thorough = env.THOROUGH or '--thorough' in argv
    seed = env.SEED
    os.chdir(HERE)
    budget = int(os.environ.get('FALS_SECONDS', '240' if thorough else '30'))
    nproc = 8 if thorough else 4
    try: import proofs
    except Exception: proofs = None
    violations = []
    ps, q = falsify(prop, budget, nproc, seed)
    try: pr = proofs.run(prop, thorough, nproc=4)
    except Exception as e:
        # the deductive part could not be set up on this tree (undecided, never an alarm)
        pr = {'obligations': [{'name': 'deductive part', 'status': 'undecided', 'n': 0, 'detail': '%s: %s' % (type(e).__name__, str(e)[:400])}],
            'level': 'exploration', 'trusted': [], 'explanation': 'the deductive part could not be set up on this tree', 'functions': [], 'inlined_functions': [], 'assumptions': []}
    n, shapes, bad, errs, samples = collect(ps, q, budget)
    seen = set()
    for case, r in bad:
        msgs = confirm(case, prop)
        if not msgs: errs['unconfirmed'] = errs.get('unconfirmed', 0) + 1; continue
        key = (case['kind'], re.sub(r'[0-9\'"]+', '#', msgs[0])[:60])
        if key in seen: continue
        seen.add(key)
        f = replay_file(prop, {'property': prop, 'case': case, 'messages': msgs})
        violations.append((f, msgs[0], False))
    for o in pr['obligations']:
        if o['status'] != 'refuted': continue
        case = o.get('case')
        msgs = None
        if case:
            try: msgs = confirm(case, prop)
            except Exception: msgs = None
        if msgs:
            f = replay_file(prop, {'property': prop, 'case': case, 'messages': msgs, 'obligation': o['name'], 'detail': o.get('detail')})
            violations.append((f, 'obligation %s: %s' % (o['name'], msgs[0]), False))
        else:
            f = replay_file(prop, {'property': prop, 'obligation': o['name'], 'function': o.get('function'), 'detail': o.get('detail'), 'solver_output': o.get('model')})
            violations.append((f, 'obligation %s: %s' % (o['name'], o.get('detail', '')[:300]), True))
    for k in known(prop): print('KNOWN-FINDING: property=%s %s' % (prop, k))
    # concrete counterexamples first; a failed obligation without input is
    # reported only if nothing concrete was found
    conc = [v for v in violations if not v[2]]
    for f, m, nf in (conc or violations)[:5]:
        print('   ' + m[:600].replace('\n', ' '))
        print('VIOLATION property=%s replay=%s%s' % (prop, f, ' no-failing-input-found' if nf else ''))
    if not pr['obligations'] and n == 0: print('   nothing was checked: %r' % errs)
    obl = pr['obligations']
    cnt = lambda s: sum(o['n'] for o in obl if o['status'] == s)
    ev = {'property': prop, 'tier': 'thorough' if thorough else 'quick', 'seed': seed, 'level': pr['level'],
        'coverage': {'obligations': sum(o['n'] for o in obl), 'discharged': cnt('proved'),
            'checker_cmd': '/opt/venv/bin/python /verif/check.py %s' % prop, 'trusted_base': pr['trusted'],
            'evaluations': n, 'distinct_nontrivial': len(shapes),
            'rule': 'generated inputs run through the real code and compared with the reference semantics (lib/oracle.py); distinct by case shape with long opaque strings removed',
            'samples': samples or ['none'],
            'explanation': pr['explanation'], 'functions_under_contract': pr['functions'],
            'obligation_list': [{k: o.get(k) for k in ('name', 'function', 'status', 'n', 'paths', 'queries', 'solver', 'solver_s', 'wall_s', 'detail')} for o in obl],
            'undecided': [o['name'] for o in obl if o['status'] == 'undecided'], 'bounded': [o['name'] for o in obl if o['status'] == 'bounded'],
            'solver_seconds': round(sum(o.get('solver_s') or 0 for o in obl), 1), 'harness_errors': errs},
        'wall_s': round(time.time() - T0, 1), 'assumptions': pr['assumptions'],
        'violations': len(conc or violations),
        'violation_list': [{'replay': f, 'message': m[:500]} for f, m, nf in (conc or violations)]}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as h: json.dump(ev, h, indent=1)
    print('%s: %d obligations (%d discharged, %d undecided, %d bounded), %d inputs, %.0f s' % (prop, sum(o['n'] for o in obl), cnt('proved'), cnt('undecided'), cnt('bounded'), n, time.time() - T0))
    sys.stdout.flush()
    os._exit(1 if violations else 0)

if __name__ == '__main__': main(sys.argv)
