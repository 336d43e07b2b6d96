"""Runs the deductive obligations of one property."""
import os, importlib, glob, time
def load_all():
    from . import base
    for f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'ob_*.py'))):
        importlib.import_module('proofs.' + os.path.basename(f)[:-3])
    return base

def names_for(base, prop):
    return base.closure([n for n, o in base.OBLS.items() if prop in o.props])

def run(prop, thorough, nproc=4, seconds=None):
    base = load_all()
    from pyvc import models
    names = names_for(base, prop) if os.environ.get('PROOFS') != '0' else []
    alt = {o.fallback for o in base.OBLS.values() if o.fallback}
    names = [n for n in names if n not in alt]
    if seconds is None: seconds = 480 if thorough else 260
    t0 = time.time()
    obs = base.discharge(names, prop, seconds, nproc=nproc) if names else []
    # bounded stand-ins for obligations that were not discharged
    fb = [base.OBLS[o['name']].fallback for o in obs if o['status'] == 'undecided' and base.OBLS[o['name']].fallback]
    if thorough: fb = sorted({f for n in names for f in [base.OBLS[n].fallback] if f})
    if fb:
        left = max(60, min(seconds - (time.time() - t0), 280 if thorough else 150))
        obs += base.discharge(fb, prop, left, nproc=8)
        names += fb
    proved = [o for o in obs if o['status'] == 'proved']
    fns = sorted({f for n in names for f in base.OBLS[n].functions})
    called = sorted({f for o in obs for f in o.get('called', [])} - set(fns))
    ass = sorted({a for n in names for a in base.OBLS[n].assumes})
    trusted = ['%s: %s' % kv for kv in sorted(models.TRUSTED.items())]
    trusted += ['pyvc: the interpreter of the Python subset and the reduction to z3 (proofs/ and pyvc/)', 'z3 %s' % __import__('z3').get_version_string()]
    return {'obligations': obs, 'level': 'proof' if proved else 'exploration', 'trusted': trusted,
        'explanation': 'Each obligation executes the current source of the function under contract symbolically on arbitrary inputs satisfying the precondition and proves every postcondition on every path; status proved means all paths explored and all queries discharged; bounded means the same within the stated bound; undecided obligations are not counted.',
        'functions': fns, 'inlined_functions': called, 'assumptions': ass}
