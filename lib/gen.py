"""Random and systematic DEP scenarios."""
import random, itertools, datetime, base64
from . import scen, oracle as O, impl
from .scen import Register, keys, keystore, AESKEY, euros, constants
from .impl import Scn

ALPH = [(k, z, b) for k in ('std', 'dummy', 'reversal') for z in (True, False) for b in (False, True)]

def build(rng, seq, closed=False, size=8, key=AESKEY, mut=None, regs=(), used=None, idx=None,
        reg=None, initial=True, sigkeys=1, groups=None, amounts=None, ksmap=None):
    """seq: list of (kind, null, broken).  mut: dict position -> kwargs for
    Register.add (position 0 is the start receipt when initial)."""
    mut = mut or {}
    R = reg or Register(closed=closed, size=size)
    recs = []
    items = ([('std', True, False)] if initial else []) + list(seq)
    for i, (kind, null, broken) in enumerate(items):
        c = [0] * 5
        if not null:
            if amounts: c = amounts(rng, i)
            else: c[rng.randrange(5)] = rng.choice([100, -250, 1, 12345, -1])
        kw = dict(kind=kind, cents=c, broken=broken)
        m = mut.get(i, {})
        kw.update(m)
        recs.append(R.add(**kw))
    ks = ksmap if ksmap is not None else keystore(R.closed, R.keyId, (0, 1, 2))
    return Scn([(recs, None, [])], ks, key, regs, used, idx), R

def seqs(n):
    return itertools.product(ALPH, repeat=n)

def chunks(rng, recs, k):
    """split recs into k+1 consecutive non-empty lists (if possible)"""
    if len(recs) < 2: return [recs]
    cuts = sorted(rng.sample(range(1, len(recs)), min(k, len(recs) - 1)))
    return [recs[a:b] for a, b in zip([0] + cuts, cuts + [len(recs)])]

def rnd_amounts(rng, big=False):
    ints = [n for n in constants()[0] if abs(n) < 10**40]
    def one():
        x = rng.random()
        if x < .35: return 0
        if x < .75: return rng.randrange(-100000, 100000)
        if x < .85 and ints: return rng.choice([1, -1]) * (rng.choice(ints) * rng.choice([1, 1, 100]) + rng.choice([-1, 0, 1]))
        if big: return rng.choice([1, -1]) * rng.randrange(10 ** rng.randrange(1, 34))
        return rng.choice([1, -1]) * rng.randrange(10 ** rng.randrange(1, 15))
    return lambda r, i: [one() for _ in range(5)]

def fit(size, R):
    return -(1 << 8 * size - 1) <= R.total < (1 << 8 * size - 1)

def rnd_seq(rng, n, validish=True):
    """a mostly valid history (restores after outages)"""
    out = []; brk = False; need = False
    for _ in range(n):
        x = rng.random()
        kind = 'std' if x < .6 else ('dummy' if x < .8 else 'reversal')
        null = rng.random() < .3
        broken = rng.random() < .2
        if validish and need: kind, null, broken = 'std', True, False
        if not broken and brk and not (kind == 'std' and null): need = True
        elif not broken and kind == 'std' and null: need = False
        brk = broken
        out.append((kind, null, broken))
    return out

def ids_fmt(rng):
    strs = [s for s in constants()[1] if s and '_' not in s and '\n' not in s]
    x = rng.randrange(8)
    if x == 0: return lambda n: 'r%d' % n
    if x == 1: return lambda n: '%d' % n
    if x == 2: return lambda n: 'Ä\U0001f600ß-%d' % n
    if x == 3 and strs:
        s = rng.choice(strs); return lambda n: '%s%d' % (s, n)
    if x == 4: return lambda n: '%s-%08d' % ('x' * 50, n)
    if x == 5: return lambda n: 'a;b. c=%d' % n
    if x == 6: return lambda n: '%x' % (n + 2**64)
    return lambda n: '%d/2017' % n

def with_used_backend(rng, s):
    if rng.random() < .25:
        s.used = O.Used('N', s.used.ids, None, None)
    return s

def surround(rng, regs, regId, closed):
    """other registers of the cluster before and after those given"""
    def other(k):
        X = Register(regId, closed, 8, start=scen.BASE - datetime.timedelta(days=k + 1))
        a = X.add(); b = X.add(cents=(5, 0, 0, 0, 0))
        return O.Reg(a, b, rng.randrange(-9, 999), rng.random() < .3, None)
    n, m = rng.choice([(1, 0), (2, 0), (0, 1), (1, 1), (0, 2)])
    return [other(k) for k in range(n)] + list(regs) + [other(9 + k) for k in range(m)], n
def random_dep(rng, n=None, mutate=True, focus=None, big=None):
    """one scenario; returns Scn"""
    closed = rng.random() < .4
    size = rng.choice([5, 6, 7, 8, 8, 9, 12, 15, 16])
    x = rng.random()
    key = AESKEY if x < .8 else None
    n = n if n is not None else rng.choice([0, 1, 2, 3, 4, 5, 6, 8])
    K = keys()
    si = rng.randrange(3)
    regId = rng.choice(['REG-1', 'R;1', 'Kässe 1', '0', 'AT0', 'x' * 30] + [s for s in constants()[1] if s and '_' not in s][:40])
    R = Register(regId, closed, size, sigkey=si, idfmt=ids_fmt(rng),
        serialfmt=rng.choice(['hex', 'HEX', 'dec', '-hex', '0hex']), keyId=rng.choice(['U:ATU12345678', 'S:123456789', 'G:1234567890123', 'U:A-K1', 'S:123456789-A']),
        zda=None if closed else rng.choice(['AT1', 'AT3', 'AT100', 'DE1']))
    if R.serialfmt == 'dec' or not closed: pass
    regs, used = [], O.Used('U')
    idx = None
    pos = rng.random()
    initial = True
    if pos < .25:
        # continued register
        s0, _ = build(rng, rnd_seq(rng, rng.randrange(0, 4)), reg=R, amounts=rnd_amounts(rng))
        if fit(size, R):
            o = impl.oracle_run(Scn(s0.groups, keystore(closed, R.keyId, (si,)), AESKEY))
            if o[0] == 'ok':
                regs = [O.Reg(*v) for v in o[1][0]]; used = O.Used('U', o[1][1]); idx = 0; initial = False
                if rng.random() < .4: regs, idx = surround(rng, regs, regId, closed)
    elif pos < .5:
        # cluster: another register before
        R0 = Register(regId, closed if rng.random() < .9 else not closed, 8, sigkey=si, keyId=R.keyId, idfmt=lambda k: 'p%d' % k)
        s0, _ = build(rng, rnd_seq(rng, rng.randrange(0, 3)), reg=R0)
        o = impl.oracle_run(Scn(s0.groups, keystore(R0.closed, R0.keyId, (si,)), AESKEY))
        if o[0] == 'ok':
            regs = [O.Reg(*v) for v in o[1][0]]; used = O.Used('U', o[1][1])
            if closed and R0.closed and rng.random() < .5:
                # more registers, each chained to the one before
                for k in range(rng.randrange(1, 3)):
                    Rk = Register(regId, True, 8, sigkey=si, keyId=R.keyId, idfmt=lambda i, k=k: 'p%d-%d' % (k, i), start=R0.t)
                    Rk.last = regs[-1].start
                    sk, _ = build(rng, rnd_seq(rng, rng.randrange(0, 3)), reg=Rk)
                    o = impl.oracle_run(Scn(sk.groups, keystore(True, R0.keyId, (si,)), AESKEY, regs, used, None))
                    if o[0] != 'ok': break
                    regs = [O.Reg(*v) for v in o[1][0]]; used = O.Used('U', o[1][1])
                    R0 = Rk
            idx = rng.choice([None, len(regs)])
            R.last = regs[-1].start
            R.t = R0.t
    elif pos < .56:
        # arbitrary initial chaining value
        regs = [O.Reg(None, None, 0, False, O.chainval('whatever'))]; idx = 0
        R.last = 'whatever'
    elif pos < .62:
        j = R.add(cents=rnd_amounts(rng)(rng, 0) if rng.random() < .5 else (0,) * 5, broken=rng.random() < .3, kind=rng.choice(['std', 'dummy', 'reversal']))
        regs = [O.Reg(rng.choice([None, j]), j, R.total, rng.random() < .3, O.chainval('nx') if rng.random() < .5 else None)]; idx = 0
        if regs[0].nxt: R.last = 'nx'
        initial = False
    mut = {}
    seq = rnd_seq(rng, n, rng.random() < .85)
    total = len(seq) + (1 if initial else 0)
    note = ''
    if mutate and total and rng.random() < .75:
        for _ in range(1 if rng.random() < .85 else 2):
            p = rng.randrange(total)
            mm = focus(rng) if focus else mutation(rng, R)
            note += ' %s@%d' % (mm[0], p)
            mut.setdefault(p, {}).update(mm[1])
    bigm = big if big is not None else (size == 16 and rng.random() < .5)
    am = rnd_amounts(rng, bigm)
    def amounts(r, i):
        for _ in range(20):
            c = am(r, i)
            v = R.total + sum(c)
            if -(1 << 8 * size - 2) <= v < (1 << 8 * size - 2): return c
        return [0] * 5
    s, _ = build(rng, seq, reg=R, mut=mut, regs=regs, used=used, idx=idx, initial=initial, amounts=amounts,
        ksmap=keystore(closed, R.keyId, (si,)), key=key)
    if rng.random() < .05 and s.key: s.key = s.key[:rng.choice([0, 16, 24, 31])]
    recs = s.groups[0][0]
    x = rng.random()
    if mutate and recs and x < .12:
        # structural damage
        recs = list(recs); p = rng.randrange(len(recs))
        y = rng.randrange(4)
        if y == 0: del recs[p]; note += ' drop@%d' % p
        elif y == 1: recs.insert(p, recs[p]); note += ' dup@%d' % p
        elif y == 2 and len(recs) > 1:
            q = rng.randrange(len(recs)); recs[p], recs[q] = recs[q], recs[p]; note += ' swap@%d,%d' % (p, q)
        else: recs.insert(p, recs[0]); note += ' insert@%d' % p
    if not recs: recs = list(s.groups[0][0])
    groups = chunks(rng, recs, rng.choice([0, 0, 0, 1, 2]))
    y = rng.random()
    if len(groups) == 1 and y < .5: s.groups = [(recs, None, [])]
    else:
        ch = rng.choice([[], [], [K.cacert], [K.rsacert]])
        s.groups = [(g, K.certs[si], ch) for g in groups]
        if closed:
            # a public key device is used through a certificate here
            s.ks = dict(s.ks); s.ks['%x' % K.serials[si]] = (K.k[si].public_key(), K.certs[si])
    if rng.random() < .1:
        s.groups = list(s.groups); s.groups.insert(rng.randrange(len(s.groups) + 1), ([], s.groups[0][1], s.groups[0][2]))
    s.note = note
    return with_used_backend(rng, s) if not s.used.ids else s

def setf(**kw):
    def pre(f): f.update(kw)
    return pre

def mutation(rng, R):
    x = rng.randrange(22)
    def flip(part):
        def post(j):
            segs = j.split('.')
            s = segs[part]; i = rng.randrange(len(s))
            al = O.B64U
            segs[part] = s[:i] + al[(al.index(s[i]) + 1 + rng.randrange(63)) % 64] + s[i + 1:]
            return '.'.join(segs)
        return post
    if x == 0: return ('regid', dict(pre=setf(regId='OTHER')))
    if x == 1: return ('zda', dict(pre=setf(zda='AT0' if not R.closed else 'AT1', serial=R.keyId if not R.closed else '%x' % keys().serials[R.si])))
    if x == 2: return ('date', dict(delta=rng.choice([0, -1, -60, -86400, -3600 * 24 * 400, 86400 * 366])))
    if x == 3: return ('dupid', dict(recId=R.idfmt(rng.randrange(1, 4))))
    if x == 4: return ('chain', dict(chainto=rng.choice(['', 'x', R.regId, 'A' * 50])))
    if x == 5: return ('tc', dict(tcoff=rng.choice([1, -1, 100, -100, 1 << 8, 1 << 31, 1 << 32, -(1 << 32), 256 ** 4])))
    if x == 6: return ('wrongkey', dict(key=keys().k[3]))
    if x == 7: return ('otherkey', dict(key=keys().k[(R.si + 1) % 3]))
    if x == 8: return ('flipsig', dict(post=flip(2)))
    if x == 9: return ('flippayload', dict(post=flip(1)))
    if x == 10: return ('broken', dict(broken=True))
    if x == 11: return ('dummy', dict(kind='dummy'))
    if x == 12: return ('reversal', dict(kind='reversal'))
    if x == 13: return ('amount', dict(cents=[0, 0, 0, 0, rng.choice([1, -1, 5])]))
    if x == 14: return ('null', dict(cents=[0] * 5))
    if x == 15: return ('cancel', dict(cents=[100, -100, 0, 0, 0]))
    if x == 16: return ('serial', dict(pre=setf(serial=rng.choice(['77', '%x' % keys().serials[3], 'S:000000000', 'U:X']))))
    if x == 17:
        def pre(f): f['chain'] = base64.b64encode(bytes(rng.randrange(256) for _ in range(8))).decode()
        return ('rndchain', dict(pre=pre))
    if x == 18: return ('zda2', dict(pre=setf(zda=rng.choice(['AT2', 'AT99', 'DE7']))))
    if x == 19: return ('future', dict(delta=86400 * 3650))
    if x == 20:
        def post(j):
            from . import scen
            h, p, s = j.split('.'); return '.'.join([h, p, O.b64u(bytes(64))])
        return ('zerosig', dict(post=post))
    return ('minuszero', dict(pre=setf(sA='-0,00')))

MODES = None
def modes(rng, s, k=2):
    n = sum(len(g[0]) for g in s.groups)
    out = [('dep',)]
    for _ in range(k):
        parser = rng.choice(['dict', 'full', 'file', 'stream'])
        cs = rng.choice([0, 1, 2, 3, max(1, n - 1), n, n + 1, 100])
        out.append(('parsed', parser, cs, rng.choice([1, 2, 3, 8]), rng.choice([None, 'fwd', 'rev'])))
    return out
