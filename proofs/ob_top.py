"""Verification of whole DEPs, sequentially and in packages: C08 and the
properties of single groups lifted to DEPs."""
from .common import *
from .ob_crypto import keystore
from .ob_cert import CERT_USES
from . import ob_cert
from . import common as CM, base
from pyvc import loops, seq as seqmod
from pyvc.seq import Seq, MSeq
from pyvc.loops import FoldRule, Template, MapList, Rejected, alike

VS, VF, DP = 'verification_state.', 'verify.', 'depparser.'
LIFT = 'C02 C03 C04 C05 C06 C07 C08'
# ---------------------------------------------------------------- a DEP as a sequence of pieces
class Top(object):
    """pieces 0, 1, ... of a DEP: receipts of one group with its certificate.
    T(i): state after the first i pieces, with T(i + 1) = next(T(i), i);
    good(s, i, v): verifying piece i from state s with verifier v succeeds;
    D(lo, hi): the IDs of pieces lo .. hi - 1 are acceptable together
    (lo = -1: together with those of the starting state)"""
    def __init__(self, R, name='dep', groups=()):
        self.R, c = R, R.ctx
        self.tok = c.fresh(name, 'A')
        self.init = c.fresh('initial', 'A')
        self.key, self.prevStart, self.ks = R.opaque('aeskey'), R.opaque('prevstart'), keystore(R)
        self.ks.ghost = 'store'
        self.known = []
        self.n = None
        self.given = True       # cluster state given by the caller
        self.nocert_ok = None
        c.data['top'] = self
    def T(self, i):
        i = z3.simplify(iz(i))
        if z3.is_int_value(i) and i.as_long() == 0: return self.init
        return F('dep.state', 'AI>A')(self.tok, i)
    def facts(self, i):
        """definitions for piece i"""
        c, i = self.R.ctx, z3.simplify(iz(i))
        def f():
            s, n = self.T(i), z3.simplify(i + 1)
            v = self.verifier(i)
            # prediction (obligations fromDEPGroup)
            return z3.And(self.T(n) == F('vnext', 'AI>A')(s, i),
                z3.Implies(self.good(s, i, v), z3.And(F('pnext', 'AI>A')(s, i) == self.T(n), z3.Not(F('pfail', 'AI>B')(s, i)))))
        c.once(('piece', self.tok, i.get_id()), f); c.keep.append(i)
    def good(self, s, i, v): return F('vgood', 'AIA>B')(s, iz(i), v)
    def D(self, lo, hi): return F('dep.dist', 'AII>B')(self.tok, iz(lo), iz(hi))
    def has_cert(self, i): return F('piece.cert?', 'AI>B')(self.tok, iz(i))
    def cert(self, i): return F('piece.cert', 'AI>A')(self.tok, iz(i))
    def verifier(self, i): return z3.If(self.has_cert(i), F('rv.cert', 'A>A')(self.cert(i)), z3.Const('rv.keystore', Any))
    def anchored(self, i): return z3.Implies(self.has_cert(i), F('anchored', 'AA>B')(self.cert(i), F('piece.chain', 'AI>A')(self.tok, iz(i))))
    def ok(self, i):
        """piece i is verified in sequence"""
        return z3.And(self.anchored(i), self.good(self.T(i), i, self.verifier(i)), self.D(-1, z3.simplify(iz(i) + 1)))
    def piece(self, i):
        c, R = self.R.ctx, self.R
        i = z3.simplify(iz(i))
        for k, v in self.known:
            if k.eq(i) or c.implied(k == i): return v
        self.facts(i)
        n = F('piece.len', 'AI>I')(self.tok, i); c.assume(n >= 1)
        q = Seq(SInt(n), lambda I, j: SBytes([c.atom(F('piece.rec', 'AII>S')(self.tok, i, z3.simplify(iz(j))), L.BYTES)]), 'receipts')
        q.gi = i
        cert = Opaque('cert', self.cert(i)) if c.branch(self.has_cert(i), 'certificate given') else None
        v = (q, cert, Opaque('chain', F('piece.chain', 'AI>A')(self.tok, i)))
        self.known.append((i, v))
        return v
    def number(self, recs):
        """which piece the receipts are"""
        if isinstance(recs, MSeq) and getattr(recs, 'src', None) is not None and not recs.writes: recs = recs.src
        if isinstance(recs, Seq) and getattr(recs.root, 'gi', None) is not None and recs.step == 1 and recs.root is recs: return recs.gi
        raise Undecided('receipts %r' % (recs,))
    def sub(self, lo, hi):
        """D is closed under sections of the sequence"""
        c = self.R.ctx
        c.assume(z3.Implies(self.D(-1, hi), self.D(lo, hi)))
        seen = c.memo.setdefault('dist', [])
        for a, b in seen:
            c.assume(z3.Implies(z3.And(self.D(a, b), iz(a) <= iz(lo), iz(hi) <= iz(b)), self.D(lo, hi)))
            c.assume(z3.Implies(z3.And(self.D(lo, hi), iz(lo) <= iz(a), iz(b) <= iz(hi)), self.D(a, b)))
        seen.append((lo, hi))
    # -- values
    def state(self, t=None):
        o = Obj(self.R.name(VS + 'CashRegisterState'))
        o.attrs.setraw('_tok', Opaque('regstate', self.init if t is None else t))
        return o
    def used(self, iv, cls=None):
        o = Obj(cls or self.backend)
        o.attrs.setraw('_iv', iv)
        return o
def top(I): return I.ctx.data.get('top')
def tok(I, s):
    """contents of a register state"""
    t = s.attrs.raw('_tok', None) if isinstance(s, Obj) else None
    if t is not None:
        if len(s.attrs.items()) != 1: raise Undecided('register state with further attributes')
        return t.t
    if isinstance(s, Obj) and s.cls is I.modules['verification_state'].ns['CashRegisterState']:
        at = {n: v for n, v in s.attrs.items()}
        if at == {'startReceiptJWS': None, 'lastReceiptJWS': None, 'lastTurnoverCounter': 0, 'needRestoreReceipt': False, 'chainNextTo': None}: return top(I).init
    raise Undecided('register state %r' % (s,))
def settok(s, t):
    s.attrs = PDict()
    s.attrs.setraw('_tok', Opaque('regstate', t))
EMPTY = 'no IDs'
def iv(I, u):
    """pieces whose IDs are marked as used: EMPTY, (lo, hi) or None (others)"""
    x = u.attrs.raw('_iv', MISSING) if isinstance(u, Obj) else MISSING
    if x is not MISSING: return x
    if isinstance(u, Obj) and u.cls.name == 'UsedReceiptIdsUnique':
        s = u.attrs.raw('_usedRecIds', None)
        if isinstance(s, PSet) and not s.items and s.base is None: return EMPTY
    if isinstance(u, Obj) and u.cls.name == 'UsedReceiptIdsSortedNatural' and u.attrs.raw('_minId', 0) is None and u.attrs.raw('_maxId', 0) is None: return EMPTY
    raise Undecided('used IDs %r' % (u,))
def join(I, a, b):
    """IDs of both, in this order; forks on their being acceptable"""
    c, t = I.ctx, top(I)
    if b == EMPTY: return a
    if a == EMPTY: return b
    if a is None or b is None or not c.implied(iz(a[1]) == iz(b[0])):
        # something else than a section of the DEP
        if c.branch(c.fresh('acceptable', 'B'), 'IDs acceptable'): return None
        raise I.exc(I.modules['verification_state'].ns['DuplicateReceiptIdException'], 'x')
    lo, hi = z3.simplify(iz(a[0])), z3.simplify(iz(b[1]))
    t.sub(lo, hi)
    if c.branch(t.D(lo, hi), 'IDs distinct'): return (mkint(lo), mkint(hi))
    raise I.exc(I.modules['verification_state'].ns['DuplicateReceiptIdException'], 'x')
def rvterm(I, rv):
    t = top(I)
    if not isinstance(rv, Obj) or rv.cls.name != 'ReceiptVerifier': raise Undecided('verifier %r' % (rv,))
    ks, cert = rv.attrs.raw('keyStore', 1), rv.attrs.raw('cert', 1)
    if ks is t.ks and cert is None: return z3.Const('rv.keystore', Any)
    if ks is None and isinstance(cert, Opaque) and cert.kind == 'cert': return F('rv.cert', 'A>A')(cert.t)
    raise Undecided('verifier with %r, %r' % (ks, cert))
def same_args(I, key, prevStart=MISSING):
    t, R = top(I), top(I).R
    R.require(key is t.key, 'a group is verified with another key', case={'arg': 'key'})
    if prevStart is not MISSING: R.require(t.nopred(prevStart), 'a group is verified with another start receipt of the previous register', case={'arg': 'prevStart'})
def _nopred(self, p): return p is self.prevStart if self.given else p is None
Top.nopred = _nopred
def args(I, f, a, k, n):
    b = I.bindargs(f, a, k)
    return [b[x.arg] for x in f.node.args.args[:n]]
@contract('top:verifyGroup', VF + 'verifyGroup')
def _(I, f, a, k):
    """the group verification as a transition on states and used IDs (obligation verify.verifyGroup)"""
    t, c = top(I), I.ctx
    if t is None: return MISSING
    recs, rv, key, prevStart, st, used = args(I, f, a, k, 6)
    i = t.number(recs)
    same_args(I, key, prevStart)
    s = tok(I, st)
    u = iv(I, used)
    t.facts(i)
    if not c.branch(t.good(s, i, rvterm(I, rv)), 'group verified'):
        settok(st, c.fresh('broken', 'A'))
        raise I.exc(I.modules['verify'].ns['ChainingException'], 'x', 'y')
    settok(st, F('vnext', 'AI>A')(s, i))
    n = join(I, u, (mkint(i), mkint(i + 1))) if u != EMPTY else join1(I, i)
    used.attrs.setraw('_iv', n)
    return (st, used)
def join1(I, i):
    t, c = top(I), I.ctx
    n = z3.simplify(i + 1)
    t.sub(i, n)
    if c.branch(t.D(i, n), 'IDs distinct'): return (mkint(i), mkint(n))
    raise I.exc(I.modules['verification_state'].ns['DuplicateReceiptIdException'], 'x')
def merge(I, f, a, k):
    """the IDs of several packages are added in order (obligations merge)"""
    t = top(I)
    if t is None: return MISSING
    self, others = args(I, f, a, k, 2)
    n = iv(I, self)
    for o in I.iterate(others):
        if not isinstance(o, Obj) or o.cls is not self.cls: raise Undecided('used IDs of another kind')
        n = join(I, n, iv(I, o))
    self.attrs.setraw('_iv', n)
    return None
contract('top:merge', VS + 'UsedReceiptIdsUnique.merge ' + VS + 'UsedReceiptIdsSortedNatural.merge')(merge)
@contract('top:fromDEPGroup', VS + 'CashRegisterState.fromDEPGroup')
def _(I, f, a, k):
    """prediction of the state after a group, from its receipts alone"""
    t, c = top(I), I.ctx
    if t is None: return MISSING
    b = I.bindargs(f, a, k)
    names = [x.arg for x in f.node.args.args]
    if len(names) < 3: return MISSING
    st, recs, key = [b[n] for n in names[-3:]]
    i = t.number(recs)
    same_args(I, key)
    s = tok(I, st)
    t.facts(i)
    if c.branch(F('pfail', 'AI>B')(s, i), 'no prediction'): raise I.exc(I.modules['receipt'].ns['MalformedReceiptException'], 'x')
    return t.state(F('pnext', 'AI>A')(s, i))
@contract('top:getCashRegisterInfo', VS + 'ClusterState.getCashRegisterInfo')
def _(I, f, a, k):
    t, c = top(I), I.ctx
    if t is None or not isinstance(a[0], Obj) or a[0].ghost != 'cluster': return MISSING
    st, idx = args(I, f, a, k, 2)
    t.R.require(idx is t.idx, 'another register is selected')
    if 'info' in t.log: raise Undecided('register selected twice')
    t.log['info'] = True
    if c.branch(t.badidx, 'no such register'): raise I.exc(I.modules['verification_state'].ns['InvalidCashRegisterIndexException'], 7)
    return (t.prevStart, t.state(), t.used((-1, 0)))
@contract('top:updateCashRegisterInfo', VS + 'ClusterState.updateCashRegisterInfo')
def _(I, f, a, k):
    t = top(I)
    if t is None or not isinstance(a[0], Obj) or a[0].ghost != 'cluster': return MISSING
    st, idx, rs, used = args(I, f, a, k, 4)
    t.R.require(idx is t.idx, 'another register is updated')
    t.log['update'] = t.log.get('update', []) + [(rs, used)]
    return None
CLUSTER = ['top:getCashRegisterInfo', 'top:updateCashRegisterInfo']
USES = ['top:verifyGroup', 'top:merge', 'top:fromDEPGroup', 'chain:verifyCert'] + CLUSTER
def mkstate(R, t):
    """cluster state of the caller, or none"""
    t.log = {}
    case = R.pick(3, 'state given')
    t.given = case > 0
    t.backend = R.name(VS + ('UsedReceiptIdsUnique', 'UsedReceiptIdsSortedNatural')[case % 2])
    t.idx = None
    if not t.given: return None
    if case == 1: t.idx = R.int('index')
    t.badidx = R.ctx.fresh('badidx', 'B')
    o = Obj(R.name(VS + 'ClusterState')); o.ghost = 'cluster'
    o.attrs.setraw('usedReceiptIds', t.used((-1, 0)))
    return o
def final(R, t, o, st, n):
    """state of the register and used IDs afterwards"""
    I = R.I
    if t.given:
        R.require(o.v is st, 'another cluster state is returned')
        u = t.log.get('update', [])
        R.require(len(u) == 1, 'the register is not updated')
        rs, used = u[0]
    else:
        cs = o.v
        R.require(isinstance(cs, Obj) and cs.cls is R.name(VS + 'ClusterState'), 'no cluster state is returned')
        l = list(I.iterate(R.get(cs, 'cashRegisters')))
        R.require(len(l) == 1, 'number of registers')
        rs, used = l[0], R.get(cs, 'usedReceiptIds')
        R.require(used.cls is t.backend, 'another bookkeeping of IDs')
    R.require(mkbool(tok(I, rs) == t.T(n)), 'state of the register after the DEP', case={'state': 'register'})
    x = iv(I, used)
    first = -1 if t.given else 0
    if x == EMPTY: R.require(mkbool(iz(n) == 0), 'used IDs are lost', case={'state': 'used'})
    else:
        R.require(x is not None and mkbool(z3.And(iz(x[0]) == first, iz(x[1]) == iz(n))), 'used IDs after the DEP', case={'state': 'used'})
        if not t.given: R.ctx.assume(t.D(0, n) == t.D(-1, n))
# ---------------------------------------------------------------- documents
def chunking(R, t, chunks, groups, whole):
    """an arbitrary division of pieces into chunks"""
    n, out = 0, []
    for m in range(chunks):
        k = 1 + R.pick(groups, 'pieces')
        out.append(list(range(n, n + k))); n += k
    return out, n
@contract('top:parse', DP + 'DictDEPParser.parse')
def _(I, f, a, k):
    """chunks of whole groups (obligations DictDEPParser)"""
    t = top(I)
    if t is None: return MISSING
    s, size = args(I, f, a, k, 2) if len(a) + len(k) > 1 else (a[0], 0)
    if s.attrs.raw('dep', None) is not t.dep or not isinstance(size, int) or size != 0: raise Undecided('document or chunk size')
    return t.chunks(I)
def concrete(R, t, chunks, bad):
    """iterator over chunks; bad: number of the chunk that cannot be read"""
    def gen(I):
        for m, ch in enumerate(chunks):
            if m == bad: break
            yield [t.piece(i) for i in ch]
        if bad is not None: raise I.exc(I.modules['depparser'].ns['MalformedDEPException'], 'x')
    def mk(I): return Gen(gen(I))
    return mk
def verdict(R, t, o, n, bad, rules, free=False):
    """rules: further conditions; free: these need not be noticed"""
    I, c = R.I, R.ctx
    # without a starting state there are no IDs but those of the pieces
    if not t.given:
        for i in range(n + 1): c.assume(t.D(0, i) == t.D(-1, i))
    for i in range(n + 1): t.sub(-1, i)
    oks = [t.ok(z3.IntVal(i)) for i in range(n)]
    cond = conj(oks + [rules])
    if t.given: cond = conj([cond, z3.Not(t.badidx)])
    if bad is not None: cond = z3.BoolVal(False)
    if o.ok:
        R.require(mkbool(cond), 'accepts a DEP that must be rejected', case={'verdict': 'accepts'})
        R.done('accepted')
    else:
        if not free: R.require(mkbool(z3.Not(cond)), 'rejects a correct DEP with %s' % o.v.cls.name, case={'verdict': 'rejects'})
        R.require(R.lib(o), 'rejects with %s' % o.v.cls.name, 'C16')
        R.done('rejected')
@obl(VF + 'verifyDEP/bounded', LIFT, VF + 'verifyDEP', uses=USES + ['top:parse'], bounded='at most 3 groups')
def _(R):
    """the groups are verified one after the other, each with the verifier of
    its own certificate, from the state the one before led to"""
    I, c = R.I, R.ctx
    t = Top(R); st = mkstate(R, t)
    n = 1 + R.pick(3, 'groups')
    chunks, m = [], 0
    while m < n:
        k = 1 + R.pick(n - m, 'groups in a chunk')
        chunks.append(list(range(m, m + k))); m += k
    bad = None if R.pick(2, 'malformed') == 0 else R.pick(len(chunks), 'malformed chunk')
    t.dep = R.opaque('dep'); t.chunks = concrete(R, t, chunks, bad)
    o = R.call(VF + 'verifyDEP', t.dep, t.ks, t.key, st, t.idx, t.backend)
    rule = conj([t.has_cert(i) for i in range(n)]) if n > 1 else True
    if o.ok: final(R, t, o, st, n)
    verdict(R, t, o, n, bad, rule)

# ---------------------------------------------------------------- any number of chunks and groups
class Chunked(object):
    """M >= 1 chunks; chunk m consists of the pieces H(m) .. H(m + 1) - 1"""
    def __init__(self, R, t):
        self.R, self.t, c = R, t, R.ctx
        self.m = c.fresh('chunks'); c.assume(self.m >= 1)
        self.ctok = c.fresh('chunking', 'A')
        self.badat = c.fresh('badchunk')        # number of the chunk that cannot be read, or -1
        self.known = []
        c.assume(self.H(self.m) >= 1)
        self.seq = Seq(SInt(self.m), self.chunk, 'chunks')
    def H(self, i):
        i = z3.simplify(iz(i))
        return z3.IntVal(0) if z3.is_int_value(i) and i.as_long() == 0 else F('chunk.start', 'AI>I')(self.ctok, i)
    def facts(self, m):
        c = self.R.ctx; m = z3.simplify(iz(m)); n = z3.simplify(m + 1)
        c.once(('chunk', self.ctok, m.get_id()), lambda: z3.And(self.H(m) >= m, self.H(n) >= self.H(m) + 1,
            z3.Implies(n <= self.m, self.H(n) <= self.H(self.m)), z3.Implies(z3.And(n <= self.m, self.m > n), self.H(n) < self.H(self.m))))
        c.keep.append(m)
    def chunk(self, I, m):
        c = I.ctx; m = z3.simplify(iz(m))
        if c.branch(self.badat == m, 'malformed chunk'):
            c.data['bad'] = True
            raise I.exc(I.modules['depparser'].ns['MalformedDEPException'], 'x')
        self.facts(m)
        a = self.H(m)
        q = Seq(mkint(self.H(z3.simplify(m + 1)) - a), lambda I, e: self.t.piece(z3.simplify(a + iz(e))), 'chunk'); q.mi = m
        return q
    def gen(self, I):
        r = Gen(seqmod.iterate(I, self.seq)); r.seq = self.seq
        return r
class At(object):
    """ghost state: number of pieces verified"""
    def __init__(self, j): self.j = z3.simplify(iz(j))
class PieceFold(FoldRule):
    """loop over pieces; registers and used IDs as after the pieces before"""
    base = z3.IntVal(0)
    def __init__(self, R, t, seq, inv, mode, several=None):
        FoldRule.__init__(self, R, seq, inv, mode); self.t, self.several = t, several
    def objects(self):
        out = []
        for n, v in sorted((str(n), v) for n, v in self.fr.vars.items()):
            if isinstance(v, Obj) and v.cls.name in ('CashRegisterState', 'UsedReceiptIdsUnique', 'UsedReceiptIdsSortedNatural') and not any(v is x for x in out): out.append(v)
        return out
    def loop(self, I, s, itv, fr):
        self.fr = fr
        for v in self.objects():
            if v.cls.name == 'CashRegisterState': settok(v, tok(I, v))
            else:
                x = iv(I, v); v.attrs = PDict(); v.attrs.setraw('_iv', x)
        return FoldRule.loop(self, I, s, itv, fr)
    def roots(self): return self.objects()
    def first(self, k): return z3.simplify(iz(self.base) + iz(k))
    def entry(self): return At(self.first(0))
    def arb(self, k):
        g = At(self.first(k)); c, t = self.I.ctx, self.t
        for x in self.facts(g): c.assume(x)
        return g
    def facts(self, g):
        t, j = self.t, g.j
        return [j >= 1, t.D(t.lo, j)] + ([z3.Or(j == 1, z3.And(t.has_cert(j - 1), t.has_cert(0)))] if self.several else [])
    def shape(self, g, old): return [(mkbool(x), 'pieces verified') for x in self.facts(g)]
    def step(self, g, i):
        t, c = self.t, self.I.ctx
        if c.data.get('bad'): return Rejected('C10', 'malformed chunk')
        if t.rej is not None: return t.rej
        j = self.first(i)
        t.facts(j)
        t.sub(t.lo, z3.simplify(j + 1)); t.sub(j, z3.simplify(j + 1))
        ok = t.ok1(j)
        if self.several: ok = z3.And(ok, z3.Or(j == 0, z3.And(t.has_cert(j), t.has_cert(j - 1))))
        if not self.I.test(mkbool(ok), 'spec: piece verified'):
            t.rej = Rejected(LIFT, 'a group must be rejected'); return t.rej
        return At(z3.simplify(j + 1))
    def accepted(self, g): self.R.require(False, 'goes on although ' + g.detail, g.why, case={'verdict': 'accepts'})
    def templates(self, g, i):
        t, j = self.t, g.j
        return [('state', lambda: Opaque('regstate', t.T(j))), ('used', lambda: (mkint(iz(t.lo)), mkint(j))), ('pieces', lambda: mkint(j)), ('index', lambda: mkint(iz(i))), ('next', lambda: mkint(iz(i) + 1)),
            ('None', lambda: None), ('True', lambda: True), ('False', lambda: False), ('nocert', lambda: SBool(z3.Not(t.has_cert(z3.simplify(j - 1))))), ('cert', lambda: SBool(t.has_cert(z3.simplify(j - 1))))]
class InChunk(PieceFold):
    def __init__(self, R, outer, mode): PieceFold.__init__(self, R, outer.t, None, outer.inv, mode, outer.several)
    def handles(self, q):
        if getattr(q.root, 'mi', None) is None: return False
        self.seq = q.root; self.base = self.t.doc.H(q.root.mi)
        return True
    # relative to the pieces of this chunk
    def arb(self, k): return PieceFold.arb(self, k)
class OverChunks(PieceFold):
    def first(self, k): return self.t.doc.H(k)
    def step(self, g, i):
        t, c = self.t, self.I.ctx
        if c.data.get('bad'): return Rejected('C10', 'malformed chunk')
        if t.rej is not None: return t.rej
        return At(t.doc.H(z3.simplify(iz(i) + 1)))
    def arb(self, k):
        t = self.t; k = z3.simplify(iz(k)); t.doc.facts(z3.simplify(k - 1))
        return PieceFold.arb(self, k)
def _ok1(t, i):
    """piece i is verified, given the pieces before"""
    return z3.And(t.anchored(i), t.good(t.T(i), i, t.verifier(i)), t.D(t.lo, z3.simplify(iz(i) + 1)))
Top.ok1 = _ok1
def end_verdict(R, t, o, g, n):
    """outcome of a loop over all pieces"""
    I = R.I
    if isinstance(g, Rejected) or I.ctx.data.get('bad'):
        R.require(not o.ok, 'accepts a DEP although %s' % (g.detail if isinstance(g, Rejected) else 'it is malformed'), case={'verdict': 'accepts'})
        R.require(R.lib(o), 'rejects with %s' % o.v.cls.name, 'C16')
        R.done('rejected'); return False
    R.require(o.ok, 'rejects a correct DEP with %s' % (o.v.cls.name if not o.ok else ''), case={'verdict': 'rejects'})
    R.require(mkbool(g.j == n), 'groups are left out')
    return True
@obl(VF + 'verifyDEP', LIFT, VF + 'verifyDEP', uses=USES + ['top:parse'], fold=True, fallback=VF + 'verifyDEP/bounded')
def _(R):
    """any number of chunks and groups: accepted exactly if every group is
    verified from the state the one before led to, with the verifier of its own
    certificate (or the key store, if it is the only group and names none)"""
    I, c = R.I, R.ctx
    t = Top(R); st = mkstate(R, t); t.lo = -1 if t.given else 0; t.rej = None
    t.doc = Chunked(R, t); t.dep = R.opaque('dep'); t.chunks = t.doc.gen
    h = OverChunks(R, t, t.doc.seq, base.INV.get(VF + 'verifyDEP', {}), c.data.get('mode'), True)
    c.data['fold'] = [h, InChunk(R, h, c.data.get('mode'))]
    o = R.call(VF + 'verifyDEP', t.dep, t.ks, t.key, st, t.idx, t.backend)
    if not t.given or I.test(mkbool(z3.Not(t.badidx))): pass
    else:
        R.require(not o.ok and R.lib(o), 'a register that does not exist is %s' % ('accepted' if o.ok else 'answered with ' + o.v.cls.name)); R.done('bad index'); return
    g = c.data.get('ghost')
    if g is None and not c.data.get('bad'): raise Undecided('the groups are not processed by loops over the chunks')
    if end_verdict(R, t, o, g, t.doc.H(t.doc.m)):
        final(R, t, o, st, t.doc.H(t.doc.m)); R.done('accepted')

# ---------------------------------------------------------------- in packages
class Parser(object): pass
def pool_call(I, f, args):
    """what a worker does: the arguments are copies"""
    memo = {}
    def cp(v):
        v = I.models.force(I, v)
        if id(v) in memo: return memo[id(v)]
        if isinstance(v, Obj) and v.cls.name in ('CashRegisterState', 'UsedReceiptIdsUnique', 'UsedReceiptIdsSortedNatural'):
            r = Obj(v.cls, v.attrs.copy()); r.ghost = v.ghost
        elif isinstance(v, tuple): r = tuple(cp(x) for x in v)
        elif isinstance(v, list): r = [cp(x) for x in v]
        else: r = v
        memo[id(v)] = r
        return r
    return I.call(f, [cp(x) for x in args], {})
def pool_map(I, o, a, k):
    """all calls are made before the results are handed out; an exception is raised then"""
    f, it = a[0], a[1]
    jobs = list(I.iterate(it))
    out, exc = [], None
    for x in jobs:
        try: out.append(pool_call(I, f, [x]))
        except PyRaise as p:
            if exc is None: exc = p
    return MD.Ext('asyncresult', out=out, exc=exc)
def pool_get(I, o, a, k):
    if o.exc is not None: raise o.exc
    return o.out
libs.METH[('pool', 'map_async')] = pool_map
libs.METH[('pool', 'map')] = lambda I, o, a, k: pool_get(I, pool_map(I, o, a, k), [], {})
libs.METH[('asyncresult', 'get')] = pool_get
@obl(VF + 'verifyParsedDEP/bounded', LIFT, VF + 'verifyParsedDEP ' + VF + 'getChunksForProcs ' + VF + 'packageChunkWithVerifiers ' + VF + 'prepareVerificationTuples ' + VF + 'verifyGroupsWithVerifiers ' + VF + 'verifyGroupsWithVerifiersTuple', uses=USES,
    bounded='at most 3 chunks, 3 pieces of groups and 2 processes')
def _(R):
    """same verdict and same resulting state as for the sequence of pieces,
    whatever the chunks, packages and workers"""
    I, c = R.I, R.ctx
    t = Top(R); st = mkstate(R, t)
    nchunks = 1 + R.pick(3, 'chunks')
    chunks, n = chunking(R, t, nchunks, 2, False)
    if n > 3: raise Infeasible()
    bad = None if R.pick(2, 'malformed') == 0 else R.pick(nchunks, 'malformed chunk')
    mk = concrete(R, t, chunks, bad)
    size = R.int('chunksize', 0)
    def parse(I, o, a, k):
        s = a[0] if a else k.get('chunksize', 0)
        if s is not size: raise Undecided('another chunk size')
        return mk(I)
    parser = MD.Ext('depparserobj', run=parse)
    nprocs = 1 + R.pick(2, 'processes')
    pool = None if R.pick(2, 'pool') == 0 else MD.Ext('pool')
    o = R.call(VF + 'verifyParsedDEP', parser, t.ks, t.key, st, t.idx, pool, nprocs, size, t.backend)
    rules = [t.has_cert(i) for ch in chunks if len(ch) > 1 for i in ch]
    # several groups of which one names no certificate: known finding, either answer
    if o.ok: final(R, t, o, st, n)
    verdict(R, t, o, n, bad, conj(rules) if rules else True, free=False if n == 1 or R.implied(mkbool(conj([t.has_cert(i) for i in range(n)]))) is True else True)
libs.METH[('depparserobj', 'parse')] = lambda I, o, a, k: o.run(I, o, a, k)

# ---------------------------------------------------------------- parts of the parallel verification
class Pkg(object):
    """package: the pieces a .. b - 1 with their verifiers"""
    def __init__(self, R, t, a, b, name='package'):
        self.R, self.t, self.a, self.b = R, t, z3.simplify(iz(a)), z3.simplify(iz(b))
        self.rvs = {}
        def el(I, e):
            p = t.piece(z3.simplify(self.a + iz(e)))
            return (p[0], self.rv(p))
        self.seq = Seq(mkint(self.b - self.a), el, name); self.seq.pkg = self
    def rv(self, p):
        i = p[0].gi.get_id()
        if i not in self.rvs:
            o = Obj(self.R.name('verify_receipt.ReceiptVerifier'))
            o.attrs.setraw('keyStore', self.t.ks if p[1] is None else None); o.attrs.setraw('cert', p[1])
            self.rvs[i] = o
        return self.rvs[i]
class PkgFold(PieceFold):
    """loop over the pieces of a package, from any state"""
    def __init__(self, R, t, pkg, inv, mode, cur):
        PieceFold.__init__(self, R, t, pkg.seq, inv, mode); self.base, self.start = pkg.a, cur
    def entry(self): return At(self.first(0))
    def facts(self, g): return [g.j >= self.base + 1, self.t.D(self.base, g.j)]
    def step(self, g, i):
        t, c = self.t, self.I.ctx
        j = self.first(i)
        t.facts(j); n = z3.simplify(j + 1)
        t.sub(self.base, n); t.sub(j, n)
        c.assume(self.chain(n) == F('vnext', 'AI>A')(self.chain(j), j))
        if not self.I.test(mkbool(z3.And(t.good(self.chain(j), j, t.verifier(j)), t.D(self.base, n))), 'spec: piece verified'):
            return Rejected(LIFT, 'a group must be rejected')
        return At(n)
    def chain(self, j):
        j = z3.simplify(iz(j))
        return self.start if j.eq(self.base) else F("pkg.state", "AI>A")(self.start, j)
    def templates(self, g, i):
        t, j = self.t, g.j
        return [('state', lambda: Opaque('regstate', self.chain(j))), ('used', lambda: (mkint(self.base), mkint(j)))] + [x for x in PieceFold.templates(self, g, i) if x[0] not in ('state', 'used')]
GV = VF + 'verifyGroupsWithVerifiers'
@obl(GV, LIFT, GV + ' ' + GV + 'Tuple', uses=['top:verifyGroup', 'top:merge'], fold=True)
def _(R):
    """any number of groups, verified one after the other, each from the state
    the one before led to, with its verifier and one bookkeeping of IDs"""
    I, c = R.I, R.ctx
    t = Top(R); t.rej = None
    t.backend = R.name(VS + 'UsedReceiptIdsUnique')
    a, n = c.fresh('from'), c.fresh('pieces'); c.assume(a >= 0); c.assume(n >= 0)
    pkg = Pkg(R, t, a, a + n)
    st, used = t.state(c.fresh('start', 'A')), R.new(VS + 'UsedReceiptIdsUnique')
    t.lo = a
    h = PkgFold(R, t, pkg, base.INV.get(GV, {}), c.data.get('mode'), tok(I, st))
    c.data['fold'] = h
    if R.pick(2, 'entry'): o = R.call(GV, pkg.seq, t.key, t.prevStart, st, used)
    else: o = R.call(GV + 'Tuple', (pkg.seq, t.key, t.prevStart, st, used))
    g = c.data.get('ghost')
    if g is None: raise Undecided('the groups are not processed by a loop')
    if end_verdict(R, t, o, g, z3.simplify(a + n)):
        R.require(isinstance(o.v, tuple) and len(o.v) == 2, 'result is no pair')
        R.require(mkbool(tok(I, o.v[0]) == h.chain(z3.simplify(g.j))), 'state after the package')
        x = iv(I, o.v[1])
        if c.implied(n == 0): R.require(x == EMPTY, 'used IDs after an empty package')
        else: R.require(x is not None and x != EMPTY and mkbool(z3.And(iz(x[0]) == a, iz(x[1]) == a + n)), 'used IDs after the package')
        R.done('accepted')

# chunks for the processes
class Batches(object):
    """consumer: every batch is the next chunks in order, at most nprocs"""
    def __init__(self, R, total, number, nprocs):
        self.R, self.total, self.number, self.nprocs = R, total, number, nprocs
        self.next = z3.IntVal(0); self.heaps = []
    def escaped(self, v): return any(id(v) in ids for h, ids in self.heaps)
    def intact(self):
        for h, ids in self.heaps:
            if any(id(x) in ids for x in h.changed()): self.R.require(False, 'a batch changes after it was delivered')
    def section(self, v):
        """(from, to) if the list consists of consecutive chunks; () if empty; None"""
        c = self.R.ctx
        if isinstance(v, (list, tuple)): base, add = None, list(v)
        elif isinstance(v, MSeq) and getattr(v, 'chunk', None):
            base, n0, add = v.chunk, iz(v.base.n), []
            for k, (j, x) in enumerate(v.writes):
                if not c.implied(j == n0 + k): return None
                add.append(x)
        else: raise Undecided('batch %r' % (v,))
        lo, hi = base if base else (None, None)
        for x in add:
            n = self.number(x)
            if hi is not None and not c.implied(n == hi): return None
            if lo is None: lo = n
            hi = z3.simplify(n + 1)
        return () if lo is None else (lo, hi)
    def take(self, v):
        R = self.R
        self.intact()
        d = self.section(v)
        R.require(d is not None, 'chunks of a batch are not consecutive', case={'batch': 'order'})
        R.require(d != (), 'an empty batch is delivered', case={'batch': 'empty'})
        lo, hi = d
        R.require(mkbool(lo == self.next), 'chunks are lost or repeated', case={'batch': 'position'})
        R.require(mkbool(z3.And(hi > lo, hi - lo <= iz(self.nprocs))), 'batch of another size than processes', case={'batch': 'size'})
        self.next = hi
        h = loops.Heap(R.I, [v], [])
        self.heaps.append((h, {i for i, (x, s) in h.seen.items() if isinstance(x, (list, MSeq, PDict, PSet))}))
class BatchIs(Template):
    """list of chunks lo to hi - 1"""
    def __init__(self, E, lo, hi): self.E, self.lo, self.hi = E, z3.simplify(iz(lo)), z3.simplify(iz(hi))
    def make(self):
        c = self.E.R.ctx
        if not c.branch(self.lo < self.hi, 'chunks in the batch'): return []
        def el(I, i): raise Unsupported('element of a batch')
        r = MSeq(mkint(self.hi - self.lo), el, 'batch'); r.chunk = (self.lo, self.hi)
        return r
    def matches(self, I, v):
        if self.E.escaped(v): return False
        try: d = self.E.section(v)
        except Undecided: return False
        if d is None: return False
        if d == (): return mkbool(self.lo == self.hi)
        return conj([d[0] == self.lo, d[1] == self.hi])
class BatchFold(FoldRule):
    def __init__(self, R, seq, E, inv, mode):
        FoldRule.__init__(self, R, seq, inv, mode); self.E = E
    def roots(self): return []
    def escaped(self, v): return self.E.escaped(v)
    def entry(self): return self.E
    def arb(self, k):
        c = self.I.ctx; s = c.fresh('delivered')
        for x in self.limits(s, iz(k)): c.assume(x)
        self.E.next = s
        return self.E
    def limits(self, s, k): return [s >= 0, s <= k, k - s < iz(self.E.nprocs)]
    def body(self, I, s, fr, g, i, heap, key, entryvals, roots):
        self.at = i
        return FoldRule.body(self, I, s, fr, g, i, heap, key, entryvals, roots)
    def shape(self, g, old):
        self.E.intact()
        return [(mkbool(x), 'chunks kept back') for x in self.limits(self.E.next, z3.simplify(iz(self.at) + 1))]
    def step(self, g, i):
        if self.I.ctx.data.get('bad'): return Rejected('C10', 'malformed chunk')
        return self.E
    def accepted(self, g): self.R.require(False, 'goes on after an error', g.why)
    def templates(self, g, i):
        E = self.E; k = z3.simplify(iz(i) + 1)
        return [('batch', lambda: BatchIs(E, E.next, k)), ('elem', lambda: self.seq.at(self.I, i)), ('count', lambda: mkint(k - E.next)), ('left', lambda: mkint(iz(E.nprocs) - (k - E.next))),
            ('index', lambda: mkint(iz(i))), ('next', lambda: mkint(k)), ('None', lambda: None), ('True', lambda: True), ('False', lambda: False), ('zero', lambda: 0)]
CP = VF + 'getChunksForProcs'
from .ob_dep import chunkseq, consume
@obl(CP, 'C08', CP, fold=True)
def _(R):
    """any number of chunks and processes: the chunks in order, in non-empty
    batches of at most as many as there are processes"""
    I, c = R.I, R.ctx
    q, number = chunkseq(R)
    nprocs = R.int('nprocs', 1)
    E = Batches(R, iz(q.n), number, nprocs)
    c.data['fold'] = BatchFold(R, q, E, base.INV.get(CP, {}), c.data.get('mode'))
    o = R.call(CP, q, nprocs)
    exc = consume(R, o.v, E) if o.ok else o.v
    if c.data.get('bad'):
        R.require(exc is not None, 'passes over a malformed chunk'); R.done('error'); return
    R.require(exc is None, 'raises %s' % (exc and exc.cls.name))
    R.require(mkbool(E.next == iz(q.n)), 'the last chunks are lost', case={'batch': 'last'})
    R.done('all')

# verifiers for the groups of a chunk
PV = VF + 'packageChunkWithVerifiers'
class VerifierFold(FoldRule):
    """loop over the pieces of a chunk: each gets its verifier"""
    def __init__(self, R, t, pkg, inv, mode):
        FoldRule.__init__(self, R, pkg.seq, inv, mode); self.t, self.pkg = t, pkg
        self.f = lambda I, i: pkg.seq.at(I, i)
    def roots(self): return []
    def entry(self): return At(0)
    def arb(self, k):
        g = At(k)
        for x in self.facts(g): self.I.ctx.assume(x)
        return g
    def facts(self, g): return [g.j >= 0]
    def shape(self, g, old): return [(mkbool(x), 'pieces') for x in self.facts(g)]
    def okp(self, j):
        t = self.t
        return z3.And(t.anchored(j), z3.Or(t.has_cert(j), self.pkg.b - self.pkg.a == 1))
    def step(self, g, i):
        i = z3.simplify(iz(i))
        if not self.I.test(mkbool(self.okp(z3.simplify(self.pkg.a + i))), 'spec: verifier for piece'): return Rejected('C02 C08', 'a group names no anchored certificate')
        return At(z3.simplify(i + 1))
    def accepted(self, g): self.R.require(False, 'goes on although ' + g.detail, g.why, case={'verdict': 'accepts'})
    def templates(self, g, i):
        return [('verifiers', lambda: MapList(self.f, z3.simplify(iz(i) + 1))), ('index', lambda: mkint(iz(i))), ('next', lambda: mkint(iz(i) + 1)), ('None', lambda: None), ('True', lambda: True), ('False', lambda: False)]
@obl(PV, 'C02 C08', PV + ' verify_receipt.ReceiptVerifier.fromCert verify_receipt.ReceiptVerifier.fromKeyStore', uses=['chain:verifyCert'], fold=True, fallback=PV + '/bounded')
def _(R):
    """chunks of any number of groups: each group with a verifier for its own
    anchored certificate, or with one for the key store if it is alone and names
    none; otherwise the chunk is refused"""
    I, c = R.I, R.ctx
    t = Top(R)
    a, n = c.fresh('from'), c.fresh('pieces'); c.assume(a >= 0); c.assume(n >= 1)
    pkg = Pkg(R, t, a, a + n)
    chunk = Seq(SInt(n), lambda I, e: t.piece(z3.simplify(a + iz(e))), 'chunk', pkg.seq.root)
    h = VerifierFold(R, t, pkg, base.INV.get(PV, {}), c.data.get('mode'))
    c.data['fold'] = h
    o = R.call(PV, chunk, t.ks)
    g = c.data.get('ghost')
    if g is None:
        if not c.implied(n == 1): raise Undecided('the groups are not processed by a loop')
        if not I.test(mkbool(h.okp(a))): g = Rejected('C02 C08', 'a group names no anchored certificate')
        else: g = At(n)
    if end_verdict(R, t, o, g, n):
        l = o.v
        j = c.fresh('any'); c.assume(z3.And(j >= 0, j < n))
        if isinstance(l, (list, tuple)): R.require(mkbool(n == len(l)), 'number of groups'); l = list(l); x = l[0] if len(l) == 1 else None
        elif isinstance(l, Seq): R.require(mkbool(iz(l.n) == n), 'number of groups'); x = l.at(I, j)
        else: x = None
        if x is None: raise Undecided('result %r' % (o.v,))
        R.require(isinstance(x, (tuple, list)) and len(x) == 2, 'element is no pair')
        if isinstance(l, list): c.assume(j == 0)
        p = pkg.seq.at(I, z3.simplify(j))
        R.require(x[0] is p[0], 'receipts of a group change', case={'package': 'receipts'})
        R.require(isinstance(x[1], Obj) and x[1].cls is p[1].cls, 'no receipt verifier')
        ks, ct = x[1].attrs.raw('keyStore', 1), x[1].attrs.raw('cert', 1)
        R.require(ks is p[1].attrs.raw('keyStore') and alike(I, ct, p[1].attrs.raw('cert')), 'group is not verified with its own certificate', case={'package': 'verifier'})
        R.done('ok')

# start states of the packages
PT = VF + 'prepareVerificationTuples'
class PredictFold(FoldRule):
    """loop over packages or over the pieces of one; register state predicted for
    the piece that follows"""
    def __init__(self, R, t, seq, inv, mode, doc, start, inner=False):
        FoldRule.__init__(self, R, seq, inv, mode); self.t, self.doc, self.start, self.inner = t, doc, start, inner
        self.f = lambda I, i: t.state(self.P(doc.H(i)))
    def handles(self, q):
        if not self.inner: return FoldRule.handles(self, q)
        p = getattr(q.root, 'pkg', None)
        if p is None: return False
        self.seq, self.pkg = q.root, p
        return True
    def P(self, j):
        """state predicted before piece j"""
        j = z3.simplify(iz(j))
        return self.start if z3.is_int_value(j) and j.as_long() == 0 else F('pred.state', 'AI>A')(self.start, j)
    def roots(self): return []
    def pos(self, k):
        """pieces done after k rounds"""
        return z3.simplify(self.pkg.a + iz(k)) if self.inner else self.doc.H(k)
    def entry(self): return At(self.pos(0))
    def arb(self, k):
        if not self.inner: self.doc.facts(z3.simplify(iz(k) - 1))
        return At(self.pos(k))
    def shape(self, g, old): return []
    def step(self, g, i):
        c, t = self.I.ctx, self.t
        if t.rej is not None: return t.rej
        n = At(self.pos(z3.simplify(iz(i) + 1)))
        if self.inner:
            c.assume(self.P(n.j) == F('pnext', 'AI>A')(self.P(g.j), g.j))
            if self.I.test(mkbool(F('pfail', 'AI>B')(self.P(g.j), g.j)), 'spec: no prediction'): t.rej = Rejected('C08', 'a group cannot be predicted'); return t.rej
        return n
    def accepted(self, g): self.R.require(False, 'goes on although ' + g.detail, g.why)
    def templates(self, g, i):
        k = z3.simplify(iz(i) + 1)
        T = [('state', lambda: self.t.state(self.P(g.j)))]
        if not self.inner: T += [('upto', lambda: MapList(self.f, k + 1)), ('starts', lambda: MapList(self.f, k))]
        return T + [('index', lambda: mkint(iz(i))), ('next', lambda: mkint(k)), ('None', lambda: None), ('True', lambda: True), ('False', lambda: False)]
@obl(PT, 'C08 C05', PT, uses=['top:fromDEPGroup'], fold=True)
def _(R):
    """any number of packages and groups: package i starts from the state
    predicted from the given one by all packages before it, with a bookkeeping
    of IDs of its own"""
    I, c = R.I, R.ctx
    c.data['longlists'] = True; c.data['lazycomp'] = True
    t = Top(R); t.rej = None
    t.backend = R.name(VS + ('UsedReceiptIdsUnique', 'UsedReceiptIdsSortedNatural')[R.pick(2, 'bookkeeping')])
    doc = Chunked(R, t)
    st = t.state(c.fresh('start', 'A'))
    pk = {}
    def el(I, i):
        i = z3.simplify(iz(i)); doc.facts(i)
        return Pkg(R, t, doc.H(i), doc.H(z3.simplify(i + 1))).seq
    seq = Seq(SInt(doc.m), el, 'packages')
    inv, mode = base.INV.get(PT, {}), c.data.get('mode')
    h = PredictFold(R, t, seq, inv, mode, doc, tok(I, st))
    c.data['fold'] = [h, PredictFold(R, t, None, inv, mode, doc, tok(I, st), True)]
    o = R.call(PT, seq, t.key, t.prevStart, st, t.backend)
    g = c.data.get('ghost')
    if g is None: raise Undecided('the packages are not processed by a loop')
    if not end_verdict(R, t, o, g, doc.H(doc.m)): return
    R.require(mkbool(tok(I, st) == h.start), 'the given state is changed', case={'tuple': 'state'})
    v = I.models.force(I, o.v)
    q = v if isinstance(v, (list, tuple, Seq)) else loops.toseq(I, v)
    if isinstance(q, (list, tuple)) or q is None: raise Undecided('result %r' % (v,))
    R.require(mkbool(iz(q.n) == doc.m), 'number of packages', case={'tuple': 'number'})
    out = []
    for w in ('first', 'any'):
        j = z3.IntVal(0) if w == 'first' else z3.simplify(c.fresh('any'))
        if w == 'any': c.assume(z3.And(j >= 1, j < doc.m))
        if w == 'any' and c.check() == z3.unsat: break
        doc.facts(j)
        x = q.at(I, j)
        R.require(isinstance(x, tuple) and len(x) == 5, 'no argument tuple')
        R.require(x[0] is seq.at(I, j), 'another package', case={'tuple': 'package'})
        same_args(I, x[1], x[2])
        R.require(mkbool(tok(I, x[3]) == h.P(doc.H(j))), 'another start state of a package', case={'tuple': 'state'})
        R.require(isinstance(x[4], Obj) and x[4].cls is t.backend and iv(I, x[4]) == EMPTY, 'no fresh bookkeeping of IDs', case={'tuple': 'used'})
        out.append(x)
    if len(out) == 2:
        R.require(out[0][4] is not out[1][4], 'packages share their bookkeeping of IDs', 'C08 C05', case={'tuple': 'used'})
        R.require(out[0][3] is not out[1][3], 'packages share a state', case={'tuple': 'state'})
    R.done('ok')

BG = VF + 'balanceGroupsWithVerifiers'
@obl(BG, 'C08', BG, bounded='at most 3 groups with 6 receipts in total, at most 4 packages', weight=2)
def _(R):
    """the packages hold the receipts, once each, in order, with the verifier
    of their group; at most nprocs packages, none empty"""
    I, c = R.I, R.ctx
    sizes = [R.pick(4, 'receipts') for _ in range(1 + R.pick(3, 'groups'))]
    if not 0 < sum(sizes) <= 6: raise Infeasible()
    groups = [([R.opaque('receipt') for _ in range(n)], Obj(R.name('verify_receipt.ReceiptVerifier'))) for n in sizes]
    flat = [(r, rv) for rs, rv in groups for r in rs]
    n = 1 + R.pick(4, 'packages')
    o = R.call(BG, [(list(rs), rv) for rs, rv in groups], n)
    R.require(o.ok, 'raises %s' % (o.v.cls.name if not o.ok else ''))
    lst = lambda x: list(I.iterate(x))
    got = []
    pk = [[tuple(lst(g)) for g in lst(p)] for p in lst(o.v)]
    R.require(len(pk) <= n, 'more packages than processes')
    for p in pk:
        R.require(len(p) > 0, 'empty package')
        for g in p:
            R.require(len(g) == 2, 'group is no pair')
            rs = lst(g[0])
            R.require(len(rs) > 0, 'empty group')
            got += [(r, g[1]) for r in rs]
    R.require(len(got) == len(flat) and all(a is b and v is w for (a, v), (b, w) in zip(got, flat)), 'receipts are lost, duplicated, reordered or given to another verifier')
    R.done()
