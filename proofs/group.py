"""Specification of the verification of receipt groups: one step on ghost
states per receipt (C03-C07), and the call-site meanings of parsing and single
receipt verification used there."""
from .common import *
from . import common as CM, base
from pyvc import loops
from pyvc.loops import FoldRule, Rejected, alike
from pyvc.seq import Seq

FAILMARK = 'U2ljaGVyaGVpdHNlaW5yaWNodHVuZyBhdXNnZWZhbGxlbg'
# ---------------------------------------------------------------- receipts in texts
def jws_fields(I, t):
    """twelve fields and signature of a well-formed receipt text, else None"""
    c = I.ctx
    t = I.models.force(I, t)
    x = c.term(t)
    memo = c.memo.setdefault('jws', {})
    k = x.get_id()
    if k in memo: return memo[k]
    c.keep.append(x)
    ok = c.implied(F('jwsok', 'S>B')(x)) or c.branch(F('jwsok', 'S>B')(x), 'well-formed receipt')
    if not ok: memo[k] = None; return None
    force_lang(I, t, L.inter(L.NOSURR, L.anylen(1)))
    f = [SStr([c.atom(F('jws.' + n, 'S>S')(x))]) for n in FIELDS]
    assume_fields(I, f, closed='open question' if _TPL.get(id(I)) is not None else None)
    d = b64atom_or(c, f[11], 'std')
    c.assume(iz(c.length(d)) == 8)
    force_lang(I, f[11], L.from_regex('[%s]{11}={1,3}' % L.STD))
    sig = SStr([c.atom(F('jws.signature', 'S>S')(x))])
    force_lang(I, sig, lang('SIGURL'))
    memo[k] = f + [sig]
    return memo[k]
def build_rec(I, f):
    cls = I.modules['receipt'].ns['Receipt']
    try:
        o = I.call(cls, f[:12], {})
        I.call(I.getattr(o, 'sign'), [JWSHEADER, f[12]], {})
    except PyRaise as p: raise Undecided('constructor refuses an admissible receipt (see C11): %s' % p.exc.cls.name)
    return o
_TPL = {}
def rec_template(I):
    """Attributes of a receipt object as functions of the fields of its text:
    derived by running the current constructor and sign() on an arbitrary
    well-formed text, on all paths.  None if they depend on the path."""
    if id(I) in _TPL: return
    ex = Explorer(timeout_ms=6000)
    ex.lit_hook = MD.lit_hook; ex.eq_hook = MD.eq_hook
    I.contracts = {'utils.init_class_overrides': lambda I, f, a, k: None}
    for n in ('utils.restoreb64padding', 'receipt.CertSerialType.getCertSerialType'):
        for q in base.CONTRACTS[n][0]: I.contracts[q] = base.CONTRACTS[n][1]
    I.called = {}; I.used_contracts = set()
    ex.work = [[]]
    tpl = None
    _TPL[id(I)] = None
    while ex.work:
        ctx = Ctx(ex, ex.work.pop())
        try:
            I.begin(ctx)
            t = SStr([ctx.atom(ctx.fresh('text', 'S'))])
            ctx.assume(F('jwsok', 'S>B')(ctx.term(t)))
            f = jws_fields(I, t)
            o = build_rec(I, f)
            d = [(n, describe(I, v, f)) for n, v in o.attrs.items()]
        except Infeasible: continue
        except (Unsupported, Undecided, PathBudget, PyRaise):
            if ctx.check() == z3.unsat: continue
            return
        if ctx.check() == z3.unsat: continue
        if any(x is None for _, x in d) or tpl is not None and tpl != d: return
        tpl = d
    _TPL[id(I)] = tpl
def describe(I, v, f):
    c = I.ctx
    if v is None or isinstance(v, (str, bytes, int, float)) and not any(v is x for x in f): return ('const', v)
    for j, x in enumerate(f):
        if v is x: return ('field', j)
        xp = x.parts
        if len(xp) != 1 or isinstance(xp[0], LITS): continue
        x0 = xp[0]
        if isinstance(v, SStr) and len(v.parts) == 1 and not isinstance(v.parts[0], LITS) and v.parts[0].eq(x0): return ('field', j)
        if isinstance(v, SFloat) and isinstance(v.src, SStr) and v.real is None and len(v.src.parts) == 1 and not isinstance(v.src.parts[0], LITS) and v.src.parts[0].eq(x0): return ('float', j)
        if isinstance(v, Opaque) and v.kind == 'datetime' and v.t.eq(F('strptime!' + DATEFMT, 'S>A')(x0)): return ('date', j)
    return None
def instantiate(I, tpl, f):
    o = Obj(I.modules['receipt'].ns['Receipt'])
    for n, (k, j) in tpl:
        if k == 'const': v = j
        elif k == 'field': v = f[j]
        elif k == 'float': v = SFloat(src=SStr(f[j].parts))
        else: v = Opaque('datetime', F('strptime!' + DATEFMT, 'S>A')(I.ctx.term(f[j])), f[j])
        o.attrs.setraw(n, v)
    return o
def jws_rec(I, t):
    """a new receipt object with the contents of the text"""
    c = I.ctx
    t = I.models.force(I, t)
    f = jws_fields(I, t)
    if f is None: return None
    k = c.term(t).get_id()
    memo = c.memo.setdefault('jwsrec', {})
    if k not in memo:
        tpl = _TPL.get(id(I))
        memo[k] = instantiate(I, tpl, f) if tpl is not None else build_rec(I, f)
    o = Obj(memo[k].cls, memo[k].attrs.copy())
    o.ghost = ('jws', t, memo[k])
    return o
def rec_fields(I, o):
    """fields of the text an unchanged receipt object was read from"""
    g = getattr(o, 'ghost', None)
    if not isinstance(o, Obj) or g is None or g[0] != 'jws' or len(o.attrs.items()) != len(g[2].attrs.items()): return None
    if any(x is not y for (_, x), (_, y) in zip(o.attrs.items(), g[2].attrs.items())): return None
    return jws_fields(I, g[1])
def simple_contract(name, value):
    def h(I, f, a, k):
        if len(a) != 1 or k or not isinstance(a[0], Obj): return MISSING
        fs = rec_fields(I, a[0])
        return MISSING if fs is None else value(I, fs)
    contract('receipt.Receipt.' + name, 'receipt.Receipt.' + name)(h)
def spec_marker(m):
    def h(I, f):
        return mkbool(I.ctx.term(b64atom_or(I.ctx, f[9], 'std')) == I.ctx.lit(m))
    return h
def gmarker(I, f):
    for m in ('TRA', 'STO'):
        if I.test(spec_marker(m)(I, f)): return m.encode()
    return None
def spec_null(I, f): return mkbool(conj([MD.cents_term(I, s) == 0 for s in f[4:9]]))
def spec_cents(I, f): return mkint(cents(I, f))
def spec_broken(I, f): return mkbool(I.models.equal(I, f[12], FAILMARK))
simple_contract('isNull', spec_null)
simple_contract('isDummy', spec_marker('TRA'))
simple_contract('isReversal', spec_marker('STO'))
simple_contract('turnoverCents', spec_cents)
simple_contract('isSignedBroken', spec_broken)
REC_SIMPLE = ['receipt.Receipt.' + n for n in ('isNull', 'isDummy', 'isReversal', 'turnoverCents', 'isSignedBroken')]

@contract('jws:fromJWSString', 'receipt.Receipt.fromJWSString')
def _(I, f, a, k):
    if len(a) != 1 or k or not isinstance(I.models.force(I, a[0]), SStr): return MISSING
    r = jws_rec(I, a[0])
    if r is None: raise I.exc(I.modules['receipt'].ns['MalformedReceiptException'], 'text')
    return (r, 'R1')
def is_null(I, f):
    return all(I.test(mkbool(MD.cents_term(I, s) == 0)) for s in f[4:9])
def cents(I, f):
    return z3.simplify(sum(MD.cents_term(I, s) for s in f[4:9]))
def verdict(I, rv, t):
    """single receipt verification (C01): ok / marked / null / mismatch / invalid / malformed"""
    c = I.ctx
    f = jws_fields(I, t)
    if f is None: return 'malformed'
    x = c.term(t)
    if c.branch(F('rvmismatch', 'AS>B')(rv.ghost, x), 'certificate does not match'): return 'mismatch'
    if I.test(mkbool(I.models.equal(I, f[12], FAILMARK))):
        return 'null' if gmarker(I, f) is None and is_null(I, f) else 'marked'
    return 'ok' if c.branch(F('rvvalid', 'AS>B')(rv.ghost, x), 'signature valid') else 'invalid'
def do_verify(I, rv, t, rec=None):
    v = verdict(I, rv, t)
    vr, rc = I.modules['verify_receipt'].ns, I.modules['receipt'].ns
    if v == 'ok': return (rec if rec is not None else jws_rec(I, t), I.modules['algorithms'].ns['ALGORITHMS'].raw('R1'))
    raise I.exc({'malformed': rc['MalformedReceiptException'], 'mismatch': vr['CertSerialMismatchException'], 'marked': vr['SignatureSystemFailedException'],
        'null': vr['UnsignedNullReceiptException'], 'invalid': vr['InvalidSignatureException']}[v], 'receipt')
@contract('rv:verifyJWS', 'verify_receipt.ReceiptVerifier.verifyJWS')
def _(I, f, a, k):
    if len(a) != 2 or k or not isinstance(a[1], SStr) or a[0].ghost is None: return MISSING
    return do_verify(I, a[0], a[1])
@contract('rv:verify', 'verify_receipt.ReceiptVerifier.verify')
def _(I, f, a, k):
    if len(a) != 3 or k or a[0].ghost is None or not isinstance(a[1], Obj) or a[1].ghost is None: return MISSING
    if rec_fields(I, a[1]) is None: return MISSING
    return do_verify(I, a[0], a[1].ghost[1], a[1])
def decctr(I, key, f):
    key = I.models.force(I, key)
    c = I.ctx
    return F('decctr', 'SSSS>I')(c.term(key), c.term(f[1]), c.term(f[2]), c.term(f[9]))
def goodkey(I, key):
    key = I.models.force(I, key)
    return isbytes(key) and I.test(mkbool(iz(I.ctx.length(key)) == 32))
@contract('rec:decryptTurnoverCounter', 'receipt.Receipt.decryptTurnoverCounter')
def _(I, f, a, k):
    if len(a) != 3 or k or not isinstance(a[0], Obj): return MISSING
    fs = [a[0].attrs.raw(n, None) for n in FIELDS]
    if not all(isstr(x) for x in fs): return MISSING
    a[1] = I.models.force(I, a[1])
    if not (isbytes(a[1]) or a[1] is None): return MISSING
    if gmarker(I, fs) is not None: raise I.exc(Exception, 'no counter')
    if not goodkey(I, a[1]): raise I.exc(I.modules['utils'].ns['InvalidKeyException'])
    return SInt(decctr(I, a[1], fs))
# used receipt IDs: any bookkeeping whose answers depend on what was added before
def utok(o): return o.attrs.raw('_tok', None)
@contract('used:check', 'verification_state.UsedReceiptIdsUnique.check')
def _(I, f, a, k):
    t = utok(a[0])
    if t is None or len(a) != 2 or k: return MISSING
    if I.ctx.branch(F('usedin', 'AS>B')(t.t, I.ctx.term(a[1])), 'ID already used'):
        raise I.exc(I.modules['verification_state'].ns['DuplicateReceiptIdException'], a[1])
    return None
@contract('used:add', 'verification_state.UsedReceiptIdsUnique.add')
def _(I, f, a, k):
    t = utok(a[0])
    if t is None or len(a) != 2 or k: return MISSING
    a[0].attrs.setraw('_tok', Opaque('usedtok', F('useadd', 'AS>A')(t.t, I.ctx.term(a[1]))))
    return None
GROUP_USES = ['utils.restoreb64padding', 'receipt.CertSerialType.getCertSerialType', 'jws:fromJWSString', 'rv:verifyJWS', 'rv:verify', 'rec:decryptTurnoverCounter', 'used:check', 'used:add'] + REC_SIMPLE

# ---------------------------------------------------------------- inputs
STATE = ('startReceiptJWS', 'lastReceiptJWS', 'lastTurnoverCounter', 'needRestoreReceipt', 'chainNextTo')
def mkused(R, name='used'):
    o = Obj(R.name('verification_state.UsedReceiptIdsUnique'))
    o.attrs.setraw('_tok', Opaque('usedtok', R.ctx.fresh(name, 'A')))
    return o
def opt_text(R, name, n=None):
    """None or a text; decided when it is looked at"""
    return MD.SJson(name + '?', ('null', 'str'))
class OptKey(MD.SJson):
    """None or a byte string, decided when it is looked at"""
    def __init__(self, R, name='key'):
        MD.SJson.__init__(self, name, ('null', 'bytes')); self.none = R.ctx.fresh('nokey', 'B')
    def choose(self, I):
        if len(self.kinds) > 1: self.kinds = ['null'] if I.ctx.choose([self.none, z3.Not(self.none)], 'key given') == 0 else ['bytes']
    def narrow(self, I, kinds, label=''):
        self.choose(I)
        return self.kinds[0] in kinds
    def force(self, I):
        self.choose(I)
        return MD.SJson.force(self, I)
def mkregstate(R, name='state', last=None):
    s = R.new('verification_state.CashRegisterState')
    vals = {'startReceiptJWS': opt_text(R, name + '.start'), 'lastReceiptJWS': opt_text(R, name + '.last'),
        'lastTurnoverCounter': R.int(name + '.counter'), 'needRestoreReceipt': R.bool(name + '.need'), 'chainNextTo': opt_text(R, name + '.chain')}
    for k, v in vals.items(): s.attrs.setraw(k, v)
    return s, vals
def mkrv(R, name='rv'):
    rv = R.new('verify_receipt.ReceiptVerifier', None, R.opaque('cert'))
    rv.ghost = R.ctx.fresh(name, 'A')
    return rv
def mkgroup(R, name='grp', n=None):
    """receipts of a group, compressed as the parsers deliver them"""
    c = R.ctx
    if n is None:
        n = c.fresh(name + '.n'); c.assume(n >= 0); n = SInt(n)
    tok = c.fresh(name, 'A')
    def elem(I, i):
        t = group_text(I, tok, i)
        return MD.encode(I, t)
    s = Seq(n, elem, name)
    s.tok = tok
    return s
def group_text(I, tok, i):
    c = I.ctx
    return SStr([c.atom(F('text', 'AI>S')(tok, z3.simplify(iz(i))), L.inter(L.NOSURR, L.anylen(1)))])
def truthy(I, v):
    return v is not None and I.test(v)

# ---------------------------------------------------------------- one step
class Ghost(object):
    """state of a register between two receipts"""
    def __init__(self, **kw): self.__dict__.update(kw)
    def but(self, **kw):
        g = Ghost(**self.__dict__); g.__dict__.update(kw); return g
def ts(I, f): return F('ts', 'A>I')(F('strptime!' + DATEFMT, 'S>A')(I.ctx.term(f[3])))
def closed(I, f): return in_lang(I, f[0], L.literal('AT0'))
def chain_value(I, text):
    text = I.models.force(I, text)
    h = I.getitem(libs.sha256(I, MD.encode(I, text)), slice(0, 8))
    return MD.decode(I, MD.B64E(I.ctx, h, 'std'))
def step(I, g, t, rv, key, prevStart):
    """what accepting the receipt with JWS text t requires, and the state after it"""
    c = I.ctx
    eq = lambda a, b: I.test(mkbool(I.models.equal(I, a, b)))
    v = verdict(I, rv, t)
    if v in ('malformed', 'mismatch', 'invalid'): return Rejected('C01', v)
    f = jws_fields(I, t)
    m = gmarker(I, f)
    signed = v == 'ok'
    need = g.need
    first = not truthy(I, g.prev)
    pf = None
    if not first:
        pf = jws_fields(I, g.prev)
        if pf is None: return Rejected('C16', 'previous receipt malformed')
    normal_null = m is None and is_null(I, f)
    # C06: first receipt of a register
    if first:
        if not signed: return Rejected('C06 C07', 'first receipt not signed')
        if not normal_null: return Rejected('C06', 'first receipt is no start receipt')
    # C07: outages
    if not first:
        if signed and normal_null: need = False
        else:
            if I.test(g.need): return Rejected('C07', 'restoring null receipt missing')
            if signed and eq(pf[12], FAILMARK): need = True
    else: need = False
    rel, relf = g.prev if not first else None, pf
    if first and truthy(I, prevStart):
        if not closed(I, f): return Rejected('C06', 'cluster in open system')
        rel = prevStart; relf = jws_fields(I, prevStart)
        if relf is None: return Rejected('C16', 'start receipt of previous register malformed')
        if not closed(I, relf): return Rejected('C06', 'cluster in open system')
    # C05
    if I.test(mkbool(F('usedin', 'AS>B')(g.used, c.term(f[2])))): return Rejected('C05', 'ID in use')
    used = F('useadd', 'AS>A')(g.used, c.term(f[2]))
    # C06: continuity
    if rel is not None:
        if not eq(relf[1], f[1]): return Rejected('C06', 'register ID changes')
        if closed(I, relf) != closed(I, f): return Rejected('C06', 'kind of system changes')
        if I.test(mkbool(ts(I, relf) > ts(I, f))): return Rejected('C06', 'date decreases')
    # C03
    chain = g.chain
    if truthy(I, g.chain):
        if not eq(f[11], g.chain): return Rejected('C03', 'chaining value is not the configured one')
        chain = None
    elif not eq(f[11], chain_value(I, rel if rel is not None else f[1])): return Rejected('C03', 'chaining value')
    # C04
    counter = g.counter
    if m != b'TRA' and not I.test(mkbool(bt(I.models.identical(I, key, None)))):
        if not goodkey(I, key): return Rejected('C04 C13', 'unsuitable key')
        counter = mkint(iz(g.counter) + cents(I, f))
        if m is None and not I.test(mkbool(decctr(I, key, f) == iz(counter))): return Rejected('C04', 'turnover counter')
    return g.but(prev=t, start=t if first else g.start, counter=counter, need=need, chain=chain, used=used)

class Later(MD.SJson):
    """value determined by a case distinction made when it is looked at;
    tv: truth value, if it is the same in all cases"""
    def __init__(self, name, value, tv=None):
        MD.SJson.__init__(self, name, ()); self.value, self.tv = value, tv
    def decide_truth(self, I): return self.tv
    def narrow(self, I, kinds, label=''):
        v = self.force(I)
        return (v is None) if 'null' in kinds else isstr(v) and 'str' in kinds or isbytes(v) and 'bytes' in kinds
    def force(self, I):
        if self.val is MISSING:
            self.val = I.models.force(I, self.value())
        return self.val

class GroupFold(FoldRule):
    def setup(self, state, used, vals, rv, key, prevStart):
        c = self.I.ctx
        self.nokey = key.none if isinstance(key, OptKey) else z3.BoolVal(key is None)
        self.state, self.used, self.rv, self.key, self.prevStart = state, used, rv, key, prevStart
        self.g0 = Ghost(prev=vals['lastReceiptJWS'], start=vals['startReceiptJWS'], counter=vals['lastTurnoverCounter'],
            need=vals['needRestoreReceipt'], chain=vals['chainNextTo'], used=utok(used).t)
        return self
    def roots(self): return [self.state, self.used]
    def entry(self): return self.g0
    def text(self, i): return group_text(self.I, self.seq.tok, self.seq.index(i))
    def arb(self, k):
        """after k >= 1 accepted receipts"""
        I, c, g = self.I, self.I.ctx, self.g0
        t = self.text(k - 1)
        c.assume(F('jwsok', 'S>B')(c.term(t)))
        ctr = c.fresh('counter')
        c.assume(z3.Implies(self.nokey, ctr == iz(g.counter)))
        return Ghost(prev=t, start=Later('start', lambda: self.text(0) if not truthy(I, g.prev) else g.start), counter=SInt(ctr),
            need=SBool(c.fresh('need', 'B')), chain=Later('chain', lambda: None if truthy(I, g.chain) else g.chain, False), used=c.fresh('used', 'A'))
    def shape(self, g, old):
        """the state after an accepted receipt is of the form of arb()"""
        R, g0, I = self.R, self.g0, self.I
        out = [(mkbool(z3.Implies(self.nokey, iz(g.counter) == iz(g0.counter))), 'counter changes without key')]
        if old is g0:
            out.append((alike(I, g.chain, None if truthy(I, g0.chain) else g0.chain), 'chaining value kept'))
            out.append((alike(I, g.start, self.text(0) if not truthy(I, g0.prev) else g0.start), 'start receipt'))
        else:
            out.append((alike(I, g.chain, old.chain), 'chaining value'))
            out.append((alike(I, g.start, old.start), 'start receipt'))
        return out
    def step(self, g, i): return step(self.I, g, self.text(i), self.rv, self.key, self.prevStart)
    def accepted(self, g): self.R.require(False, 'accepts: %s' % g.detail, g.why)
    def templates(self, g, i):
        I = self.I
        T = [('elem', lambda: self.seq.at(I, i)), ('jws', lambda: g.prev), ('rec', lambda: jws_rec(I, g.prev)), ('counter', lambda: g.counter),
            ('need', lambda: g.need), ('chain', lambda: g.chain), ('start', lambda: g.start), ('used', lambda: Opaque('usedtok', g.used)),
            ('index', lambda: mkint(iz(i))), ('next', lambda: mkint(iz(i) + 1)), ('None', lambda: None), ('True', lambda: True), ('False', lambda: False),
            ('R1', lambda: 'R1'), ('alg', lambda: I.modules['algorithms'].ns['ALGORITHMS'].raw('R1'))]
        T.append(('broken', lambda: SBool(bt(mkbool(I.models.equal(I, jws_fields(I, g.prev)[12], FAILMARK))))))
        def att(n): return lambda: jws_rec(I, g.prev).attrs.raw(n, POISON)
        T += [('rec.' + str(n), att(n)) for n in I.modules['receipt'].ns and self._attrs(g)]
        return T
    def _attrs(self, g):
        r = jws_rec(self.I, g.prev)
        return [n for n in r.attrs.keys() if isstr(n)]

def outcome(R, o, ghost, what='group'):
    """compares the outcome of verifying with the specified one"""
    if isinstance(ghost, Rejected):
        R.require(not o.ok, 'accepts a %s although: %s' % (what, ghost.detail), ghost.why, case={'why': ghost.detail})
        if not o.ok and ghost.why != 'C16': R.require(R.lib(o), 'rejects with %s instead of an exception of the library' % o.v.cls.name, 'C16')
        R.done('rejected'); return
    if not o.ok:
        n = o.v.cls.name
        p = 'C03' if 'Chain' in n else 'C04' if 'Turnover' in n and 'Initial' not in n else 'C05' if 'Duplicate' in n else 'C07' if 'Restore' in n or 'FailedOn' in n else 'C06'
        R.require(False, 'rejects a correct %s with %s' % (what, n), p + ' C08 C15 C20', case={'exception': n})
        return
    R.require(isinstance(o.v, tuple) and len(o.v) == 2 and isinstance(o.v[0], Obj) and isinstance(o.v[1], Obj), 'result is not a pair (state, used IDs)')
    st, us = o.v
    g = ghost
    def same(a, b, msg, props):
        cond = alike(R.I, a, b)
        R.require(cond, msg, props, case={'state': msg})
    get = lambda n: st.attrs.raw(n, POISON)
    same(get('lastReceiptJWS'), g.prev, 'last receipt in the resulting state', 'C03 C08 C09 C20')
    same(get('startReceiptJWS'), g.start, 'start receipt in the resulting state', 'C06 C08 C09')
    same(get('lastTurnoverCounter'), g.counter, 'turnover counter in the resulting state', 'C04 C08 C09 C20')
    need = get('needRestoreReceipt')
    if isbool(need) and isbool(g.need): R.require(mkbool(bt(need) == bt(g.need)), 'pending restore receipt in the resulting state', 'C07 C08 C09 C20', case={'state': 'need'})
    else: same(need, g.need, 'pending restore receipt in the resulting state', 'C07 C08 C09 C20')
    same(get('chainNextTo'), g.chain, 'configured chaining value in the resulting state', 'C03 C08 C09 C20')
    same(us.attrs.raw('_tok', POISON), Opaque('usedtok', g.used), 'used receipt IDs after verification', 'C05 C08 C09')
    R.done('accepted')
