"""Starting verification at an arbitrary receipt (C20)."""
from .group import *
from . import base

FN = 'verification_state.ClusterState.fromArbitraryReceipt'
FS = 'verification_state.ClusterState.fromArbitraryStartReceipt'
def backends(R):
    return ['verification_state.UsedReceiptIdsUnique', 'verification_state.UsedReceiptIdsSortedNatural']
def used_empty(R, cs, q):
    """no ID is recorded: written out, the bookkeeping is that of a new one"""
    u = R.get(cs, 'usedReceiptIds')
    R.require(isinstance(u, Obj) and u.cls is R.name(q), 'bookkeeping of another kind than requested')
    a = R.meth(u, 'writeToJson'); b = R.meth(R.new(q), 'writeToJson')
    R.require(a.ok and b.ok and R.eq(a.v, b.v), 'receipt IDs are recorded in the new state')
def one_register(R, cs):
    regs = R.get(cs, 'cashRegisters')
    R.require(isinstance(cs, Obj) and cs.cls is R.name('verification_state.ClusterState'), 'result is not a cluster state')
    R.require(isinstance(regs, list) and len(regs) == 1, 'state does not have exactly one register')
    return regs[0]
def key_case(R):
    k = R.pick(2, 'key')
    return None if k == 0 else R.bytes('key', L.chars(((0, 256),), 32, 32))

@obl(FN, 'C20', FN + ' verification_state.ClusterState.__init__ receipt.Receipt.sign receipt.Receipt.toJWSString', uses=['utils.restoreb64padding', 'receipt.CertSerialType.getCertSerialType', 'rec:decryptTurnoverCounter'], weight=4, timeout_ms=6000)
def _(R):
    """the state demands exactly the receipt's chaining value and holds the
    counter before it; its stand-in for the receipt before is a well-formed
    signed text of the same register, system and time"""
    I, c = R.I, R.ctx
    rec, f = mkrec(R)
    key = key_case(R)
    q = backends(R)[R.pick(2, 'bookkeeping')]
    o = R.call(FN, rec, 'R1', key, R.name(q))
    R.require(o.ok, 'refuses a well-formed receipt with %s' % (o.v.cls.name if not o.ok else ''))
    reg = one_register(R, o.v)
    R.require(alike(I, R.get(reg, 'chainNextTo'), f[11]), 'chaining value demanded of the next receipt')
    R.require(R.get(reg, 'startReceiptJWS') is None, 'start receipt recorded')
    R.require(alike(I, R.get(reg, 'needRestoreReceipt'), False), 'restoring receipt demanded')
    m = marker(I, f[9])
    want = 0 if key is None or m is not None else mkint(decctr(I, key, f) - cents(I, f))
    got = R.get(reg, 'lastTurnoverCounter')
    R.require(isint(got) and R.eq(got, want), 'turnover counter before the receipt')
    used_empty(R, o.v, q)
    d = R.get(reg, 'lastReceiptJWS')
    p = R.call('receipt.Receipt.fromJWSString', d) if isstr(d) else Out('exc', None)
    R.require(p.ok, 'stand-in for the receipt before is not well-formed')
    pr = p.v[0]
    for n, j in (('zda', 0), ('registerId', 1), ('dateTimeStr', 3)):
        R.require(R.eq(R.get(pr, n), f[j]), 'stand-in for the receipt before differs in %s' % n)
    b = R.meth(pr, 'isSignedBroken')
    R.require(b.ok and alike(I, b.v, False), 'stand-in for the receipt before is marked as not signed')
    R.done()

@obl(FN + '/algorithm', 'C20 C16', FN, uses=['utils.restoreb64padding', 'receipt.CertSerialType.getCertSerialType', 'rec:decryptTurnoverCounter'])
def _(R):
    """any other algorithm is refused"""
    rec, f = mkrec(R)
    p = R.text('prefix', L.compl(L.literal('R1')))
    o = R.call(FN, rec, p, key_case(R))
    R.require(not o.ok, 'unknown algorithm is accepted', 'C20')
    R.require(o.ok or R.lib(o), 'unknown algorithm raises an internal error', 'C16')
    R.done()

@obl(FS, 'C20', FS + ' verification_state.ClusterState.__init__', uses=['utils.restoreb64padding', 'receipt.CertSerialType.getCertSerialType'])
def _(R):
    I = R.I
    rec, f = mkrec(R)
    q = backends(R)[R.pick(2, 'bookkeeping')]
    o = R.call(FS, rec, R.name(q))
    R.require(o.ok, 'refuses a well-formed receipt')
    reg = one_register(R, o.v)
    R.require(alike(I, R.get(reg, 'chainNextTo'), f[11]), 'chaining value demanded of the start receipt')
    for n, v in (('startReceiptJWS', None), ('lastReceiptJWS', None), ('needRestoreReceipt', False), ('lastTurnoverCounter', 0)):
        R.require(alike(I, R.get(reg, n), v), '%s of the new state' % n)
    used_empty(R, o.v, q)
    R.done()

# ---------------------------------------------------------------- simulation
def usedin(u, x): return F('usedin', 'AS>B')(u, x)
def useadd(u, x): return F('useadd', 'AS>A')(u, x)
def added(R, u, x, y):
    """meaning of the bookkeeping (proved in ob_state): the set plus one ID"""
    R.ctx.assume(usedin(useadd(u, x), y) == z3.Or(usedin(u, y), x == y))
def full_state(R, prev):
    c = R.ctx
    return Ghost(prev=prev, start=opt_text(R, 'full.start'), counter=R.int('full.counter'), need=R.bool('full.need'), chain=opt_text(R, 'full.chain'), used=c.fresh('full.used', 'A'))
def related(R, gf, ga, key, y):
    """verification from the beginning (gf) and from the receipt (ga)"""
    I = R.I
    out = [(alike(I, gf.prev, ga.prev), 'last receipt'), (mkbool(z3.Implies(bt(ga.need), bt(gf.need))), 'pending restore'),
        (alike(I, ga.chain, None), 'chaining value'), (mkbool(z3.Implies(usedin(ga.used, y), usedin(gf.used, y))), 'used IDs')]
    if key is not None: out.append((R.eq(gf.counter, ga.counter), 'turnover counter'))
    return out
def compare(R, gf, t, rv, key, psf, ga, psa, idterm):
    c = R.ctx
    f2 = step(R.I, gf, t, rv, key, psf)
    if isinstance(f2, Rejected): R.done('rejected from the beginning'); return
    a2 = step(R.I, ga, t, rv, key, psa)
    R.require(not isinstance(a2, Rejected), 'receipt accepted in the complete DEP is rejected: %s' % (a2.detail if isinstance(a2, Rejected) else ''))
    y = c.fresh('anyid', 'S')
    for u in (gf.used, ga.used): added(R, u, idterm, y)
    c.assume(z3.Implies(usedin(ga.used, y), usedin(gf.used, y)))
    for cond, msg in related(R, f2, a2, key, y): R.require(cond, 'relation between both verifications: ' + msg)
    R.done('accepted')

LEM = 'verify.verifyGroup ' + FN
@obl('lemma/start-at-receipt', 'C20', LEM, uses=GROUP_USES, weight=3, timeout_ms=6000, prepare=rec_template)
def _(R):
    """the receipt itself: if it is accepted in the complete DEP, it is
    accepted in the state made from it (contract of fromArbitraryReceipt)"""
    I, c = R.I, R.ctx
    t, d = R.text('receipt'), R.text('standin')
    f = jws_fields(I, t); fd = jws_fields(I, d)
    if f is None or fd is None: raise Infeasible()
    key = key_case(R)
    m = gmarker(I, f)
    if key is not None and m is not None: R.done('counter cannot be determined'); return
    # contract of fromArbitraryReceipt
    for j in (0, 1, 3): c.assume(bt(mkbool(I.models.equal(I, fd[j], f[j]))))
    c.assume(z3.Not(bt(mkbool(I.models.equal(I, fd[12], FAILMARK)))))
    empty = c.fresh('noids', 'A')
    c.assume(z3.Not(usedin(empty, c.term(f[2]))))
    ctr = SInt(decctr(I, key, f) - cents(I, f)) if key is not None else 0
    ga = Ghost(prev=d, start=None, counter=ctr, need=False, chain=f[11], used=empty)
    y = c.fresh('y', 'S'); c.assume(z3.Not(usedin(empty, y)))
    rv = mkrv(R)
    gf = full_state(R, opt_text(R, 'full.prev'))
    f2 = step(I, gf, t, rv, key, opt_text(R, 'full.prevStart'))
    if isinstance(f2, Rejected): R.done('rejected from the beginning'); return
    a2 = step(I, ga, t, rv, key, None)
    R.require(not isinstance(a2, Rejected), 'receipt accepted in the complete DEP is rejected: %s' % (a2.detail if isinstance(a2, Rejected) else ''))
    for u in (gf.used, empty): added(R, u, c.term(f[2]), y)
    for cond, msg in related(R, f2, a2, key, y): R.require(cond, 'relation between both verifications: ' + msg)
    R.done('accepted')

@obl('lemma/start-at-start-receipt', 'C20', 'verify.verifyGroup ' + FS, uses=GROUP_USES, weight=3, timeout_ms=6000, prepare=rec_template)
def _(R):
    """start receipt of a further register of a cluster"""
    I, c = R.I, R.ctx
    t = R.text('receipt')
    f = jws_fields(I, t)
    if f is None: raise Infeasible()
    key = key_case(R)
    empty = c.fresh('noids', 'A')
    y = c.fresh('y', 'S'); c.assume(z3.And(z3.Not(usedin(empty, y)), z3.Not(usedin(empty, c.term(f[2])))))
    ga = Ghost(prev=None, start=None, counter=0, need=False, chain=f[11], used=empty)
    gf = Ghost(prev=None, start=None, counter=0, need=False, chain=opt_text(R, 'full.chain'), used=c.fresh('full.used', 'A'))
    rv = mkrv(R)
    f2 = step(I, gf, t, rv, key, opt_text(R, 'full.prevStart'))
    if isinstance(f2, Rejected): R.done('rejected from the beginning'); return
    a2 = step(I, ga, t, rv, key, None)
    R.require(not isinstance(a2, Rejected), 'start receipt accepted in the cluster is rejected: %s' % (a2.detail if isinstance(a2, Rejected) else ''))
    for u in (gf.used, empty): added(R, u, c.term(f[2]), y)
    for cond, msg in related(R, f2, a2, key, y): R.require(cond, 'relation between both verifications: ' + msg)
    R.done('accepted')

@obl('lemma/continue-from-receipt', 'C20', LEM, uses=GROUP_USES, weight=3, timeout_ms=6000, prepare=rec_template)
def _(R):
    """every further receipt: acceptance and the relation carry over"""
    I, c = R.I, R.ctx
    t, p = R.text('receipt'), R.text('previous')
    f = jws_fields(I, t)
    if f is None or jws_fields(I, p) is None: raise Infeasible()
    key = key_case(R)
    gf = full_state(R, p)
    gf = gf.but(chain=None)
    ga = Ghost(prev=p, start=opt_text(R, 'start'), counter=gf.counter if key is not None else R.int('counter'), need=R.bool('need'), chain=None, used=c.fresh('used', 'A'))
    c.assume(z3.Implies(bt(ga.need), bt(gf.need)))
    c.assume(z3.Implies(usedin(ga.used, c.term(f[2])), usedin(gf.used, c.term(f[2]))))
    compare(R, gf, t, mkrv(R), key, opt_text(R, 'full.prevStart'), ga, opt_text(R, 'prevStart'), c.term(f[2]))
