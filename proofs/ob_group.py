"""Verification of receipt groups: C03-C07."""
from .group import *
from . import base

def group_case(R, seq):
    rv = mkrv(R); used = mkused(R)
    state, vals = mkregstate(R)
    key = OptKey(R)
    prevStart = opt_text(R, 'prevStart')
    return rv, used, state, vals, key, prevStart

def simple(name, value):
    @obl('receipt.Receipt.' + name, 'C03 C04 C06 C07 C08', 'receipt.Receipt.' + name, prepare=rec_template)
    def _(R):
        t = R.text('receipt')
        f = jws_fields(R.I, t)
        if f is None: raise Infeasible()
        rec = jws_rec(R.I, t)
        o = R.meth(rec, name)
        R.require(o.ok, '%s raises %s' % (name, o.v.cls.name if not o.ok else ''))
        R.require(R.eq(o.v, value(R.I, f)), 'result of %s' % name, case={'function': name})
        R.done()
for _n, _v in (('isNull', spec_null), ('isDummy', spec_marker('TRA')), ('isReversal', spec_marker('STO')), ('turnoverCents', spec_cents), ('isSignedBroken', spec_broken)):
    simple(_n, _v)

GP = 'C03 C04 C05 C06 C07 C08 C15 C20'
@obl('verify.verifyGroup', GP, 'verify.verifyGroup verify.verifyChain verify.verifyChainValue receipt.Receipt.turnoverCents receipt.Receipt.isNull receipt.Receipt.isDummy receipt.Receipt.isReversal receipt.Receipt.isSignedBroken algorithms.R1.chain depparser.expandDEPReceipt',
    uses=GROUP_USES, weight=10, timeout_ms=6000, fold=True, prepare=rec_template, fallback='verify.verifyGroup/bounded')
def _(R):
    """accepts exactly if every receipt satisfies its step condition; the
    result is the fold of the steps (any number of receipts)"""
    I, c = R.I, R.ctx
    seq = mkgroup(R)
    rv, used, state, vals, key, prevStart = group_case(R, seq)
    h = GroupFold(R, seq, base.INV.get('verify.verifyGroup', {}), c.data.get('mode'))
    h.setup(state, used, vals, rv, key, prevStart)
    c.data['fold'] = h
    o = R.call('verify.verifyGroup', seq, rv, key, prevStart, state, used)
    g = c.data.get('ghost')
    if g is None:
        # before the loop
        if truthy(I, vals['lastReceiptJWS']) and jws_fields(I, vals['lastReceiptJWS']) is None:
            R.require(not o.ok and R.lib(o), 'state with a malformed last receipt is %s' % ('accepted' if o.ok else 'answered with ' + o.v.cls.name), 'C16')
            R.done('malformed state'); return
        raise Undecided('receipts are not processed by a loop over the group')
    outcome(R, o, g)

@obl('verify.verifyGroup/bounded', GP, 'verify.verifyGroup', uses=GROUP_USES, weight=9, timeout_ms=6000,
    bounded='groups of at most 2 receipts', unroll={'unroll_seq': 2}, prepare=rec_template)
def _(R):
    I, c = R.I, R.ctx
    n = R.pick(3, 'receipts')
    seq = mkgroup(R, n=n)
    rv, used, state, vals, key, prevStart = group_case(R, seq)
    h = GroupFold(R, seq, {}, None).setup(state, used, vals, rv, key, prevStart)
    o = R.call('verify.verifyGroup', seq, rv, key, prevStart, state, used)
    if truthy(I, vals['lastReceiptJWS']) and jws_fields(I, vals['lastReceiptJWS']) is None:
        R.require(not o.ok and R.lib(o), 'state with a malformed last receipt is %s' % ('accepted' if o.ok else 'answered with ' + o.v.cls.name), 'C16')
        R.done('malformed state'); return
    g = h.g0
    for i in range(n):
        g = h.step(g, i)
        if isinstance(g, Rejected): break
    outcome(R, o, g)
