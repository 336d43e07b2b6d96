"""Prediction of package start states: C08."""
from .group import *
from .ob_group import group_case
from . import base

PUSES = ['utils.restoreb64padding', 'receipt.CertSerialType.getCertSerialType', 'jws:fromJWSString', 'rec:decryptTurnoverCounter'] + REC_SIMPLE
PF = 'verification_state.CashRegisterState.fromDEPGroup verification_state.CashRegisterState.updateFromDEPGroup'
def predicted(R, n, key):
    """verifies n receipts by the specification, then has the state predicted"""
    I, c = R.I, R.ctx
    seq = mkgroup(R, n=n)
    rv, used, state, vals, key, prevStart = group_case(R, seq)
    h = GroupFold(R, seq, {}, None).setup(state, used, vals, rv, key, prevStart)
    g = h.g0
    for i in range(n):
        g = h.step(g, i)
        if isinstance(g, Rejected): raise Infeasible()
    o = R.call('verification_state.CashRegisterState.fromDEPGroup', state, [seq.at(I, i) for i in range(n)], key)
    R.require(o.ok, 'predicting the state after accepted receipts raises %s' % (o.v.cls.name if not o.ok else ''))
    predict_outcome(R, o.v, state, vals, g)
def predict_outcome(R, st, state, vals, g):
    I = R.I
    R.require(isinstance(st, Obj) and st.cls is state.cls and st is not state, 'prediction is no new register state')
    def same(n, want, src=st, what='predicted'):
        v = src.attrs.raw(n, POISON)
        if isbool(v) and isbool(want): R.require(mkbool(bt(v) == bt(want)), '%s %s' % (what, n), case={'state': n})
        else: R.require(alike(I, v, want), '%s %s' % (what, n), case={'state': n})
    for n, w in (('lastReceiptJWS', g.prev), ('startReceiptJWS', g.start), ('lastTurnoverCounter', g.counter), ('needRestoreReceipt', g.need)): same(n, w)
    ch = st.attrs.raw('chainNextTo', POISON)
    # None and an empty text mean the same here
    R.require(mkbool(bt(I.truth(ch)) == bt(I.truth(g.chain))), 'predicted chainNextTo', case={'state': 'chainNextTo'})
    if truthy(I, g.chain): same('chainNextTo', g.chain)
    for n, v in vals.items(): same(n, v, state, 'the state predicted from changes its')
    R.done()
@obl('verification_state.CashRegisterState.fromDEPGroup/bounded', 'C08', PF, uses=PUSES, bounded='groups of at most 2 receipts', unroll={'unroll_seq': 2}, prepare=rec_template, weight=4, timeout_ms=6000)
def _(R):
    """the state predicted after accepted receipts is the state verifying them reaches"""
    predicted(R, R.pick(3, 'receipts'), None)
