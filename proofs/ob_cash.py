"""Receipts of the cash register model: C15."""
from .group import *
from . import base
from .ob_crypto import ctr_iv, jws_seg, payload

UNIT = 2.0 ** -53
MAXC = 10 ** 13
def amount(R, name):
    """a whole number of cents, in euros, as nearest floating point number"""
    t = R.ctx.fresh(name)
    R.ctx.assume(z3.And(t >= -MAXC, t <= MAXC))
    return SFloat(real=z3.ToReal(t) / 100, err=MAXC / 100 * 2 * UNIT, mag=float(MAXC / 100), src=('cents', t))
def header(R): return JWSHEADER

class Case(object):
    """an arbitrary register, signature system and receipt data"""
    def __init__(self, R, last):
        I, c = R.I, R.ctx
        self.R = R
        zda, regid, recid, serial = [R.text(n) for n in ('zda', 'registerId', 'receiptId', 'serial')]
        force_lang(I, regid, lang('IDU')); force_lang(I, recid, lang('IDU')); force_lang(I, zda, lang('ZDA'))
        self.closed = in_lang(I, zda, L.literal('AT0'), 'closed system')
        force_lang(I, serial, L.inter(lang('CLOSED' if self.closed else 'OPEN'), L.inter(L.NOSURR, L.without('_'))))
        self.zda, self.regid, self.recid, self.serial = zda, regid, recid, serial
        self.key = R.bytes('key', L.chars(((0, 256),), 32, 32))
        self.size = 5 + R.pick(12, 'counter size')
        self.counter = R.int('counter')
        self.last = last(self)
        self.date = R.opaque('datetime')
        self.sums = [amount(R, 'sum' + x) for x in 'ABCDE']
        self.total = sum(s.src[1] for s in self.sums)
        self.kind = ('normal', 'training', 'reversal')[R.pick(3, 'type of receipt')]
        lim = 1 << 8 * self.size - 1
        self.after = self.counter.t if self.kind == 'training' else self.counter.t + self.total
        for x in (self.counter.t, self.after): c.assume(z3.And(x >= -lim, x < lim))
        self.works = R.pick(2, 'signature system works') == 1
        self.priv = R.opaque('privkey')
        self.sig = R.new('sigsys.SignatureSystemWorking', zda, serial, self.priv) if self.works else R.new('sigsys.SignatureSystemBroken', zda, serial)
        self.reg = R.new('cashreg.CashRegister', regid, self.last, self.counter, self.key, self.size)
    def receipt(self):
        k = {}
        if self.kind == 'training': k['dummy'] = True
        if self.kind == 'reversal': k['reversal'] = True
        return self.R.meth(self.reg, 'receipt', 'R1', self.recid, self.date, *self.sums, self.sig, **k)
    def enc(self, rec):
        """specified (encrypted) counter, as bytes"""
        R, I, c = self.R, self.R.I, self.R.ctx
        if self.kind == 'training': return b'TRA'
        if self.kind == 'reversal': return b'STO'
        raw = I.call(Builtin('to_bytes', libs.int_to_bytes), [mkint(self.after), self.size], {'byteorder': 'big', 'signed': True}) if hasattr(libs, 'int_to_bytes') else \
            I.call(I.getattr(mkint(self.after), 'to_bytes'), [self.size], {'byteorder': 'big', 'signed': True})
        return libs.ctr(I, self.key, ctr_iv(R, rec), raw)

def check_receipt(C, o):
    R, I, c = C.R, C.R.I, C.R.ctx
    R.require(o.ok, 'no receipt is made: %s' % (o.v.cls.name if not o.ok else ''))
    rec = o.v
    R.require(isinstance(rec, Obj) and R.isinst(rec, 'receipt.Receipt'), 'result is no receipt')
    f = [R.get(rec, n) for n in FIELDS]
    R.require(all(isstr(x) for x in f), 'fields are no texts')
    eq = lambda a, b, m: R.require(R.eq(a, b), m, case={'field': m})
    eq(f[0], C.zda, 'ZDA ID'); eq(f[1], C.regid, 'register ID'); eq(f[2], C.recid, 'receipt ID'); eq(f[10], C.serial, 'certificate serial')
    eq(f[3], I.call(I.getattr(C.date, 'strftime'), [DATEFMT], {}), 'date')
    for s, x, n in zip(C.sums, f[4:9], 'ABCDE'):
        R.require(in_lang(I, x, lang('AMOUNT')), 'amount %s is malformed' % n)
        R.require(mkbool(MD.cents_term(I, x) == s.src[1]), 'amount %s differs' % n)
    enc = dec_std(I, f[9])
    R.require(enc is not None, 'counter is not Base64')
    eq(enc, C.enc(rec), 'encrypted turnover counter or marker')
    eq(f[11], chain_value(I, C.last if C.last is not None else C.regid), 'chaining value')
    sig = R.get(rec, 'signature')
    R.require(isstr(sig), 'no signature')
    if not C.works: eq(sig, FAILMARK, 'marker of the failed signature system')
    msg = functools.reduce(c.cat, [jws_seg(R, JWSHEADER), '.', jws_seg(R, payload(R, f))])
    whole = functools.reduce(c.cat, [msg, '.', sig])
    if C.works:
        R.require(in_lang(I, sig, lang('SIGURL')), 'signature is not Base64')
        R.require(mkbool(F('es256ok', 'SA>B')(c.term(whole), F('pubof', 'A>A')(C.priv.t))), 'signature does not verify under the signing key')
    t = R.meth(rec, 'toJWSString', 'R1')
    R.require(t.ok, 'receipt cannot be converted: %s' % (t.v.cls.name if not t.ok else ''))
    eq(t.v, whole, 'text of the receipt')
    # the register
    eq(R.get(C.reg, 'lastReceiptSig'), whole, 'receipt remembered by the register')
    eq(R.get(C.reg, 'turnoverCounter'), mkint(C.after), 'turnover counter of the register')
    eq(R.get(C.reg, 'registerId'), C.regid, 'register ID of the register'); eq(R.get(C.reg, 'key'), C.key, 'key of the register')
    eq(R.get(C.reg, 'turnoverCounterSize'), C.size, 'counter size of the register')
    return rec, f, sig, whole

CASH = 'cashreg.CashRegister.receipt cashreg.CashRegister.__init__ cashreg.MangledReceipt.__init__ cashreg.MangledReceipt.toJWSString sigsys.SignatureSystemWorking.sign sigsys.SignatureSystemBroken.sign algorithms.R1.sign algorithms.R1.chain algorithms.R1.encryptTurnoverCounter receipt.Receipt.toPayloadString receipt.Receipt.sign'
CREC = ['utils.restoreb64padding', 'receipt.CertSerialType.getCertSerialType']
@obl('cashreg.CashRegister.receipt', 'C15', CASH, uses=CREC, weight=5, assumes=['amounts up to 10**11 euros given as the nearest floating point number'])
def _(R):
    """any register state, any receipt data: fields, chaining, counter, signature and new state"""
    def last(C):
        k = R.pick(2, 'first receipt')
        if k: return None
        t = R.text('last'); force_lang(R.I, t, L.inter(L.NOSURR, L.anylen(1)))
        return t
    C = Case(R, last)
    check_receipt(C, C.receipt())
    R.done('%s/%s' % (C.kind, 'signed' if C.works else 'failed'))

@obl('cashreg: accepted by the verification', 'C15', CASH + ' verify.verifyGroup', uses=CREC + ['cashreg.CashRegister.receipt', 'verify.verifyGroup', 'receipt.Receipt.toJWSString-fromJWSString', 'algorithms.R1.encrypt-decrypt', 'verify_receipt.ReceiptVerifier.verify', 'algorithms.R1.verify'],
    weight=4, prepare=rec_template, assumes=['receipts are made in the order of their dates, with new IDs; a signed null receipt comes first and after each outage'])
def _(R):
    """A register and a verification state that agree (same last receipt,
    counter, key; no pending restoration) still agree after the register made
    a receipt as prescribed and the step of verifyGroup accepted it.  By
    induction every DEP made this way is accepted and ends with the register's
    counter.  That parsing the text gives the fields back, decryption inverts
    encryption and a valid signature is found valid are the obligations used."""
    I, c = R.I, R.ctx
    box = {}
    def last(C):
        if R.pick(2, 'first receipt'): return None
        t = R.text('last'); x = c.term(t)
        c.assume(F('jwsok', 'S>B')(x))
        force_lang(I, t, L.inter(L.NOSURR, L.anylen(1)))
        f = jws_fields(I, t)
        if in_lang(I, f[0], L.literal('AT0')) != C.closed: raise Infeasible()
        c.assume(c.term(f[1]) == c.term(C.regid))
        box['last'] = f
        return t
    C = Case(R, last)
    rv = mkrv(R)
    used = c.fresh('used', 'A')
    c.assume(z3.Not(F('usedin', 'AS>B')(used, c.term(C.recid))))
    f0 = box.get('last')
    outage = f0 is not None and I.test(R.eq(f0[12], FAILMARK))
    if f0 is None or (outage and C.works):
        if not C.works or C.kind != 'normal': raise Infeasible()
        for s in C.sums: c.assume(s.src[1] == 0)
    if f0 is None: c.assume(C.counter.t == 0)
    o = C.receipt()
    if not o.ok: raise Undecided('see cashreg.CashRegister.receipt')
    rec = o.v
    t = R.get(C.reg, 'lastReceiptSig')
    x = c.term(t)
    f = [R.get(rec, n) for n in FIELDS] + [R.get(rec, 'signature')]
    # parsing gives the fields back (obligation toJWSString-fromJWSString)
    c.assume(F('jwsok', 'S>B')(x))
    c.keep.append(x); c.memo.setdefault('jws', {})[x.get_id()] = g = f
    # decryption (obligation encrypt-decrypt)
    if C.kind == 'normal': c.assume(F('decctr', 'SSSS>I')(c.term(C.key), c.term(g[1]), c.term(g[2]), c.term(g[9])) == C.after)
    # single receipt verification under the signing key (obligation ReceiptVerifier.verify)
    c.assume(z3.Not(F('rvmismatch', 'AS>B')(rv.ghost, x)))
    c.assume(z3.Implies(F('es256ok', 'SA>B')(x, F('pubof', 'A>A')(C.priv.t)), F('rvvalid', 'AS>B')(rv.ghost, x)))
    if f0 is not None: c.assume(ts(I, f0) <= ts(I, g))
    st = Ghost(prev=C.last, start=C.last, counter=C.counter, need=False, chain=None, used=used)
    r = step(I, st, t, rv, C.key, None)
    R.require(not isinstance(r, Rejected), 'the receipt is rejected: %s' % (r.detail if isinstance(r, Rejected) else ''))
    R.require(R.eq(r.counter, R.get(C.reg, 'turnoverCounter')), 'counter of the verification differs from that of the register')
    R.require(r.need is False or mkbool(z3.Not(bt(r.need))), 'a restoration receipt is demanded')
    R.require(r.chain is None, 'chaining')
    R.require(R.eq(r.prev, t), 'last receipt')
    R.done(('first' if f0 is None else 'restored' if outage and C.works else 'outage' if not C.works else 'next') + '/' + C.kind)
