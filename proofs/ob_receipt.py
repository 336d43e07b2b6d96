"""Receipt syntax: C11 (what is parsed), C12 (round trips)."""
from .common import *
from . import common as CM

@obl('utils.restoreb64padding', 'C01 C11 C12 C15', 'utils.restoreb64padding')
def _(R):
    x = R.text('data')
    o = R.call('utils.restoreb64padding', x)
    R.require(o.ok, 'restoreb64padding raises')
    c = R.ctx
    n = iz(c.length(x))
    r = o.v
    R.require(isstr(r), 'result is not a text')
    k = R.pick(4, 'padding')
    c.assume((n + k) % 4 == 0)
    R.require(R.eq(r, c.cat(x, '=' * k)), 'result is not the text completed to a multiple of four characters')
    R.done()

@obl('receipt.CertSerialType.getCertSerialType', 'C01 C11', 'receipt.CertSerialType.getCertSerialType', timeout_ms=8000)
def _(R):
    s = R.text('serial')
    o = R.call('receipt.CertSerialType.getCertSerialType', s)
    R.require(o.ok, 'getCertSerialType raises %s' % (o.v.cls.name if not o.ok else ''))
    k = serial_kind(R.I, s)
    R.require(o.v is R.name('receipt.CertSerialType.' + k), 'a %s serial is classified as %s' % (k, o.v.attrs.raw('name') if isinstance(o.v, Obj) else o.v))
    R.done(k)

def check_attrs(R, rec, f, what):
    for n, v in zip(FIELDS, f):
        a = R.get(rec, n)
        if os.environ.get('DBG') and not R.implied(R.eq(a, v)): print(a, v, R.eq(a, v))
        R.require(R.eq(a, v), '%s: field %s differs from the text' % (what, n))

@obl('receipt.Receipt.__init__', 'C11 C12', 'receipt.Receipt.__init__ receipt._getSum receipt._getTimestamp receipt._getEmptyOrB64 utils.getReceiptFloat',
    uses=['receipt.CertSerialType.getCertSerialType'], weight=3)
def _(R):
    """accepts exactly the admissible field values and stores them unchanged"""
    I = R.I
    f = [R.text(n, L.NOSURR) for n in FIELDS]
    o = R.call('receipt.Receipt', *f)
    ok = fields_ok(I, f)
    if o.ok:
        R.require(ok, 'accepts fields that are not those of a receipt')
        check_attrs(R, o.v, f, 'constructor')
        R.require(R.get(o.v, 'signed') is False, 'new receipt counts as signed')
        dt = R.get(o.v, 'dateTime')
        R.require(isinstance(dt, Opaque) and dt.kind == 'datetime' and R.eq(dt, Opaque('datetime', F('strptime!' + DATEFMT, 'S>A')(R.ctx.term(f[3])))), 'dateTime is not the time in the text')
        for n in SUMS:
            v = R.get(o.v, n[:-3])
            R.require(isinstance(v, SFloat) and v.src is not None and R.ctx.eq(v.src, f[FIELDS.index(n)]), n[:-3] + ' is not the amount in the text')
        R.done('accepted')
    else:
        R.require(R.cls(o, 'receipt.ReceiptException'), 'raises %s instead of a receipt exception' % o.v.cls.name)
        R.require(not ok, 'refuses admissible fields with %s' % o.v.cls.name)
        R.done('refused')

@obl('receipt.Receipt.__init__/types', 'C11 C16', 'receipt.Receipt.__init__')
def _(R):
    """a field that is not a text is refused"""
    f = [R.text(n, L.NOSURR) for n in FIELDS]
    i = R.pick(12, 'field')
    assume_fields(R.I, f)
    f[i] = [None, 1, [], True][R.pick(4)]
    o = R.call('receipt.Receipt', *f)
    R.require(not o.ok and R.cls(o, 'receipt.ReceiptException'), 'field %s of the wrong type is %s' % (FIELDS[i], 'accepted' if o.ok else 'answered with ' + o.v.cls.name))
    R.done()

@obl('receipt.Receipt.sign', 'C11 C12', 'receipt.Receipt.sign', uses=['utils.restoreb64padding', 'receipt.CertSerialType.getCertSerialType'])
def _(R):
    """stores header and signature if the signature is unpadded URL-safe Base64"""
    rec, f = mkrec(R, signed=False, closed=True)
    sig = R.text('signature', L.NOSURR); hdr = R.text('header', L.NOSURR)
    o = R.meth(rec, 'sign', hdr, sig)
    ok = dec_url(R.I, sig) is not None
    if o.ok:
        R.require(ok, 'accepts a signature that is not unpadded URL-safe Base64')
        R.require(R.eq(R.get(rec, 'signature'), sig), 'signature changed')
        R.require(R.eq(R.get(rec, 'header'), hdr), 'header changed')
        R.require(R.I.test(R.get(rec, 'signed')), 'not marked as signed')
        R.done('accepted')
    else:
        R.require(R.cls(o, 'receipt.ReceiptException'), 'raises %s' % o.v.cls.name)
        R.require(not ok, 'refuses an unpadded URL-safe Base64 signature')
        R.done('refused')
    check_attrs(R, rec, f, 'sign')

def check_parse(R, o, e, text):
    if o.ok:
        R.require(e is not None, 'accepts a text that is not a receipt')
        if e is None: return
        R.require(isinstance(o.v, tuple) and len(o.v) == 2, 'result is not (receipt, algorithm)')
        rec, alg = o.v
        f, hdr, sig = e
        check_attrs(R, rec, f, 'parsed')
        R.require(R.eq(R.get(rec, 'header'), hdr), 'header differs')
        R.require(R.eq(R.get(rec, 'signature'), sig), 'signature differs')
        R.require(R.eq(alg, 'R1'), 'algorithm differs')
        R.done('accepted')
    else:
        R.require(R.cls(o, 'receipt.ReceiptException'), 'raises %s instead of a receipt exception' % o.v.cls.name)
        R.require(e is None, 'refuses a well-formed receipt with %s' % o.v.cls.name)
        R.done('refused')

@obl('receipt.Receipt.fromJWSString', 'C11', 'receipt.Receipt.fromJWSString', uses=['utils.restoreb64padding', 'receipt.Receipt.__init__', 'receipt.CertSerialType.getCertSerialType'], weight=3)
def _(R):
    t = R.text('jws')
    o = R.call('receipt.Receipt.fromJWSString', t)
    check_parse(R, o, spec(R, 'parse_jws', t), t)

@obl('receipt.Receipt.fromBasicCode', 'C11', 'receipt.Receipt.fromBasicCode', uses=['utils.restoreb64padding', 'receipt.Receipt.__init__', 'receipt.CertSerialType.getCertSerialType'], weight=3)
def _(R):
    t = R.text('code')
    o = R.call('receipt.Receipt.fromBasicCode', t)
    check_parse(R, o, spec(R, 'parse_basic', t), t)

CU = ['utils.restoreb64padding', 'receipt.Receipt.__init__', 'receipt.CertSerialType.getCertSerialType']
@obl('receipt.Receipt.fromOCRCode', 'C11', 'receipt.Receipt.fromOCRCode', uses=CU, weight=3)
def _(R):
    t = R.text('ocr')
    o = R.call('receipt.Receipt.fromOCRCode', t)
    check_parse(R, o, spec(R, 'parse_ocr', t), t)

@obl('receipt.Receipt.fromCSV', 'C11', 'receipt.Receipt.fromCSV', uses=['receipt.Receipt.fromBasicCode'])
def _(R):
    """the machine-readable code with ';' for '_' and stripped elements"""
    t = R.text('csv')
    o = R.call('receipt.Receipt.fromCSV', t)
    e = spec(R, 'parse_csv', t)
    if o.ok:
        R.require(e is not None, 'accepts a text that is not a receipt')
        R.require(R.eq(o.v, e), 'result is not that of the machine-readable code')
        R.done('accepted')
    else:
        R.require(R.cls(o, 'receipt.ReceiptException'), 'raises %s instead of a receipt exception' % o.v.cls.name)
        R.require(e is None, 'refuses a well-formed receipt with %s' % o.v.cls.name)
        R.done('refused')

for _n in ('fromJWSString', 'fromBasicCode', 'fromOCRCode', 'fromCSV'):
    @obl('receipt.Receipt.%s/types' % _n, 'C11 C16', 'receipt.Receipt.%s' % _n)
    def _(R, n=_n):
        """anything but a text is refused"""
        o = R.call('receipt.Receipt.' + n, [None, 0, 1, True, [], PDict(), (), b'x'][R.pick(8)])
        R.require(not o.ok and R.cls(o, 'receipt.ReceiptException'), 'a value that is not a text is %s' % ('accepted' if o.ok else 'answered with ' + o.v.cls.name))
        R.done()

# ---------------------------------------------------------------- C12
def mkcanon(R, fields=None):
    """arbitrary receipt with canonical Base64 contents"""
    c = R.ctx
    f = [R.text('rec.' + n) for n in FIELDS]
    ctr, chain, sig = R.bytes('counter'), R.bytes('chain'), R.bytes('signature')
    f[9] = MD.decode(R.I, MD.B64E(c, ctr, 'std'))
    c.assume(iz(c.length(chain)) == 8)
    f[11] = MD.decode(R.I, MD.B64E(c, chain, 'std'))
    s = MD.decode(R.I, MD.B64UN(c, sig))
    if fields: fields(R, f)
    n = iz(c.length(ctr)); x = c.term(ctr)
    if not R.pick(2): c.assume(z3.And(n >= 5, n <= 16))
    else:
        i = R.pick(2)
        c.assume(x == c.lit(['TRA', 'STO'][i])); c.unify(ctr.parts[0], c.lit(['TRA', 'STO'][i]))
    assume_fields(R.I, f)
    o = R.call('receipt.Receipt', *f)
    if not o.ok: raise Undecided('constructor refuses an admissible receipt (see C11)')
    rec = o.v
    o = R.meth(rec, 'sign', JWSHEADER, s)
    if not o.ok: raise Undecided('sign refuses an admissible signature (see C11)')
    return rec, f, s
def rt(name, to, frm, more=None):
    @obl('receipt.Receipt.%s-%s' % (to, frm), 'C12', 'receipt.Receipt.%s receipt.Receipt.%s receipt.Receipt.toPayloadString' % (to, frm),
        uses=['utils.restoreb64padding', 'receipt.CertSerialType.getCertSerialType'], weight=2)
    def _(R):
        rec, f, s = mkcanon(R, more)
        o = R.meth(rec, to, 'R1')
        R.require(o.ok, '%s raises %s' % (to, o.v.cls.name if not o.ok else ''))
        if to == 'toJWSString': want = None
        check_attrs(R, rec, f, to)
        R.require(R.eq(R.get(rec, 'signature'), s), to + ' changed the signature')
        p = R.call('receipt.Receipt.' + frm, o.v)
        R.require(p.ok, 'the %s of a receipt is refused with %s' % (name, p.v.cls.name if not p.ok else ''))
        R.require(isinstance(p.v, tuple) and len(p.v) == 2, 'result is not (receipt, algorithm)')
        r2, alg = p.v
        check_attrs(R, r2, f, 'converted')
        R.require(R.eq(R.get(r2, 'signature'), s), 'signature changed in conversion')
        R.require(R.eq(R.get(r2, 'header'), JWSHEADER), 'header changed in conversion')
        R.require(R.eq(alg, 'R1'), 'algorithm changed in conversion')
        a, b = R.meth(rec, 'toJWSString', 'R1'), R.meth(r2, 'toJWSString', 'R1')
        R.require(a.ok and b.ok and R.eq(a.v, b.v), 'JWS text changed in conversion')
        R.done()
rt('JWS', 'toJWSString', 'fromJWSString')
rt('QR code', 'toBasicCode', 'fromBasicCode')
rt('OCR code', 'toOCRCode', 'fromOCRCode')
def csv_fields(R, f):
    for x in f:
        if isinstance(x, SStr): force_lang(R.I, x, L.inter(L.without(';'), MD.stripped_lang(L.pred_iv('isspace'), True, True)))
rt('CSV', 'toCSV', 'fromCSV', csv_fields)
