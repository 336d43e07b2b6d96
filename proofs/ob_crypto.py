"""Keys, signatures, turnover counters and URL hashes: C01, C13, C18."""
from .common import *
from . import common as CM
from pyvc.models import SymMap

# ---------------------------------------------------------------- C13
CTR_F = ['algorithms.R1.encryptTurnoverCounter', 'algorithms.R1.decryptTurnoverCounter', 'utils.aes256ctr', 'utils.sha256']
def text_bytes(I, *ts):
    """UTF-8 encoding of the concatenation"""
    c = I.ctx
    return functools.reduce(c.cat, [MD.encode(I, t) for t in ts])
def ctr_iv(R, rec):
    """the first 16 bytes of the SHA-256 hash of register ID and receipt ID"""
    I, c = R.I, R.ctx
    h = libs.sha256(I, text_bytes(I, R.get(rec, 'registerId'), R.get(rec, 'receiptId')))
    return I.getitem(h, slice(0, 16))

@obl('algorithms.R1.encrypt-decrypt', 'C13', ' '.join(CTR_F), uses=['utils.restoreb64padding', 'receipt.CertSerialType.getCertSerialType'], weight=2)
def _(R):
    """decryption inverts encryption, which has the requested size and uses
    no other key stream than AES-256-CTR under key and IV of the receipt"""
    I, c = R.I, R.ctx
    rec, f = mkrec(R, signed=False)
    alg = R.new('algorithms.R1')
    key = R.bytes('key', L.chars(((0, 256),), 32, 32))
    size = 5 + R.pick(12, 'size')
    v = R.int('value', -(1 << 8 * size - 1), (1 << 8 * size - 1) - 1)
    o = R.meth(alg, 'encryptTurnoverCounter', rec, v, key, size)
    R.require(o.ok, 'encryption of a counter in range raises %s' % (o.v.cls.name if not o.ok else ''))
    R.require(isbytes(o.v), 'encrypted counter is not of type bytes')
    R.require(R.eq(R.length(o.v), size), 'encrypted counter has another size than requested')
    pt = I.call(I.getattr(v, 'to_bytes'), [size], {'byteorder': 'big', 'signed': True})
    R.require(R.eq(o.v, libs.ctr(I, key, ctr_iv(R, rec), pt)), 'encrypted counter is not the two\'s complement number under the key stream of the receipt')
    d = R.meth(alg, 'decryptTurnoverCounter', rec, o.v, key)
    R.require(d.ok, 'decryption raises')
    R.require(isint(d.v) and R.eq(d.v, v), 'decryption does not give back the value')
    R.done()

@obl('algorithms.R1.decryptTurnoverCounter', 'C13', 'algorithms.R1.decryptTurnoverCounter', uses=['utils.restoreb64padding', 'receipt.CertSerialType.getCertSerialType'])
def _(R):
    """any ciphertext: the signed big-endian number under the key stream"""
    I, c = R.I, R.ctx
    rec, f = mkrec(R, signed=False)
    key = R.bytes('key', L.chars(((0, 256),), 32, 32))
    x = R.bytes('data'); c.assume(iz(c.length(x)) > 0)
    o = R.meth(R.new('algorithms.R1'), 'decryptTurnoverCounter', rec, x, key)
    R.require(o.ok, 'decryption raises')
    want = I.call(libs.FUNCS['builtins.int.from_bytes'] and Builtin('from_bytes', libs.FUNCS['builtins.int.from_bytes']), [libs.ctr(I, key, ctr_iv(R, rec), x)], {'byteorder': 'big', 'signed': True})
    R.require(isint(o.v) and R.eq(o.v, want), 'decrypted value depends on something else')
    R.done()

@obl('algorithms.R1.verifyKey', 'C04 C13', 'algorithms.R1.verifyKey')
def _(R):
    k = R.pick(4)
    key = [R.bytes('key'), R.text('key'), None, 7][k]
    o = R.meth(R.new('algorithms.R1'), 'verifyKey', key)
    R.require(o.ok, 'verifyKey raises')
    want = mkbool(iz(R.length(key)) == 32) if k == 0 else False
    t = R.I.truth(o.v)
    R.require(mkbool(bt(t) == bt(want)), 'verifyKey accepts exactly byte strings of length 32: violated')
    R.done()

@obl('utils.raiseForKey', 'C04 C13', 'utils.raiseForKey algorithms.R1.verifyKey')
def _(R):
    k = R.pick(4)
    key = [R.bytes('key'), R.text('key'), None, 7][k]
    o = R.call('utils.raiseForKey', key, R.new('algorithms.R1'))
    good = R.I.test(mkbool(iz(R.length(key)) == 32)) if k == 0 else False
    R.require(o.ok == good, 'an unsuitable key is accepted' if o.ok else 'a suitable key is refused')
    if not o.ok: R.require(R.cls(o, 'utils.InvalidKeyException'), 'raises %s' % o.v.cls.name)
    R.done('ok' if o.ok else 'refused')

REC = ['utils.restoreb64padding', 'receipt.CertSerialType.getCertSerialType']
@obl('receipt.Receipt.decryptTurnoverCounter', 'C04 C13', 'receipt.Receipt.decryptTurnoverCounter receipt.Receipt.isDummy receipt.Receipt.isReversal', uses=REC)
def _(R):
    """refuses training and reversal receipts and unsuitable keys"""
    I, c = R.I, R.ctx
    rec, f = mkrec(R, signed=False)
    m = marker(I, f[9])
    kk = R.pick(3)
    key = [R.bytes('key'), None, R.text('key')][kk]
    o = R.meth(rec, 'decryptTurnoverCounter', key, R.new('algorithms.R1'))
    du, rv = R.meth(rec, 'isDummy'), R.meth(rec, 'isReversal')
    R.require(du.ok and rv.ok, 'isDummy or isReversal raises')
    R.require(mkbool(bt(R.I.truth(du.v)) == z3.BoolVal(m == b'TRA')), 'isDummy does not tell training receipts')
    R.require(mkbool(bt(R.I.truth(rv.v)) == z3.BoolVal(m == b'STO')), 'isReversal does not tell reversal receipts')
    good = I.test(mkbool(iz(R.length(key)) == 32)) if kk == 0 else False
    if m is not None: R.require(not o.ok, 'a training or reversal receipt is decrypted'); R.done('marker'); return
    if not good:
        R.require(not o.ok and R.cls(o, 'utils.InvalidKeyException'), 'a key that has not 32 bytes is used'); R.done('bad key'); return
    R.require(o.ok, 'raises %s' % (o.v.cls.name if not o.ok else ''))
    x = b64atom_or(c, f[9], 'std')
    want = Builtin('from_bytes', libs.FUNCS['builtins.int.from_bytes'])
    want = I.call(want, [libs.ctr(I, key, ctr_iv(R, rec), x)], {'byteorder': 'big', 'signed': True})
    R.require(R.eq(o.v, want), 'value differs from the decrypted counter')
    R.done('ok')

# ---------------------------------------------------------------- C18
def url_hash(R, text):
    I = R.I
    h = I.getitem(libs.sha256(I, MD.encode(I, text)), slice(0, 8))
    return MD.decode(I, MD.B64UN(R.ctx, h))
@obl('verify_receipt.verifyURLHash', 'C18', 'verify_receipt.verifyURLHash algorithms.R1.hash', uses=REC)
def _(R):
    I, c = R.I, R.ctx
    rec, f = mkrec(R)
    h = R.text('hash') if R.pick(2) else None
    o = R.call('verify_receipt.verifyURLHash', rec, R.new('algorithms.R1'), h)
    code = R.meth(rec, 'toBasicCode', 'R1')
    R.require(code.ok, 'toBasicCode raises')
    want = url_hash(R, code.v)
    same = I.test(I.compare('Eq', want, h))
    R.require(o.ok == same, 'accepts another value than the hash' if o.ok else 'refuses the hash')
    if not o.ok: R.require(R.cls(o, 'verify_receipt.InvalidURLHashException'), 'raises %s' % o.v.cls.name)
    R.done('ok' if o.ok else 'refused')

@obl('url_receipt_helpers.getURLHashFromURL', 'C18', 'url_receipt_helpers.getURLHashFromURL')
def _(R):
    I, c = R.I, R.ctx
    url = R.text('url')
    o = R.call('url_receipt_helpers.getURLHashFromURL', url)
    R.require(o.ok, 'raises %s' % (o.v.cls.name if not o.ok else ''))
    want = spec(R, 'url_hash_of', url)
    R.require(mkbool(bt(I.compare('Eq', o.v, want))) if (o.v is not None and want is not None) else o.v is want, 'gives another hash than the URL contains')
    R.done('none' if want is None else 'some')

# ---------------------------------------------------------------- C01
def keystore(R, name='ks', certs=False):
    """arbitrary key store: presence, key and certificate are functions of the key ID"""
    I = R.I
    ks = R.new('key_store.KeyStore')
    KT = R.name('key_store.KeyTuple')
    def has(I, k):
        if not isstr(k): return False
        return F(name + '.has', 'S>B')(I.ctx.term(k))
    def get(I, k):
        t = I.ctx.term(k)
        o = Obj(KT)
        key = Opaque('pubkey', F(name + '.key', 'S>A')(t))
        o.attrs.setraw('keyId', k); o.attrs.setraw('key', key)
        cert = None
        if certs and I.ctx.branch(F(name + '.iscert', 'S>B')(t), 'stored with certificate'):
            cert = Opaque('cert', F(name + '.cert', 'S>A')(t))
        o.attrs.setraw('cert', cert)
        return o
    d = R.get(ks, 'keydict')
    if not isinstance(d, PDict): raise Unsupported('key store without dictionary')
    d.base = SymMap(has, get)
    return ks
def ks_key(R, k, name='ks'):
    """key stored under k, or None"""
    t = R.ctx.term(k)
    if not R.ctx.branch(F(name + '.has', 'S>B')(t), 'spec: key stored'): return None
    return Opaque('pubkey', F(name + '.key', 'S>A')(t))
def int_of(R, s, base):
    try: return MD.int_parse(R.I, s, base) if R.ctx.conc(s) is None else int(R.ctx.conc(s), base)
    except PyRaise: return None
    except ValueError: return None

@obl('key_store.numSerialToKeyId', 'C01 C14', 'key_store.numSerialToKeyId')
def _(R):
    n = R.int('serial')
    o = R.call('key_store.numSerialToKeyId', n)
    R.require(o.ok, 'raises')
    R.require(R.eq(o.v, R.I.models.hexstr(R.I, SInt(z3.If(n.t >= 0, n.t, -n.t)))), 'not the lower-case hexadecimal number')
    R.done()

@obl('key_store.strSerialToKeyIds', 'C01 C14', 'key_store.strSerialToKeyIds')
def _(R):
    """the readings of the text as hexadecimal and decimal number, in that order"""
    I, c = R.I, R.ctx
    s = R.text('serial')
    o = R.call('key_store.strSerialToKeyIds', s)
    R.require(o.ok, 'raises %s' % (o.v.cls.name if not o.ok else ''))
    want = spec(R, 'serial_ids', s)
    got = list(I.iterate(o.v))
    R.require(len(got) == len(want) and all(True for _ in got), 'number of readings differs')
    for a, b in zip(got, want): R.require(R.eq(a, b), 'reading differs')
    R.done('%d' % len(want))

@obl('algorithms.R1.verify', 'C01', 'algorithms.R1.verify')
def _(R):
    """true exactly if the text carries a valid ES256 signature of the key"""
    I, c = R.I, R.ctx
    rec, f = mkrec(R)
    jws = R.meth(rec, 'toJWSString', 'R1')
    R.require(jws.ok, 'toJWSString raises')
    key = R.opaque('pubkey')
    o = R.meth(R.new('algorithms.R1'), 'verify', jws.v, key)
    R.require(o.ok, 'raises %s' % (o.v.cls.name if not o.ok else ''))
    want = z3.And(F('keykind', 'A>I')(key.t) == 0, F('es256ok', 'SA>B')(c.term(jws.v), key.t))
    R.require(mkbool(bt(I.truth(o.v)) == want), 'does not tell valid signatures')
    R.done()
OBLS['algorithms.R1.verify'].uses += REC

@contract('algorithms.R1.verify', 'algorithms.R1.verify')
def _(I, f, a, k):
    if len(a) != 3 or k or not isstr(a[1]) or not (isinstance(a[2], Opaque) and a[2].kind == 'pubkey'): return MISSING
    return mkbool(z3.And(F('keykind', 'A>I')(a[2].t) == 0, F('es256ok', 'SA>B')(I.ctx.term(a[1]), a[2].t)))

FAILMARK = 'U2ljaGVyaGVpdHNlaW5yaWNodHVuZyBhdXNnZWZhbGxlbg'
def spec_verify(R, rec, f, cert, ks=True):
    """verdict on one receipt (C01): 'ok' or the name of the exception; cert:
    the given certificate, or None for the key store"""
    I, c = R.I, R.ctx
    closed = in_lang(I, f[0], L.literal('AT0'))
    serial = f[10]
    key = None; mismatch = False
    if closed:
        key = R.I.call(libs.METH[('cert', 'public_key')] and Builtin('x', lambda I, a, k: Opaque('pubkey', F('pubkeyof', 'A>A')(cert.t))), [], {}) if cert is not None else ks_key(R, serial)
    else:
        num = spec(R, 'serial_ids', serial)
        if cert is not None:
            sn = F('certserial', 'A>I')(cert.t)
            cid = R.I.models.hexstr(I, SInt(z3.If(sn >= 0, sn, -sn)))
            mismatch = not any(I.test(R.eq(x, cid)) for x in num)
            if not mismatch: key = Opaque('pubkey', F('pubkeyof', 'A>A')(cert.t))
        else:
            for x in num:
                key = ks_key(R, x)
                if key is not None: break
    if mismatch: return 'CertSerialMismatchException'
    if I.test(R.eq(f[12], FAILMARK)):
        m = marker(I, f[9])
        null = all(I.test(mkbool(MD.cents_term(I, s) == 0)) for s in f[4:9])
        return 'UnsignedNullReceiptException' if m is None and null else 'SignatureSystemFailedException'
    if key is None: return 'NoPublicKeyException'
    jws = functools.reduce(c.cat, [jws_seg(R, JWSHEADER), '.', jws_seg(R, payload(R, f)), '.', f[12]])
    good = I.test(mkbool(z3.And(F('keykind', 'A>I')(key.t) == 0, F('es256ok', 'SA>B')(c.term(jws), key.t))))
    return 'ok' if good else 'InvalidSignatureException'
def jws_seg(R, text):
    return MD.decode(R.I, MD.B64UN(R.ctx, MD.encode(R.I, text)))
def payload(R, f):
    out = '_R1-'
    return functools.reduce(R.ctx.cat, ['_R1-', f[0]] + [x for v in f[1:12] for x in ('_', v)])

@obl('verify_receipt.ReceiptVerifier.verify', 'C01', 'verify_receipt.ReceiptVerifier.verify verify_receipt.ReceiptVerifier.fromCert verify_receipt.ReceiptVerifier.fromKeyStore key_store.KeyStore.getKey receipt.Receipt.isSignedBroken receipt.Receipt.isNull receipt.Receipt.toJWSString',
    uses=REC + ['algorithms.R1.verify', 'key_store.strSerialToKeyIds', 'key_store.numSerialToKeyId'], weight=4)
def _(R):
    I, c = R.I, R.ctx
    rec, f = mkrec(R)
    if R.pick(2, 'certificate or key store'):
        cert = R.opaque('cert')
        rv = R.call('verify_receipt.ReceiptVerifier.fromCert', cert)
    else:
        cert = None
        rv = R.call('verify_receipt.ReceiptVerifier.fromKeyStore', keystore(R))
    R.require(rv.ok, 'cannot create the verifier')
    o = R.meth(rv.v, 'verify', rec, 'R1')
    want = spec_verify(R, rec, f, cert)
    if o.ok:
        R.require(want == 'ok', 'accepts a receipt that must be answered with ' + want, case={'want': want})
        R.require(isinstance(o.v, tuple) and len(o.v) == 2 and o.v[0] is rec and R.isinst(o.v[1], 'algorithms.R1'), 'result is not (receipt, algorithm)')
    else:
        R.require(want != 'ok', 'rejects a valid receipt with %s' % o.v.cls.name, case={'want': want})
        R.require(want == 'ok' or R.cls(o, 'verify_receipt.' + want), 'raises %s instead of %s' % (o.v.cls.name, want), case={'want': want})
    R.done(want)

@contract('key_store.numSerialToKeyId', 'key_store.numSerialToKeyId')
def _(I, f, a, k):
    if len(a) != 1 or k or not isinstance(a[0], SInt): return MISSING
    return I.models.hexstr(I, SInt(z3.If(a[0].t >= 0, a[0].t, -a[0].t)))
@contract('key_store.strSerialToKeyIds', 'key_store.strSerialToKeyIds')
def _(I, f, a, k):
    if len(a) != 1 or k or not isstr(a[0]): return MISSING
    return I.call(specfn(I, 'serial_ids'), [a[0]], {})

@obl('verify_receipt.ReceiptVerifier.verify/algorithm', 'C01', 'verify_receipt.ReceiptVerifier.verify', uses=REC)
def _(R):
    """unknown algorithm IDs are refused"""
    rec, f = mkrec(R)
    rv = R.call('verify_receipt.ReceiptVerifier.fromKeyStore', keystore(R))
    a = R.text('algorithm')
    force_lang(R.I, a, L.compl(L.literal('R1')))
    o = R.meth(rv.v, 'verify', rec, a)
    R.require(not o.ok and R.cls(o, 'receipt.UnknownAlgorithmException'), 'an unknown algorithm is %s' % ('accepted' if o.ok else 'answered with ' + o.v.cls.name))
    R.done()

# verification of the four forms is parsing followed by verification
def form(name, parser):
    q = 'receipt.Receipt.' + parser
    def fparse(I, f, a, k):
        if len(a) != 1 or k: return MISSING
        c = I.ctx
        if c.choose([True, True], 'text parses') == 0: raise I.exc(I.modules['receipt'].ns['MalformedReceiptException'], 'parse')
        c.data['parsed'] = (a[0], Opaque('parsedrec', c.fresh('rec', 'A')), Opaque('parsedalg', c.fresh('alg', 'A')))
        return c.data['parsed'][1:]
    CONTRACTS['any:' + q] = ([q], fparse)
    @obl('verify_receipt.ReceiptVerifier.' + name, 'C01', 'verify_receipt.ReceiptVerifier.' + name, uses=['any:' + q, 'any:verify'])
    def _(R):
        t = R.text('text')
        rv = R.call('verify_receipt.ReceiptVerifier.fromKeyStore', keystore(R)).v
        o = R.meth(rv, name, t)
        p = R.ctx.data.get('parsed'); v = R.ctx.data.get('verified')
        if p is None:
            R.require(not o.ok and R.cls(o, 'receipt.MalformedReceiptException'), 'text that does not parse is not rejected with the parse error')
            R.done('no parse'); return
        R.require(p[0] is t or R.eq(p[0], t), 'another text is parsed')
        R.require(v is not None and v[0] is rv and v[1] is p[1] and v[2] is p[2], 'the parsed receipt is not verified with this verifier')
        if v[3] == 'exc': R.require(not o.ok and R.cls(o, 'verify_receipt.InvalidSignatureException'), 'rejection is lost')
        else: R.require(o.ok and o.v is v[3], 'result differs from that of the verification')
        R.done('verified')
def fverify(I, f, a, k):
    c = I.ctx
    if len(a) != 3 or k: return MISSING
    if c.choose([True, True], 'valid') == 0:
        c.data['verified'] = (a[0], a[1], a[2], 'exc')
        raise I.exc(I.modules['verify_receipt'].ns['InvalidSignatureException'], 'x')
    r = (a[1], Opaque('algobj', c.fresh('algo', 'A')))
    c.data['verified'] = (a[0], a[1], a[2], r)
    return r
CONTRACTS['any:verify'] = (['verify_receipt.ReceiptVerifier.verify'], fverify)
for _n, _p in (('verifyJWS', 'fromJWSString'), ('verifyBasicCode', 'fromBasicCode'), ('verifyOCRCode', 'fromOCRCode'), ('verifyCSV', 'fromCSV')): form(_n, _p)

# ---------------------------------------------------------------- AES key in a key store document
LK = 'utils.loadKeyFromJson'
@obl(LK, 'C04 C13 C16', LK + ' utils.loadB64Key')
def _(R):
    """a document with a Base64 text as AES key, among anything else"""
    I, c = R.I, R.ctx
    d = PDict()
    for i in range(R.pick(2, 'other element')):
        o = R.text('other'); c.assume(z3.Not(bt(mkbool(I.models.equal(I, o, 'base64AESKey'))))); I.models.setitem(I, d, o, MD.SJson('value'))
    if R.pick(2, 'key given') == 0:
        o = R.call(LK, d)
        R.require(o.ok and o.v is None, 'a document without key does not give None', 'C04 C13')
        R.done('absent'); return
    t = R.text('key64', L.b64(L.STD))
    I.models.setitem(I, d, 'base64AESKey', t)
    o = R.call(LK, d)
    R.require(o.ok, 'a Base64 key is refused with %s' % (o.v.cls.name if not o.ok else ''), 'C04 C13')
    R.require(isbytes(o.v) and R.eq(o.v, dec_std(I, t)), 'the key read is not the one in the document', 'C04 C13')
    R.done('given')
@obl(LK + '/any', 'C16', LK + ' utils.loadB64Key')
def _(R):
    """any JSON value: only exceptions of the library"""
    o = R.call(LK, MD.SJson('json'))
    R.require(o.ok or R.lib(o), 'raises %s' % (o.v.cls.name if not o.ok else ''))
    R.done('returns' if o.ok else 'refuses')
