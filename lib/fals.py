"""Concrete cross-check of the real code against the reference semantics.
A case is a JSON value {'kind': ..., ...}; run(case) -> [(property or None,
message)].  GENS[property] = list of generators gen(rng) -> case."""
import base64, copy, hashlib, io, itertools, json, pickle, random, re, datetime, string, configparser, binascii
from . import env, oracle as O, scen, impl, gen
from .impl import M, V, VS, KS, DP, RC, VR, UT, Scn, islib
from .scen import keys, AESKEY, euros, constants
CR, SS, DE, UH, AL = M['cashreg'], M['sigsys'], M['depexport'], M['url_receipt_helpers'], M['algorithms']

RUN = {}
GENS = {}
def kind(n):
    def d(f): RUN[n] = f; return f
    return d
def gens(*ps):
    def d(f):
        for p in ps: GENS.setdefault(p, []).append(f)
        return f
    return d
def run(case):
    try: return RUN[case['kind']](case)
    except RecursionError: return []
def en(e):
    try: return '%s(%s)' % (type(e).__name__, str(e)[:200])
    except Exception as x: return '%s(message: %s)' % (type(e).__name__, type(x).__name__)
def pub(o): return {k: v for k, v in o.__dict__.items() if not k.startswith('_')}

# ---------------------------------------------------------------- DEPs
@kind('dep')
def _dep(c):
    s = Scn.load(c['scn'])
    out = []
    o = impl.oracle_run(s)
    if o[0] == 'gray': return []
    mode = tuple(c['mode'])
    if mode[0] == 'parsed' and known_c08(s): return []
    i = impl.impl_run(s, mode)
    out += impl.compare(o, i)
    if mode[0] != 'dep' and out:
        out += [('C08', '%s (mode %r)' % (m, mode)) for p, m in out if not islib_case(i, p)]
    if mode[0] in ('dep', 'parsed') and i[0] == 'rej':
        out += failed_unchanged(s, mode)
    return out
def islib_case(i, p): return p == 'C16'
def known_c08(s):
    """listed finding: groups without certificate in a multi-group DEP are
    only noticed when they share a chunk with another group"""
    gs = [g for g in s.groups if g[0]]
    return len(gs) > 1 and any(g[1] is None for g in gs)

def failed_unchanged(s, mode):
    st = impl.impl_state(s.regs, s.used)
    before = impl.view_state(st)
    ks = impl.impl_ks(s.ks)
    try:
        if mode[0] == 'dep': V.verifyDEP(s.dep(), ks, s.key, st, s.idx)
        else: V.verifyParsedDEP(impl.make_parser(s, mode[1]), ks, s.key, st, s.idx,
            impl.FakePool('rev' if mode[4] == 'rev' else None) if mode[4] else None, mode[3], mode[2])
    except Exception:
        a = impl.view_state(st)
        n = len(before[0])
        if a[0][:n] != before[0] or a[1:] != before[1:]:
            return [('C09', 'a failed verification changed the state: %r -> %r' % (before, a))]
    return []

def dep_case(s, mode): return {'kind': 'dep', 'scn': s.dump(), 'mode': list(mode)}

FOCUS = {
 'C01': (6, 7, 8, 9, 16, 20), 'C03': (4, 4, 17, 0, 9), 'C04': (5, 5, 13, 14, 15, 21, 11, 12), 'C05': (3, 3, 3, 0),
 'C06': (0, 1, 2, 2, 12, 11, 13, 18, 19, 10), 'C07': (10, 10, 11, 12, 13, 14, 15, 10),
}
def focus(p):
    if p not in FOCUS: return None
    ks = FOCUS[p]
    def f(rng, R=None):
        return gen.mutation(_Pick(rng, ks), _R) if rng.random() < .7 else gen.mutation(rng, _R)
    return f
class _Pick(object):
    """random source whose first randrange picks among given choices"""
    def __init__(self, r, ks): self.r, self.ks, self.first = r, ks, True
    def randrange(self, *a):
        if self.first: self.first = False; return self.r.choice(self.ks)
        return self.r.randrange(*a)
    def __getattr__(self, n): return getattr(self.r, n)
class _RR(object): pass
_R = _RR(); _R.idfmt = lambda n: 'r%d' % n; _R.regId = 'REG-1'; _R.closed = False; _R.keyId = 'U:ATU12345678'; _R.si = 0

def mk_depgen(p):
    def g(rng):
        global _R
        s = None
        for _ in range(20):
            try: s = gen.random_dep(rng, None, True, None); break
            except (OverflowError, ValueError): continue
        m = rng.choice(gen.modes(rng, s, 1)[-1:] if p == 'C08' else gen.modes(rng, s, 1))
        if p in ('C08', 'C07', 'C05', 'C09', 'C03', 'C04') and rng.random() < .3 and not (len(s.groups) > 1 and any(g[1] is None for g in s.groups)):
            n = sum(len(g[0]) for g in s.groups)
            if n: m = ('parts', [rng.randrange(1, n + 1) for _ in range(4)], rng.random() < .6)
        return dep_case(s, m)
    return g
for p in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C15'):
    GENS.setdefault(p, []).append(mk_depgen(p))

@gens('C07', 'C08', 'C06')
def gen_seq(rng):
    """histories over the receipt kinds alphabet, unconstrained"""
    n = rng.randrange(1, 7)
    seq = [rng.choice(gen.ALPH) for _ in range(n)] if rng.random() < .5 else gen.rnd_seq(rng, n)
    s, R = gen.build(rng, seq, closed=rng.random() < .3, key=AESKEY if rng.random() < .8 else None, initial=rng.random() < .9,
        amounts=None if rng.random() < .6 else lambda r, i: r.choice([[100, -100, 0, 0, 0], [0, 0, 0, 0, 7], [-5, 0, 0, 5, 0], [0, 1, 0, 0, -1]]))
    K = keys()
    recs = s.groups[0][0]
    if rng.random() < .5 and len(recs) > 1:
        if R.closed: s.ks = dict(s.ks); s.ks['%x' % K.serials[0]] = (K.k[0].public_key(), K.certs[0])
        s.groups = [(g, K.certs[0], []) for g in gen.chunks(rng, recs, rng.choice([1, 2, 3]))]
    ms = gen.modes(rng, s, 2)
    if len(s.groups) == 1 or s.groups[0][1] is not None:
        ms.append(('parts', [rng.randrange(1, 4) for _ in range(6)], rng.random() < .5))
    return dep_case(s, rng.choice(ms))

@gens('C05')
def gen_dup(rng):
    """valid chains with an ID repeated somewhere, possibly across portions"""
    n = rng.randrange(2, 7)
    p, q = sorted(rng.sample(range(0, n + 1), 2))
    base = rng.choice(['x', '9', 'R-007', 'ä', '10'])
    ids = {}
    def idfmt(k):
        return ids.setdefault(k, rng.choice(['r%d' % k, base + str(k), str(k) + base]))
    R = scen.Register(idfmt=idfmt)
    mut = {}
    if rng.random() < .7: mut[q] = dict(recId=idfmt(p + 1))
    elif rng.random() < .5: mut[q] = dict(recId=idfmt(p + 1).swapcase() if idfmt(p + 1).swapcase() != idfmt(p + 1) else 'Q')
    s, _ = gen.build(rng, [('std', True, False)] * n, reg=R, mut=mut)
    K = keys()
    if rng.random() < .5: s.groups = [(g, K.certs[0], []) for g in gen.chunks(rng, s.groups[0][0], rng.choice([1, 2]))]
    if rng.random() < .3: s.used = O.Used('N')
    ms = gen.modes(rng, s, 2)
    ms.append(('parts', [rng.randrange(1, 4) for _ in range(6)], rng.random() < .5))
    return dep_case(s, rng.choice(ms))

@gens('C02')
def gen_trust(rng):
    K = keys()
    R = scen.Register(sigkey=rng.randrange(2))
    s, _ = gen.build(rng, [('std', True, False)] * rng.randrange(0, 3), reg=R)
    recs = s.groups[0][0]
    def hexs(c): return '%x' % c.serial_number
    depth = rng.randrange(0, 5)
    cc = [scen.newkey(rng.choice(['p256', 'p256', 'p384', 'rsa', 'ed'])) if rng.random() < .12 else (K.ca if rng.random() < .5 else K.ca2) for _ in range(depth)]
    # chain certs: cert signed by cc[0], cc[0]'s cert signed by cc[1] ...
    signer = (cc[0] if cc else K.ca)
    if rng.random() < .15: signer = scen.newkey()
    from cryptography.hazmat.primitives import hashes
    alg = lambda: rng.choice(['default', 'default', hashes.SHA384(), hashes.SHA512()])
    leaf = scen.mkcert(K.k[R.si].public_key(), K.serials[R.si], signer, 'leaf', alg=alg())
    chain = []
    for j in range(depth):
        sg = cc[j + 1] if j + 1 < depth else cc[j]
        if rng.random() < .12: sg = scen.newkey()
        chain.append(scen.mkcert(cc[j].public_key(), rng.choice([0x500 + j, 0x500 + j, 0x500, K.serials[R.si]]) if rng.random() < .2 else 0x500 + j, sg, 'c%d' % j, alg=alg()))
    if chain and rng.random() < .15: rng.shuffle(chain)
    if chain and rng.random() < .1: del chain[rng.randrange(len(chain))]
    ks = {}
    for c in [leaf] + chain:
        if rng.random() < .35: ks[hexs(c)] = (c.public_key(), c)
        elif rng.random() < .12:
            e = scen.mkcert(K.k[3].public_key(), c.serial_number, K.ca, 'evil'); ks[hexs(c)] = (e.public_key(), e)
        elif rng.random() < .1: ks[hexs(c)] = (c.public_key(), None)
    ks['77'] = (K.certs[3].public_key(), K.certs[3])
    groups = []
    parts = gen.chunks(rng, recs, rng.choice([0, 0, 1, 2]))
    for p in parts:
        groups.append((p, leaf if rng.random() < .93 else None, chain if rng.random() < .9 else chain[:1]))
    if rng.random() < .05: ks[hexs(leaf)] = (leaf.public_key(), leaf)
    sc = Scn(groups, ks, AESKEY)
    ms = gen.modes(rng, sc, 2)
    return dep_case(sc, rng.choice(ms))

# ------------------------------------------------------- single receipts
FMT = {'jws': ('verifyJWS', 'fromJWSString', O.parse_jws), 'basic': ('verifyBasicCode', 'fromBasicCode', O.parse_basic),
    'ocr': ('verifyOCRCode', 'fromOCRCode', O.parse_ocr), 'csv': ('verifyCSV', 'fromCSV', O.parse_csv)}
def rec_fields(r): return (r.zda, r.header, r.registerId, r.receiptId, r.dateTimeStr, r.sumAStr, r.sumBStr, r.sumCStr, r.sumDStr, r.sumEStr, r.encTurnoverCounter, r.certSerial, r.previousChain, r.signature)
def ora_fields(r): return (r.zda, r.header, r.regId, r.recId, r.dt, r.sA, r.sB, r.sC, r.sD, r.sE, r.enc, r.serial, r.chain, r.sig)

@kind('single')
def _single(c):
    d = dict(c['scn']); s = Scn.load(d)
    cert = s.groups[0][1]
    want = None
    try:
        r = FMT[c['fmt']][2](c['text'])
        want = O.receipt_status(r, s.ks if not cert else {}, cert)
    except O.Rej as e: want = ('rej', e.tag, e.info)
    except O.Gray: return []
    rv = VR.ReceiptVerifier.fromCert(cert) if cert else VR.ReceiptVerifier.fromKeyStore(impl.impl_ks(s.ks))
    try:
        rec, alg = getattr(rv, FMT[c['fmt']][0])(c['text'])
        got = 'signed'
    except VR.UnsignedNullReceiptException: got = 'failednull'
    except VR.SignatureSystemFailedException: got = 'failed'
    except Exception as e: got = ('rej', e)
    p = 'C01'
    if isinstance(want, tuple):
        p = 'C11' if want[1] == 'parse' else 'C01'
        if not isinstance(got, tuple): return [(p, 'receipt %r reported as %s instead of being rejected (%s)' % (c['text'][:400], got, want[2]))] + ([('C01', 'malformed receipt accepted')] if p == 'C11' else [])
        if not islib(got[1]): return [('C16', en(got[1])), (p, en(got[1]))]
        n = type(got[1]).__name__
        exp = {'serial mismatch': 'CertSerialMismatchException', 'no key': 'NoPublicKeyException', 'bad signature': 'InvalidSignatureException'}.get(want[2])
        if p == 'C01' and exp and n != exp: return [('C01', 'rejected with %s instead of %s' % (n, exp))]
        return []
    if isinstance(got, tuple):
        return [('C01', 'receipt %r (%s) rejected with %s' % (c['text'][:400], want, en(got[1])))] + ([] if islib(got[1]) else [('C16', en(got[1]))])
    if got != want: return [('C01', 'receipt reported as %s instead of %s' % (got, want))]
    if got == 'signed' and rec_fields(rec) != ora_fields(r): return [('C11', 'fields changed'), ('C01', 'the verified receipt has other fields than the given one')]
    if got == 'signed' and alg.id() != 'R1': return [('C01', 'algorithm')]
    return []

def some_receipt(rng, **kw):
    """-> (jws, Register)"""
    closed = rng.random() < .4
    R = scen.Register(rng.choice(['REG', 'K;1', 'Kä', '0', 'x.y']), closed, rng.choice([5, 8, 12, 16]), sigkey=rng.randrange(3),
        serialfmt=rng.choice(['hex', 'HEX', 'dec', '-hex', '0hex']), keyId=rng.choice(['U:ATU12345678', 'S:123456789', 'G:1234567890123', 'U:A-K1', 'S:123456789-A', 'G:1234567890123-x9']),
        idfmt=gen.ids_fmt(rng), zda=None if closed else rng.choice(['AT1', 'AT3', 'AT100', 'DE1', 'ZZ99']))
    am = gen.rnd_amounts(rng)
    c = am(rng, 0) if rng.random() < .7 else [0] * 5
    lim = 1 << 8 * R.size - 1
    if not -lim <= sum(c) < lim: c = [0] * 5
    k = dict(kind=rng.choice(['std', 'std', 'std', 'dummy', 'reversal']), cents=c, broken=rng.random() < .2)
    k.update(kw)
    return R.add(**k), R

@gens('C01')
def gen_single(rng):
    K = keys()
    kw = {}
    if rng.random() < .3:
        m = gen.mutation(_Pick(rng, (6, 7, 8, 9, 16, 18, 20, 15)), _R)[1]; kw.update(m)
    j, R = some_receipt(rng, **kw)
    ks = {}
    # key store
    if R.closed:
        for i in ('U:ATU12345678', 'S:123456789', 'G:1234567890123', 'U:A-K1', 'S:123456789-A', 'U:A', 'u:atu12345678'):
            if rng.random() < .3: ks[i] = (K.k[rng.randrange(4)].public_key(), None)
        if rng.random() < .7: ks[R.keyId] = (K.k[R.si].public_key(), None)
    else:
        for i in range(4):
            if rng.random() < .6: ks['%x' % K.serials[i]] = (K.k[i].public_key(), K.certs[i])
        if rng.random() < .2: ks['%x' % K.serials[R.si]] = (scen.newkey(rng.choice(['rsa', 'p256', 'p384'])).public_key(), None)
        if rng.random() < .3: ks['%x' % int('%d' % K.serials[R.si], 16)] = (K.k[rng.randrange(4)].public_key(), None)
        if rng.random() < .1: ks['%d' % K.serials[R.si]] = (K.k[3].public_key(), None)
    if rng.random() < .3:
        # keys stored under other spellings of the receipt's serial or key ID
        raw = R.keyId if R.closed else None
        if raw is None:
            try: raw = O.parse_jws(j).serial
            except (O.Rej, O.Gray): raw = 'ab12'
        for f in (lambda x: x, str.upper, str.lower, str.swapcase, lambda x: x.lstrip('-'), lambda x: x.lstrip('-0'), lambda x: '0' + x, lambda x: '-' + x, lambda x: x + ' ', lambda x: x.split('-')[0], lambda x: '0x' + x):
            if rng.random() < .4: ks.setdefault(f(raw), (K.k[R.si].public_key(), None))
        if rng.random() < .7:
            for i in ('%x' % K.serials[R.si], R.keyId): ks.pop(i, None)
    cert = None
    x = rng.random()
    if x < .35: cert = K.certs[R.si]
    elif x < .45: cert = K.certs[rng.randrange(4)]
    elif x < .5: cert = K.evil[R.si]
    fmt = rng.choice(sorted(FMT))
    text = j
    try:
        r = O.parse_jws(j)
        text = {'jws': lambda r: j, 'basic': O.to_basic, 'ocr': O.to_ocr, 'csv': O.to_csv}[fmt](r)
        if rng.random() < .08 and not r.broken:
            # altered marker / nearly failed receipts
            sig = rng.choice([O.FAILSIG + 'A', O.FAILSIG[:-1], O.b64u(O.FAIL.lower().encode()), O.b64u(b''), O.b64u((O.FAIL + ' ').encode())])
            h, p, _ = j.split('.'); text = '.'.join([h, p, sig]); fmt = 'jws'
    except (O.Rej, O.Gray): fmt = 'jws'
    s = Scn([([], cert, [])], ks)
    return {'kind': 'single', 'scn': s.dump(), 'fmt': fmt, 'text': text}

# ------------------------------------------------------------ C11 format
LIBPARSE = ('MalformedReceiptException', 'UnknownAlgorithmException', 'AlgorithmMismatchException', 'CertSerialInvalidException', 'InvalidCertificateProviderException')
@kind('fmt')
def _fmt(c):
    t = c['text']
    try: r = FMT[c['fmt']][2](t); want = ora_fields(r)
    except O.Rej as e: want = None; why = e.info
    except O.Gray: return []
    try:
        rec, alg = getattr(RC.Receipt, FMT[c['fmt']][1])(t)
    except Exception as e:
        if not islib(e): return [('C16', 'parsing %r: %s' % (t[:300], en(e))), ('C11', 'parsing %r: %s' % (t[:300], en(e)))]
        if want is not None: return [('C11', 'well-formed receipt %r refused: %s' % (t[:400], en(e)))]
        if type(e).__name__ not in LIBPARSE: return [('C11', 'unspecific exception %s' % en(e))]
        return []
    if want is None: return [('C11', 'malformed receipt %r accepted (%s)' % (t[:400], why))]
    if alg != 'R1' or rec_fields(rec) != want: return [('C11', 'fields of %r altered: %r' % (t[:400], rec_fields(rec)))]
    if rec.dateTime != r.date: return [('C11', 'date-time %r read as %r' % (r.dt, rec.dateTime))]
    if rec.isNull() != r.null and all(len(s) < 300 for s in r.sums): return [('C11', 'isNull of %r is %r' % (r.sums, rec.isNull())), ('C06', 'isNull of %r is %r' % (r.sums, rec.isNull()))]
    if (rec.isDummy(), rec.isReversal(), rec.isSignedBroken()) != (r.dummy, r.reversal, r.broken): return [('C11', 'classification of %r' % t[:300])]
    if rec.turnoverCents() != r.total: return [('C04', 'turnover of %r is %r' % (r.sums, rec.turnoverCents()))]
    return []

SUBS = {
 'sum': ['0,00', '-0,00', '1,00', '01,00', '00,00', '1,0', '1,000', ',00', '1.00', '+1,00', ' 1,00', '1,00 ', '--1,00', '1', '', '1,0a', '\u0661,00', '1,00\n', '12345678901234567890,99', '-', '0,0', '10,00', '100,50', '-05,00', '1e5,00', '1_0,00', '09,00'],
 'zda': ['AT0', 'AT1', 'AT01', 'AT', 'at1', 'A1', 'AAT1', 'AT1\n', 'AT1 ', 'AT00', 'ÄT1', 'DE0', 'DE10', 'AT1-', '', 'AT\u0661', 'AT10x', 'ATR1'],
 'dt': ['2017-01-01T10:00:00', '2017-02-30T10:00:00', '2016-02-29T10:00:00', '2017-01-01 10:00:00', '2017-01-01T24:00:00', '2017-01-01T10:00', '2017-01-01T10:00:00Z', '', '2017-01-01T10:00:60', '2017-01-01T10:00:62', '2017-13-01T10:00:00', '0000-01-01T00:00:00', '17-01-01T10:00:00', ' 2017-01-01T10:00:00', '2017-01-01T10:00:00\n', 'x'],
 'b64': ['', 'A', 'AA', 'AAA', 'AAAA', 'AA==', 'AAA=', 'AAAAAAAAAAA=', 'AAAAAAAA', 'AAAAAAAAAAAAAAAA', 'VFJB', 'U1RP', 'VFJB====', 'AAAAAA==', 'AAAAAAA=', 'AAAAAAAAAAAAAAAAAAAAAA==', 'AAAAAAAAAAAAAAAAAAAAAAA=', 'AA-_AAAAAAA=', 'AA+/AAAAAAA=', 'A===', '====', '=', 'A=AA', 'AAAAAAAAAAA=\n', 'AAAAAAAAAAAAAAA', 'dHJh', 'AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA=', 'é'],
 'serial': ['', '0', '1a', '1A', '-1a', '--1a', '1a-b', '1a-', '1a-b-c', '-', 'S:123456789', 'S:12345678', 'S:12345678a', 's:123456789', 'U:ATU12345678', 'U:a', 'U:', 'U:A', 'U:ABCDEFGHIJKLMN', 'U:ABCDEFGHIJKLMNO', 'G:1234567890123', 'G:123456789012', 'G:1234567890123-1', '0x1a', 'xyz', '1_a', ' 1a', '1a ', 'U:A-B', 'U:A-', 'U:A-B-C', '-S:123456789', 'U:A-B!', '+5', '123456789012345678901234567890', 'S:\u0661\u0661\u0661\u0661\u0661\u0661\u0661\u0661\u0661', '1a\n', 'U:Ä', '-0', '1a--b'],
 'id': ['', 'x', 'a-b', 'a.b', 'ä', ' ', 'a b', '\n', '0', 'a=b', 'a;b', 'x' * 300, '\x00', '\U0001f600'],
 'alg': ['R1', 'R2', 'R0', 'r1', 'R', 'R01', 'R1\n', '', 'R12', 'RR1', '1', 'R1 ', 'RK1', 'R\u0661'],
 'header': ['{"alg":"ES256"}', '{"alg": "ES256"}', '{"alg":"HS256"}', '', '{"alg":"ES256"} ', '{"alg":"none"}', '{"typ":"JWT","alg":"ES256"}', '{"alg":"ES256"}\n', '{"alg":"ES384"}'],
 'sig': ['', 'A', 'AA', 'AAA', 'AAAA', 'AA==', 'A-_A', 'A+/A', '=', O.FAILSIG, O.FAILSIG + '=', 'A' * 86, 'A' * 85, 'A' * 87, 'é', 'AA\n'],
}
NAMES = ['alg', 'zda', 'id', 'id', 'dt', 'sum', 'sum', 'sum', 'sum', 'sum', 'b64', 'serial', 'b64']

def rnd_text(rng, n=8):
    al = ['_', '.', '-', '=', ',', ';', '0', '9', 'A', 'z', ' ', '\n', 'é', '\u0661', '/', '+', ':', '\t', '\u2028', '\x1c']
    return ''.join(rng.choice(al) for _ in range(rng.randrange(n)))

@gens('C11', 'C16')
def gen_fmt(rng):
    j, R = some_receipt(rng)
    h, p, sig = j.split('.')
    dec = lambda s: base64.urlsafe_b64decode(s + '=' * (-len(s) % 4)).decode('utf-8')
    header = O.HEADER
    segs = dec(p).split('_')[1:]
    alg, zda = segs[0].split('-')
    f = [alg, zda] + segs[1:]
    for _ in range(rng.choice([0, 1, 1, 1, 1, 2])):
        k = rng.randrange(13)
        x = rng.random()
        if x < .6: f[k] = rng.choice(SUBS[NAMES[k]])
        elif x < .7: f[k] = rnd_text(rng)
        else:
            s = list(f[k]); pos = rng.randrange(len(s) + 1)
            y = rng.randrange(3)
            strs = constants()[1]
            ch = rng.choice(['0', '1', 'A', '=', '-', ' ', '\n', ',', 'a', 'é', '\u0662', '+', rng.choice(strs) if strs else 'x'])
            if y == 0: s.insert(pos, ch)
            elif s and y == 1: del s[pos % len(s)]
            elif s: s[pos % len(s)] = ch
            f[k] = ''.join(s)
    payload = '_%s-%s_%s' % (f[0], f[1], '_'.join(f[2:]))
    x = rng.random()
    if x < .04: payload = payload[1:]
    elif x < .07: payload += '_'
    elif x < .10: payload = 'x' + payload
    elif x < .13: payload = payload.replace('-', rng.choice(['', '--', '_']), 1)
    elif x < .15: payload = '_'.join(payload.split('_')[:-1])
    if rng.random() < .1: header = rng.choice(SUBS['header'])
    if rng.random() < .15: sig = rng.choice(SUBS['sig'])
    fmt = rng.choice(sorted(FMT))
    enc = lambda s: O.b64u(s.encode('utf-8', 'surrogatepass'))
    if fmt == 'jws':
        a, b, d = enc(header), enc(payload), sig
        y = rng.random()
        if y < .03: a += '='
        elif y < .06: b += '=' * rng.randrange(1, 4)
        elif y < .09: d += '='
        elif y < .12: b = b + rng.choice('AQgw-+/é')
        elif y < .14: b = b[:-1]
        elif y < .16: b = O.b64u(b'\xff' + payload.encode('utf-8', 'surrogatepass'))
        elif y < .17: a = O.b64u(b'\xff')
        text = '.'.join([a, b, d])
        if rng.random() < .03: text += rng.choice(['.', '\n', '.x', ' '])
        if rng.random() < .02: text = text.replace('.', '', 1)
    else:
        try: sg = base64.b64encode(base64.urlsafe_b64decode(sig + '=' * (-len(sig) % 4))).decode()
        except Exception: sg = rng.choice(SUBS['b64'])
        if rng.random() < .1: sg = rng.choice(SUBS['b64'] + SUBS['sig'])
        text = payload + '_' + sg
        if fmt == 'csv':
            text = text[1:].replace('_', ';')
            if rng.random() < .3: text = ';'.join(rng.choice(['', ' ', '\t', '\n']) + t + rng.choice(['', ' ']) for t in text.split(';'))
        if fmt == 'ocr':
            t = text.split('_')
            for i in (10, 12, 13):
                if i < len(t):
                    try: t[i] = base64.b32encode(base64.b64decode(t[i])).decode()
                    except Exception: pass
                    z = rng.random()
                    if z < .03: t[i] = t[i].rstrip('=')
                    elif z < .06: t[i] += '='
                    elif z < .08: t[i] = t[i].lower()
            text = '_'.join(t)
    return {'kind': 'fmt', 'fmt': fmt, 'text': text}

# --------------------------------------------------------- C12 conversion
@kind('conv')
def _conv(c):
    try: r = O.parse_jws(c['text'])
    except (O.Rej, O.Gray): return []
    canon = lambda s: base64.b64encode(O.b64dec(s)).decode() == s
    if not (canon(r.enc) and canon(r.chain) and O.b64u(O.b64udec(r.sig)) == r.sig): return []
    if r.jws != c['text']: return []
    out = []
    try:
        rec, a = RC.Receipt.fromJWSString(c['text'])
        before = pub(rec)
        texts = {'jws': rec.toJWSString(a), 'basic': rec.toBasicCode(a), 'ocr': rec.toOCRCode(a), 'csv': rec.toCSV(a)}
        want = {'jws': r.jws, 'basic': O.to_basic(r), 'ocr': O.to_ocr(r), 'csv': O.to_csv(r)}
        nocsv = any(';' in x or x.strip() != x for x in ora_fields(r))
        for f in sorted(FMT):
            if texts[f] != want[f]: out.append(('C12', '%s of %r is %r instead of %r' % (f, c['text'][:300], texts[f], want[f])))
            if f == 'csv' and nocsv: continue
            rec2, a2 = getattr(RC.Receipt, FMT[f][1])(texts[f])
            if a2 != a or rec_fields(rec2) != rec_fields(rec) or pub(rec2) != before:
                out.append(('C12', 'reading back the %s form %r changes the receipt' % (f, texts[f][:400])))
            if rec2.toJWSString(a2) != c['text']: out.append(('C12', 'JWS after %s round trip differs' % f))
        if pub(rec) != before: out.append(('C12', 'conversion altered the receipt'))
    except Exception as e: out.append(('C12', 'conversion of %r raised %s' % (c['text'][:300], en(e))))
    return out
@gens('C12')
def gen_conv(rng):
    kw = {}
    x = rng.random()
    if x < .35: kw['pre'] = lambda f: f.update(recId=rng.choice([i for i in SUBS['id'] if i and '_' not in i]), regId=rng.choice([i for i in SUBS['id'] if i]))
    elif x < .6:
        n = rng.randrange(5, 17)
        kw['pre'] = lambda f: f.update(enc=base64.b64encode(bytes(rng.choice([0, 255, 62, 63, 251, rng.randrange(256)]) for _ in range(n))).decode(),
            chain=base64.b64encode(bytes(rng.choice([0, 255, 251, 239, 190, rng.randrange(256)]) for _ in range(8))).decode())
    j, R = some_receipt(rng, **kw)
    if rng.random() < .4:
        h, p, _ = j.split('.')
        j = '.'.join([h, p, O.b64u(bytes(rng.choice([0, 255, 251, rng.randrange(256)]) for _ in range(rng.choice([64, 64, 63, 62, 0, 1, 2, 3, 5]))))])
    return {'kind': 'conv', 'text': j}

# ---------------------------------------------------------- C13 counters
class _Rec(object): pass
@kind('tc')
def _tc(c):
    a = AL.ALGORITHMS['R1']
    key = bytes.fromhex(c['key'])
    out = []
    r = RC.Receipt('AT0', c['reg'], c['rec'], '2017-01-01T00:00:00', *(['0,00'] * 5 + ['AAAAAAAAAAA=', 'U:A', 'AAAAAAAAAAA=']))
    r.sumAStr = c.get('sum', '0,00')
    v, n = c['value'], c['size']
    try:
        if len(key) != 32:
            if a.verifyKey(key): out.append(('C13', 'a key of %d bytes is accepted' % len(key))); out.append(('C04', out[0][1]))
            try: r.decryptTurnoverCounter(key, a); out.append(('C13', 'decryption with a key of %d bytes is not refused' % len(key)))
            except UT.InvalidKeyException: pass
            for k in (None, 'x' * 32, bytearray(32), 5):
                if a.verifyKey(k): out.append(('C13', 'key %r accepted' % (k,)))
            return out
        if not a.verifyKey(key): return [('C13', 'a 32-byte key is refused')]
        ct = a.encryptTurnoverCounter(r, v, key, n)
        if len(ct) != n: out.append(('C13', 'encrypted size %d instead of %d' % (len(ct), n)))
        want = O.ctr(key, O.iv(c['reg'], c['rec']), v.to_bytes(n, 'big', signed=True))
        if ct != want: out.append(('C13', 'encrypting %d (%d bytes) for register %r receipt %r gives %s instead of %s' % (v, n, c['reg'], c['rec'], ct.hex(), want.hex())))
        if a.decryptTurnoverCounter(r, ct, key) != v: out.append(('C13', 'decrypting the encryption of %d (%d bytes) gives %d' % (v, n, a.decryptTurnoverCounter(r, ct, key))))
        r.encTurnoverCounter = base64.b64encode(ct).decode()
        if ct in (b'TRA', b'STO'): return out
        if r.decryptTurnoverCounter(key, a) != v: out.append(('C13', 'the receipt decrypts %d to something else' % v))
        for m in ('VFJB', 'U1RP'):
            r.encTurnoverCounter = m
            try: r.decryptTurnoverCounter(key, a); out.append(('C13', 'marker %s is decrypted' % m))
            except Exception: pass
    except Exception as e: out.append(('C13', 'turnover counter %d, %d bytes, register %r, receipt %r: %s' % (v, n, c['reg'], c['rec'], en(e))))
    return out
@gens('C13', 'C04')
def gen_tc(rng):
    n = rng.randrange(5, 17); lim = 1 << 8 * n - 1
    v = rng.choice([0, -1, 1, lim - 1, -lim, rng.randrange(-lim, lim), rng.randrange(-lim, lim), -256, 255, 1 << 31, -(1 << 31), 1 << 32, (1 << 39) - 1, -(1 << 39)])
    ints = [i for i in constants()[0] if abs(i) < lim]
    if ints and rng.random() < .3: v = rng.choice([1, -1]) * rng.choice(ints) + rng.choice([-1, 0, 1])
    if not -lim <= v < lim: v = 0
    ids = ['R', 'x', '0', 'ä', 'R1', 'a' * 200, ' ', '\U0001f600', 'a-b'] + [s for s in constants()[1] if s and '_' not in s]
    k = rng.choice([32] * 8 + [0, 16, 24, 31, 33, 64])
    return {'kind': 'tc', 'reg': rng.choice(ids), 'rec': rng.choice(ids), 'key': bytes(rng.randrange(256) for _ in range(k)).hex() if rng.random() < .9 else '00' * k, 'size': n, 'value': v,
        'sum': rng.choice(['0,00', '1,00', '-5,50'])}

# --------------------------------------------------------- C14 key stores
def kdump(k): return scen.kpem(k)
_pool = None
def kpool():
    global _pool
    if _pool is None:
        K = keys()
        ser = [1, 0xab, 0xABCDEF, 10, 0x10, 2**159 - 1, 0xca]
        certs = list(K.certs) + list(K.evil) + [K.cacert, K.ca2cert, K.rsacert] + [scen.mkcert(K.k[i % 4].public_key(), s, K.ca, 'p%d' % i) for i, s in enumerate(ser)]
        pub = [k.public_key() for k in K.k] + [K.rsaca.public_key(), scen.newkey('p384').public_key()]
        _pool = ([scen.pem(c) for c in certs], [kdump(k) for k in pub])
    return _pool
def lc(s): return UT.loadCert(UT.addPEMCertHeaders(s))
def lk(s): return UT.loadPubKey(UT.addPEMPubKeyHeaders(s))
def wrap(s, what): return '-----BEGIN %s-----\n%s\n-----END %s-----\n' % (what, '\n'.join(s[i:i + 64] for i in range(0, len(s), 64)), what)
def ksview(s):
    out = {}
    for i in s.getKeyIds():
        k, c = s.getKey(i), s.getCert(i)
        out[i] = (kdump(k) if k is not None else None, scen.pem(c) if c is not None else None)
    return out
@kind('ksops')
def _ksops(c):
    s = KS.KeyStore(); model = {}
    try:
        for op in c['ops']:
            snap = copy.deepcopy(s); sm = dict(model)
            if op[0] == 'put': s.putKey(op[1], lk(op[2]), lc(op[3]) if op[3] else None); model[op[1]] = (op[2], op[3])
            elif op[0] == 'cert':
                s.putPEMCert(wrap(op[1], 'CERTIFICATE')); ct = lc(op[1])
                model['%x' % abs(ct.serial_number)] = (kdump(ct.public_key()), op[1])
            elif op[0] == 'key': s.putPEMKey(op[1], wrap(op[2], 'PUBLIC KEY')); model[op[1]] = (op[2], None)
            elif op[0] == 'del': s.delKey(op[1]); model.pop(op[1], None)
            if ksview(s) != model: return [('C14', 'after %r the store holds %r instead of %r' % (op[:2], sorted(ksview(s)), sorted(model)))]
            if ksview(snap) != sm: return [('C14', 'a copy of the store changed with %r' % (op[:2],))]
            for i in c['probe']:
                if (s.getKey(i) is None) != (i not in model) or (s.getCert(i) is not None and (i not in model or model[i][1] is None)):
                    return [('C14', 'looking up %r' % i)]
        js = json.loads(json.dumps(s.writeStoreToJson(c.get('aes'))))
        if c.get('aes') is not None and js.get('base64AESKey') != c['aes']: return [('C14', 'AES key not saved')]
        if ksview(s) != model: return [('C14', 'saving the store altered it')]
        # IDs of certificates are serial numbers (JSON) and free of INI syntax
        jsok = all(v[1] is None or k == '%x' % abs(lc(v[1]).serial_number) for k, v in model.items())
        # a stored certificate comes back with its own key
        same = all(v[1] is None or kdump(lc(v[1]).public_key()) == v[0] for v in model.values())
        if jsok and same:
            got = ksview(KS.KeyStore.readStoreFromJson(js))
            if got != model: return [('C14', 'JSON round trip gives %r instead of %r' % (sorted(got), sorted(model)))]
        iniok = all(re.fullmatch(r'[A-Za-z0-9:]+(-[A-Za-z0-9]+)?', k) and not re.search('[sug];', k) and re.fullmatch(r'([SUG]:)?[^:]*', k) for k in model)
        if iniok and same:
            cp = configparser.RawConfigParser(); cp.optionxform = str
            s.writeStore(cp); f = io.StringIO(); cp.write(f); f.seek(0)
            cp2 = configparser.RawConfigParser(); cp2.optionxform = str; cp2.read_file(f)
            got = ksview(KS.KeyStore.readStore(cp2))
            if got != model: return [('C14', 'INI round trip gives %r instead of %r' % (sorted(got), sorted(model)))]
    except Exception as e: return [('C14', 'key store operations %r raised %s' % ([o[:2] for o in c['ops']], en(e)))]
    return []
@gens('C14')
def gen_ksops(rng):
    certs, pubs = kpool()
    ids = ['U:ATU12345678', 'S:123456789', 'G:1234567890123', 'U:A-1', 'ab', 'AB', '1', '01', 'ca', 'x'] + ['%x' % s for s in keys().serials]
    ops = []
    for _ in range(rng.randrange(1, 8)):
        x = rng.random()
        if x < .35: ops.append(['cert', rng.choice(certs)])
        elif x < .7: ops.append(['key', rng.choice(ids), rng.choice(pubs)])
        elif x < .8: ops.append(['put', rng.choice(ids), rng.choice(pubs), rng.choice(certs) if rng.random() < .5 else None])
        else: ops.append(['del', rng.choice(ids + [o[1] for o in ops if o[0] == 'key'])])
    return {'kind': 'ksops', 'ops': ops, 'probe': ids, 'aes': base64.b64encode(AESKEY).decode() if rng.random() < .5 else None}

def ks_expect(j):
    """independent reading of a JSON key store: dict or None (refused)"""
    if type(j) is not dict or type(j.get('certificateOrPublicKeyMap')) is not dict: return None
    out = {}
    for k, v in j['certificateOrPublicKeyMap'].items():
        if type(v) is not dict: return None
        if any(type(v.get(n)) is not str for n in ('id', 'signatureDeviceType', 'signatureCertificateOrPublicKey')): return None
        if v['id'] != k: return None
        t, p = v['signatureDeviceType'], v['signatureCertificateOrPublicKey']
        if t == 'CERTIFICATE':
            ids = O.serial_ids(k)
            if not ids: return None
            try: ct = lc(p)
            except Exception: return None
            out[ids[0]] = (kdump(ct.public_key()), scen.pem(ct))
        elif t == 'PUBLIC_KEY':
            try: out[k] = (kdump(lk(p)), None)
            except Exception: return None
        else: return None
    return out
@kind('ksjson')
def _ksjson(c):
    want = ks_expect(c['json'])
    try: got = ksview(KS.KeyStore.readStoreFromJson(copy.deepcopy(c['json'])))
    except Exception as e:
        if not islib(e): return [('C16', 'reading key store: ' + en(e)), ('C14', 'malformed key store: ' + en(e))]
        if want is not None: return [('C14', 'valid key store refused: ' + en(e))]
        if not isinstance(e, KS.KeyStoreException): return [('C14', 'malformed key store rejected with ' + en(e))]
        return []
    if want is None: return [('C14', 'malformed key store accepted: %s' % json.dumps(c['json'])[:600])]
    if got != want: return [('C14', 'key store read as %r instead of %r' % (sorted(got), sorted(want)))]
    return []
JUNK = [None, True, False, 0, 1, -1, 1.5, '', 'x', [], {}, [1], {'a': 1}, 10**30, [[]], [{}], 'é', '\ud800', ['x'], {'': ''}, 'nan', float('inf')]
def mutate_json(rng, j, n=1):
    j = copy.deepcopy(j)
    for _ in range(n):
        # pick a node
        paths = []
        def walk(v, path):
            paths.append(path)
            if isinstance(v, dict):
                for k in v: walk(v[k], path + [k])
            elif isinstance(v, list):
                for i in range(len(v)): walk(v[i], path + [i])
        walk(j, [])
        p = rng.choice(paths)
        if not p:
            if rng.random() < .2: return rng.choice(JUNK)
            continue
        o = j
        for k in p[:-1]: o = o[k]
        k = p[-1]; x = rng.random()
        if x < .5: o[k] = copy.deepcopy(rng.choice(JUNK))
        elif x < .65: del o[k]
        elif x < .75 and isinstance(o, dict): o[rng.choice(['x', '', k + ' ', 'é'])] = o[k]
        elif x < .8 and isinstance(o, dict): v = o.pop(k); o[rng.choice(['x', k.upper(), k + '1'])] = v
        elif isinstance(o[k], str):
            s = o[k]; q = rng.randrange(len(s) + 1)
            o[k] = rng.choice([s[:q], s[:q] + rng.choice(['é', '\x00', ' ', '=', '\n', 'A', '\ud800']) + s[q:], s.upper(), s.lower(), s + s])
        elif isinstance(o[k], list): o[k] = o[k] + [copy.deepcopy(rng.choice(JUNK))]
        elif isinstance(o[k], bool): o[k] = rng.choice([0, 1, None, 'true'])
        elif isinstance(o[k], int): o[k] = rng.choice([str(o[k]), float(o[k]), o[k] + 1, None, [o[k]]])
    return j
@gens('C14', 'C16')
def gen_ksjson(rng):
    certs, pubs = kpool()
    m = {}
    for _ in range(rng.randrange(0, 4)):
        if rng.random() < .5:
            ct = rng.choice(certs); i = rng.choice(['%x', '%x', '%X', '%d']) % abs(lc(ct).serial_number)
            m[i] = {'id': i, 'signatureDeviceType': 'CERTIFICATE', 'signatureCertificateOrPublicKey': ct}
        else:
            i = rng.choice(['U:ATU12345678', 'S:123456789', 'x', ''] + (['%x' % abs(lc(rng.choice(certs)).serial_number)] if certs else []))
            m[i] = {'id': i, 'signatureDeviceType': 'PUBLIC_KEY', 'signatureCertificateOrPublicKey': rng.choice(pubs)}
    if m and rng.random() < .2:
        # the ID is changed consistently
        i = rng.choice(sorted(m)); v = m.pop(i)
        v['id'] = n = rng.choice(['-' + i, '0' + i, '0x' + i, ' ' + i, i + ' ', 'xyz', '', '-', '--1', '1_0', 'g', '\u0661\u0662', 'S:1', '12a', '10'])
        m[n] = v
    j = {'certificateOrPublicKeyMap': m, 'base64AESKey': 'AAAA'}
    return {'kind': 'ksjson', 'json': mutate_json(rng, j, rng.choice([0, 1, 1, 1, 2]))}

# ----------------------------------------------------- C15 cash register
@kind('cashreg')
def _cashreg(c):
    K = keys()
    priv = UT.loadPrivKey(c['priv'])
    pub = priv.public_key()
    key = bytes.fromhex(c['aes'])
    closed = c['closed']
    zda, serial = ('AT0', 'U:ATU12345678') if closed else ('AT1', 'ab12')
    work, fail = SS.SignatureSystemWorking(zda, serial, priv), SS.SignatureSystemBroken(zda, serial)
    out = []
    try:
        tc0 = c.get('tc0', 0); reg = CR.CashRegister(c['reg'], None, tc0, key, c['size'])
        t = scen.BASE; recs = []; total = tc0; last = None
        for n, (knd, cents, broken) in enumerate(c['items']):
            t += datetime.timedelta(seconds=61)
            rid = c['ids'] % n if '%' in c['ids'] else c['ids'] + str(n)
            rec = reg.receipt('R1', rid, t, *([x / 100.0 for x in cents] + [fail if broken else work, knd == 'dummy', knd == 'reversal']))
            j = rec.toJWSString('R1')
            try: r = O.parse_jws(j)
            except O.Rej as e: return [('C15', 'receipt %d is malformed (%s): %r' % (n, e.info, j))]
            if knd != 'dummy': total += sum(cents)
            f = []
            if r.recId != rid or r.regId != c['reg'] or r.zda != zda or r.serial != serial: f.append('identity')
            if [O.cents(s) for s in r.sums] != list(cents): f.append('amounts %r' % (r.sums,))
            if r.dt != t.strftime('%Y-%m-%dT%H:%M:%S'): f.append('date')
            if r.chain != O.chainval(last or c['reg']): f.append('chaining value')
            if (r.dummy, r.reversal) != (knd == 'dummy', knd == 'reversal'): f.append('type marker')
            if knd == 'std' and (len(r.ct) != c['size'] or O.dec_counter(r, key) != total): f.append('turnover counter')
            if broken != r.broken or (not broken and not O.es256_ok(j, pub)): f.append('signature')
            if f: return [('C15', 'receipt %d (%s, %r cents, %s) has a wrong %s' % (n, knd, cents, 'failed' if broken else 'working', ', '.join(f)))]
            last = j; recs.append(j)
        if reg.turnoverCounter != total: return [('C15', 'turnover counter %r instead of %r' % (reg.turnoverCounter, total))]
        s = Scn([(recs, None, [])], {serial: (pub, None)}, key)
        for mode in (('dep',), ('parsed', 'dict', 2, 2, None)):
            if tc0: break
            i = impl.impl_run(s, mode)
            if i[0] == 'rej': return [('C15', 'produced DEP rejected: ' + en(i[1]))]
            if i[1][0][0][2] != total: return [('C15', 'turnover after verification %r instead of %r' % (i[1][0][0][2], total))]
    except Exception as e: return [('C15', 'cash register run raised ' + en(e))]
    return out
_privs = None
def privs():
    global _privs
    if _privs is None:
        from cryptography.hazmat.primitives.serialization import PrivateFormat, NoEncryption, Encoding
        _privs = [k.private_bytes(Encoding.PEM, PrivateFormat.TraditionalOpenSSL, NoEncryption()).decode() for k in keys().k]
    return _privs
@gens('C15')
def gen_cashreg(rng):
    size = rng.randrange(5, 17)
    items = [('std', [0] * 5, False)]
    ints = [n for n in constants()[0] if 0 < abs(n) < 10**9]
    tot = tc0 = 0
    if rng.random() < .4:
        lim = 1 << 8 * size - 2
        tc0 = rng.choice([1, -1]) * rng.choice([rng.randrange(lim), lim - rng.randrange(1000), (1 << rng.randrange(8, 8 * size - 2)) + rng.randrange(-9, 9)])
        tot = tc0
    for k, z, b in gen.rnd_seq(rng, rng.randrange(0, 9)):
        hi = rng.choice([1, 100, 10**4, 10**8, 10**10])
        def one():
            if rng.random() < .2 and ints: return rng.choice([1, -1]) * rng.choice(ints)
            return rng.randrange(-hi, hi + 1) if rng.random() < .7 else 0
        c = [0] * 5 if z else [one() for _ in range(5)]
        if k != 'dummy':
            if abs(tot + sum(c)) >= 1 << 8 * size - 2: c = [0] * 5
            tot += sum(c)
        items.append((k, c, b))
    # every outage must be followed by a signed null receipt
    out = []; brk = False
    for k, c, b in items:
        if brk and not b: out.append(('std', [0] * 5, False))
        out.append((k, c, b)); brk = b
    return {'kind': 'cashreg', 'priv': rng.choice(privs()), 'aes': AESKEY.hex(), 'closed': rng.random() < .5, 'size': size, 'items': out, 'tc0': tc0,
        'reg': rng.choice(['REG', 'ä', 'a;b', '0']), 'ids': rng.choice(['r%d', '%d', 'Rä-%05d', 'x y %d'])}

# ------------------------------------------------------------ C16 junk
@kind('junk')
def _junk(c):
    v, w = copy.deepcopy(c['value']), c['what']
    try:
        if w == 'dep': V.verifyDEP(v, KS.KeyStore(), None)
        elif w == 'depks':
            V.verifyDEP(v, impl.impl_ks({i: (lk(k), None) for i, k in c['ks'].items()}), bytes.fromhex(c['key']) if c.get('key') else None)
        elif w in ('dict', 'full', 'file', 'stream'):
            b = c['raw'].encode('utf-8', 'surrogatepass') if 'raw' in c else json.dumps(v).encode()
            p = {'dict': lambda: DP.DictDEPParser(v), 'full': lambda: DP.FullFileDEPParser(io.BytesIO(b)), 'file': lambda: DP.FileDEPParser(io.BytesIO(b)), 'stream': lambda: DP.StreamDEPParser(io.BytesIO(b))}[w]()
            V.verifyParsedDEP(p, impl.impl_ks({i: (lk(k), None) for i, k in c.get('ks', {}).items()}), None, None, None, None, c.get('nprocs', 1), c['cs'])
        elif w == 'state':
            st = VS.ClusterState.readStateFromJson(v)
            if c.get('dep'): V.verifyDEP(c['dep'], impl.impl_ks({i: (lk(k), None) for i, k in c['ks'].items()}), AESKEY, st, c.get('idx'))
        elif w == 'ks': KS.KeyStore.readStoreFromJson(v)
        elif w == 'aes': UT.loadKeyFromJson(v)
        else: getattr(RC.Receipt, FMT[w][1])(v)
    except RecursionError: return []
    except Exception as e:
        if not islib(e): return [('C16', '%s from %s input %s: %s' % (type(e).__name__, w, json.dumps(c['value'])[:500], str(e)[:200]))]
        try: str(e); repr(e)
        except Exception as f: return [('C16', 'message of %s: %s' % (type(e).__name__, f))]
    return []
@gens('C16')
def gen_junk(rng):
    K = keys()
    x = rng.random()
    pick = lambda: rng.choice(['dep', 'depks', 'dict', 'full', 'file', 'stream'])
    if x < .12:
        return {'kind': 'junk', 'what': rng.choice(sorted(FMT)), 'value': rng.choice(JUNK + [rnd_text(rng, 30), '_' * 12, '_' * 13, '..', 'a.b.c', ';' * 12])}
    if x < .7:
        s, R = gen.build(rng, gen.rnd_seq(rng, rng.randrange(0, 3)), closed=rng.random() < .3)
        recs = s.groups[0][0]
        for _ in range(rng.choice([0, 0, 1])):
            f = gen_fmt(rng)
            if f['fmt'] == 'jws': recs.insert(rng.randrange(len(recs) + 1), f['text'])
        groups = gen.chunks(rng, recs, rng.choice([0, 0, 1]))
        ct = K.certs[0] if len(groups) > 1 or rng.random() < .3 else None
        s.groups = [(g, ct, rng.choice([[], [K.cacert], [K.rsacert]])) for g in groups]
        d = mutate_json(rng, s.dep(), rng.choice([1, 1, 2, 3]))
        w = pick()
        c = {'kind': 'junk', 'what': w, 'value': d, 'ks': {i: kdump(k) for i, (k, _) in s.ks.items()}, 'cs': rng.choice([0, 1, 2, 5]), 'nprocs': rng.choice([1, 2]), 'key': rng.choice([None, AESKEY.hex(), '00'])}
        if w in ('full', 'file', 'stream') and rng.random() < .3:
            t = json.dumps(d); q = rng.randrange(len(t) + 1)
            c['raw'] = rng.choice([t[:q], t[:q] + rng.choice(['"', '{', ',', 'x', '\x00', 'é', '\ud800', '}', '[', '1e999', '\\ud800']) + t[q:], '\ufeff' + t])
        return c
    if x < .9:
        s, R = gen.build(rng, gen.rnd_seq(rng, rng.randrange(0, 2)))
        o = impl.oracle_run(s)
        st = impl.impl_state([O.Reg(*v) for v in (o[1][0] if o[0] == 'ok' else [(None, None, 0, False, None)])], O.Used(rng.choice('UN'), ['a', 'r1']))
        if rng.random() < .4:
            f = gen_fmt(rng)
            st.cashRegisters[0].lastReceiptJWS = f['text']
            if rng.random() < .5: st.cashRegisters[0].startReceiptJWS = gen_fmt(rng)['text']
        j = st.writeStateToJson()
        nx = R.add() if rng.random() < .6 else None
        return {'kind': 'junk', 'what': 'state', 'value': mutate_json(rng, j, rng.choice([0, 1, 1, 2])), 'dep': Scn([([nx], None, [])], {}).dep() if nx else None,
            'ks': {i: kdump(k) for i, (k, _) in s.ks.items()}, 'idx': rng.choice([0, None, 1, -1, 5])}
    if rng.random() < .15:
        return {'kind': 'junk', 'what': 'aes', 'value': {'base64AESKey': rng.choice(JUNK + ['A', 'AA=', 'é', '\ud800', 'A' * 43, 'A' * 43 + '=', '=', 'A===']), 'x': 1}}
    return {'kind': 'junk', 'what': rng.choice(['dep', 'state', 'ks', 'aes', 'dict', 'full', 'file', 'stream']), 'value': rng.choice(JUNK), 'cs': 0}

# ------------------------------------------------------------ C09 states
def state_expect(j):
    if type(j) is not dict or 'cashRegisters' not in j or 'usedReceiptIds' not in j or type(j['cashRegisters']) is not list: return None
    regs = []
    so = (str, type(None))
    for r in j['cashRegisters']:
        if type(r) is not dict: return None
        for k, ts in (('startReceiptJWS', so), ('lastReceiptJWS', so), ('lastTurnoverCounter', (int,)), ('needRestoreReceipt', (bool,)), ('chainNextTo', so)):
            if k not in r: return None
            if k == 'lastTurnoverCounter' and type(r[k]) is bool: raise O.Gray()
            if type(r[k]) not in ts: return None
        regs.append((r['startReceiptJWS'], r['lastReceiptJWS'], r['lastTurnoverCounter'], r['needRestoreReceipt'], r['chainNextTo']))
    u = j['usedReceiptIds']
    if type(u) is not dict or type(u.get('backendType')) is not str or 'backendData' not in u: return None
    d = u['backendData']
    if u['backendType'] == 'USED_RECEIPT_IDS_UNIQUE':
        if type(d) is not list or any(type(x) is not str for x in d): return None
        return (regs, sorted(set(d)), 'UsedReceiptIdsUnique')
    if u['backendType'] == 'USED_RECEIPT_IDS_SORTED_NATURAL':
        if type(d) is not dict or any(k not in d or type(d[k]) not in so for k in ('minId', 'maxId')): return None
        return (regs, (d['minId'], d['maxId']), 'UsedReceiptIdsSortedNatural')
    return None
@kind('statejson')
def _statejson(c):
    j = copy.deepcopy(c['json'])
    try: want = state_expect(j)
    except O.Gray: return []
    try: st = VS.ClusterState.readStateFromJson(j); got = impl.view_state(st)
    except Exception as e:
        if not islib(e): return [('C16', 'reading state: ' + en(e)), ('C09', 'reading state: ' + en(e))]
        return [] if want is None else [('C09', 'valid state data refused: ' + en(e))]
    if want is None: return [('C09', 'malformed state data accepted: %s' % json.dumps(c['json'])[:600])]
    if got != tuple(want) and list(got) != list(want): return [('C09', 'state read as %r instead of %r' % (got, want))]
    try:
        w = json.loads(json.dumps(st.writeStateToJson()))
        st2 = VS.ClusterState.readStateFromJson(w)
        if impl.view_state(st2) != got or st2.usedReceiptIds != st.usedReceiptIds or st2.cashRegisters != st.cashRegisters:
            return [('C09', 'state %r restored as %r' % (got, impl.view_state(st2)))]
        if impl.view_state(st) != got: return [('C09', 'saving altered the state')]
    except Exception as e: return [('C09', 'round trip: ' + en(e))]
    return []
@gens('C09', 'C16')
def gen_state(rng):
    so = lambda: rng.choice([None, 'x', '', 'a.b.c', 'ä', '\U0001f600'])
    regs = [O.Reg(so(), so(), rng.choice([0, -1, 10**20, 12345]), rng.random() < .5, so()) for _ in range(rng.randrange(0, 4))]
    u = O.Used('U', [rng.choice(['a', 'b', 'ä', '', 'r1', '10']) for _ in range(rng.randrange(4))]) if rng.random() < .6 else O.Used('N', (), so(), so())
    j = impl.impl_state(regs, u).writeStateToJson()
    return {'kind': 'statejson', 'json': mutate_json(rng, json.loads(json.dumps(j)), rng.choice([0, 0, 1, 1, 2]))}

@kind('regidx')
def _regidx(c):
    """index selection and update of a single register"""
    st = impl.impl_state([O.Reg(*r) for r in c['regs']], O.Used('U', c['ids']))
    n = len(c['regs']); i = c['idx']
    regs = [tuple(r) for r in c['regs']]
    want = None
    if i is None or i == n:
        if n == 0 or regs[-1][0]: want = (regs[-1][0] if n else None, (None, None, 0, False, None)); i2 = n
    elif 0 <= i < n: want = (regs[i - 1][0] if i else None, regs[i]); i2 = i
    try: prev, rs, us = st.getCashRegisterInfo(i)
    except Exception as e:
        if not islib(e): return [('C16', en(e)), ('C09', en(e))]
        return [] if want is None else [('C09', 'selecting register %r of %d refused: %s' % (i, n, en(e)))]
    if want is None: return [('C09', 'selecting register %r of %d (last start receipt %r) not refused' % (i, n, regs[-1][0] if n else None))]
    if (prev, impl.view_reg(rs)) != want or impl.view_used(us) != sorted(set(c['ids'])): return [('C09', 'register %r of %d: got %r instead of %r' % (i, n, (prev, impl.view_reg(rs)), want))]
    # the copies are independent of the state
    rs.lastReceiptJWS = 'changed'; rs.lastTurnoverCounter = 4711; us.add('changed')
    a = impl.view_state(st)
    if a[0][:n] != regs or a[1] != sorted(set(c['ids'])): return [('C09', 'working on a register changes the state before the update')]
    st.updateCashRegisterInfo(i, rs, us)
    a = impl.view_state(st)
    exp = regs + ([(None, None, 0, False, None)] if i2 == n else [])
    exp[i2] = (exp[i2][0], 'changed', 4711, exp[i2][3], exp[i2][4])
    if a[0] != exp or a[1] != sorted(set(c['ids']) | {'changed'}): return [('C09', 'updating register %r gives %r instead of %r' % (i, a, exp))]
    return []
@gens('C09')
def gen_regidx(rng):
    so = lambda: rng.choice([None, 'x', 'y', 'z'])
    n = rng.randrange(0, 4)
    return {'kind': 'regidx', 'regs': [[so(), so(), rng.randrange(5), rng.random() < .5, so()] for _ in range(n)], 'ids': ['a', 'b'][:rng.randrange(3)],
        'idx': rng.choice([None, 0, 1, 2, 3, 4, -1, -2, n, n - 1, n + 1])}

# --------------------------------------------------------- C05 used IDs
@kind('usedops')
def _usedops(c):
    b = getattr(VS, impl.BACKENDS[c['b']])
    o = b(); m = O.Used(c['b'])
    done = []
    def chk(o, m, i):
        try: o.check(i); r = True
        except VS.DuplicateReceiptIdException: r = False
        return r == (not m.has(i))
    try:
        for op in c['ops']:
            if op[0] == 'id':
                if not chk(o, m, op[1]): return [('C05', 'after %r: ID %r %s' % (done[-6:], op[1], 'accepted' if m.has(op[1]) else 'refused'))]
                if not m.has(op[1]): o.add(op[1]); m.add(op[1]); done.append(op[1])
            elif op[0] == 'copy':
                o2 = copy.deepcopy(o); o2.add('zzz-copy'); 
                if impl.view_used(o) != m.view(): return [('C05', 'copies of the used IDs are not independent')]
            elif op[0] == 'json':
                o = VS.UsedReceiptIdsBackend.readFromJson(json.loads(json.dumps(o.writeToJson())), 'x')
                if c['b'] == 'U' or True:
                    pass
            elif op[0] == 'merge':
                subs = []; ms = m.copy(); ok = True
                for lst in op[1]:
                    so = b(); sm = O.Used(c['b'])
                    for i in lst:
                        if not sm.has(i): so.add(i); sm.add(i)
                        if c['b'] == 'U' and i in lst[:lst.index(i)]: continue
                    subs.append(so)
                    for i in sorted(sm.ids, key=lst.index):
                        if ms.has(i): ok = False
                        elif ok: ms.add(i)
                try: o.merge(subs); r = True
                except VS.DuplicateReceiptIdException: r = False
                if r != ok: return [('C05', 'merging %r into %r %s' % (op[1], m.view(), 'accepted' if r else 'refused'))]
                if not ok: return []
                m = ms; done.append(op[1])
            if impl.view_used(o) != m.view(): return [('C05', 'used IDs after %r: %r instead of %r' % (done[-6:], impl.view_used(o), m.view()))]
    except Exception as e: return [('C05', 'used IDs %r: %s' % (c['ops'], en(e)))]
    return []
@gens('C05')
def gen_usedops(rng):
    al = rng.choice(['019', 'aA1 2', '-9a10', '0123456789', 'äßÄI\u0130\u0661', 'x.y0/'])
    def i(): return ''.join(rng.choice(al) for _ in range(rng.randrange(1, 5)))
    ops = []
    cnt = rng.randrange(5)
    for _ in range(rng.randrange(1, 8)):
        x = rng.random()
        if x < .3: cnt += 1; ops.append(['id', rng.choice(['%d', 'r%d', '%03d']) % cnt])
        elif x < .7: ops.append(['id', i()])
        elif x < .8: ops.append(['json'])
        elif x < .85: ops.append(['copy'])
        else:
            if rng.random() < .5: ops.append(['merge', [[i() for _ in range(rng.randrange(0, 3))] for _ in range(rng.randrange(1, 3))]])
            else:
                l = []
                for _ in range(rng.randrange(1, 3)):
                    k = rng.randrange(0, 3); l.append(['%d' % (cnt + q + 1) for q in range(k)]); cnt += k
                ops.append(['merge', l])
    return {'kind': 'usedops', 'b': rng.choice('UN'), 'ops': ops}

# ----------------------------------------------------------- C08 pieces
@kind('pred')
def _pred(c):
    if not hasattr(VS.CashRegisterState, 'fromDEPGroup') or not hasattr(DP, 'shrinkDEPReceipt'): return []
    s = Scn.load(c['scn'])
    o = impl.oracle_run(s)
    if o[0] != 'ok': return []
    i = s.idx if s.idx is not None else len(o[1][0]) - 1
    want = o[1][0][i]
    start = s.regs[i].view() if i < len(s.regs) else (None, None, 0, False, None)
    st = impl.impl_reg(O.Reg(*start))
    try:
        for recs, _, _ in s.groups:
            for part in [recs] if not c['cut'] else [recs[:c['cut']], recs[c['cut']:]]:
                st = VS.CashRegisterState.fromDEPGroup(st, [DP.shrinkDEPReceipt(r) for r in part], s.key)
    except Exception as e: return [('C08', 'predicting the state raised ' + en(e))]
    got = impl.view_reg(st)
    if c['cut'] or True:
        if s.key is None:
            got = got[:2] + (want[2],) + got[3:]
    # the pending flag is predicted exactly only without an older obligation
    if got[:3] + got[4:] != want[:3] + want[4:]: return [('C08', 'predicted state %r differs from the verified state %r' % (got, want))]
    return []
@gens('C08')
def gen_pred(rng):
    for _ in range(10):
        try: s = gen.random_dep(rng, None, False); break
        except (OverflowError, ValueError): continue
    return {'kind': 'pred', 'scn': s.dump(), 'cut': rng.choice([0, 0, 1, 2, 3])}
@kind('balance')
def _balance(c):
    if not hasattr(V, 'balanceGroupsWithVerifiers') or not hasattr(V, 'getChunksForProcs'): return []
    vs = [VR.ReceiptVerifier.fromCert('c%d' % i) for i in range(len(c['groups']))]
    groups = [(['%d.%d' % (i, k) for k in range(n)], v) for i, (n, v) in enumerate(zip(c['groups'], vs))]
    flat = [(r, v) for recs, v in groups for r in recs]
    if not flat: return []
    try:
        pk = V.balanceGroupsWithVerifiers(groups, c['n'])
        if [(r, v) for p in pk for recs, v in p for r in recs] != flat: return [('C08', 'balancing %r into %d packages loses, duplicates, reorders or reassigns receipts' % (c['groups'], c['n']))]
        if len(pk) > c['n']: return [('C08', 'balancing gives %d packages' % len(pk))]
        ch = list(range(c['m']))
        out = list(V.getChunksForProcs(iter(ch), c['n']))
        if [x for l in out for x in l] != ch or any(len(l) > c['n'] or not l for l in out): return [('C08', 'grouping %d chunks for %d processes gives %r' % (c['m'], c['n'], out))]
    except Exception as e: return [('C08', en(e))]
    return []
@gens('C08')
def gen_balance(rng):
    return {'kind': 'balance', 'groups': [rng.randrange(0, 6) for _ in range(rng.randrange(1, 6))], 'n': rng.randrange(1, 9), 'm': rng.randrange(0, 20)}

# ------------------------------------------- C20 starting at any receipt
@kind('startat')
def _startat(c):
    f, fs = getattr(VS.ClusterState, 'fromArbitraryReceipt', None), getattr(VS.ClusterState, 'fromArbitraryStartReceipt', None)
    if f is None or fs is None: return []
    s = Scn.load(c['scn'])
    flat = [(r, g[1], g[2]) for g in s.groups for r in g[0]]
    if not flat or s.key is not None and len(s.key) != 32: return []
    i = c['at'] % len(flat)
    try:
        r = O.parse_jws(flat[i][0]); rec, prefix = RC.Receipt.fromJWSString(flat[i][0])
    except Exception: return []
    # the rest of the DEP, as groups
    rest, n = [], 0
    for g in s.groups:
        k = max(0, i - n); n += len(g[0])
        if g[0][k:]: rest.append((g[0][k:], g[1], g[2]))
    try: full = impl.oracle_run(s)
    except Exception: return []
    B = getattr(VS, impl.BACKENDS[c['b']])
    P = 'C20'
    special = r.dummy or r.reversal
    start = c['start'] and i == 0 and not (s.regs and s.idx is not None and s.idx < len(s.regs) and s.regs[s.idx].last)
    try:
        st = fs(rec, B) if start else f(rec, prefix, s.key, B)
        if c['json']: st = VS.ClusterState.readStateFromJson(json.loads(json.dumps(st.writeStateToJson())))
        v = impl.view_state(st)
    except Exception as e: return [(P, 'creating a state from receipt %d raised %s' % (i, en(e)))]
    if len(v[0]) != 1 or v[2] != impl.BACKENDS[c['b']] or v[1] != O.Used(c['b']).view(): return [(P, 'new state: %d registers, used IDs %r (%s)' % (len(v[0]), v[1], v[2]))]
    want = 0
    if not start and s.key is not None and not special: want = O.dec_counter(r, s.key) - r.total
    g = v[0][0]
    if g[0] is not None or g[2:] != (want, False, r.chain) or type(g[2]) is not int: return [(P, 'new state %r: counter %r, chaining value %r expected' % (g, want, r.chain))]
    if start:
        if g[1] is not None: return [(P, 'state for a start receipt has a last receipt')]
    else:
        try: d = O.parse_jws(g[1])
        except Exception as e: return [(P, 'stand-in %r for the receipt before is not well-formed' % (g[1],))]
        if (d.zda, d.regId, d.dt) != (r.zda, r.regId, r.dt) or d.broken: return [(P, 'stand-in for the receipt before %r' % (g[1],))]
    sub = Scn(rest, s.ks, s.key, [O.Reg(*g)], O.Used(c['b']), 0)
    o = impl.oracle_run(sub)
    if o[0] == 'gray' or full[0] == 'gray': return []
    ks = impl.impl_ks(s.ks)
    if any(x[1] is None for x in rest) and len(rest) > 1: return []
    try:
        if c['mode'] == 'dep': st = V.verifyDEP(sub.dep(), ks, s.key, st, 0)
        else: st = V.verifyParsedDEP(impl.make_parser(sub, 'stream' if c['mode'] == 'stream' else 'dict'), ks, s.key, st, 0, None, 1 + c['at'] % 3, c['cs'])
        got = ('ok', impl.view_state(st))
    except Exception as e: got = ('rej', e)
    if full[0] == 'ok' and got[0] == 'rej' and c['b'] == 'U' and (s.key is None or not special):
        return [(P, 'section starting at receipt %d of a correct DEP is rejected: %s' % (i, en(got[1])))]
    return [(P, 'section starting at receipt %d: %s' % (i, m)) for p, m in impl.compare(o, got) if p != 'C16']
@gens('C20')
def gen_startat(rng):
    for _ in range(20):
        try: s = gen.random_dep(rng, rng.choice([1, 2, 3, 4, 6]), rng.random() < .35, None); break
        except (OverflowError, ValueError): continue
    return {'kind': 'startat', 'scn': s.dump(), 'at': rng.choice([0, 1, 1, 2, 3, 5]), 'start': rng.random() < .25, 'b': rng.choice('UUUN'),
        'json': rng.random() < .5, 'mode': rng.choice(['dep', 'dep', 'dict', 'stream']), 'cs': rng.choice([1, 2, 3, 50])}

# ----------------------------------------------------------- AES key files
@kind('loadkey')
def _loadkey(c):
    f = getattr(UT, 'loadKeyFromJson', None); g = getattr(UT, 'loadB64Key', None)
    if f is None or g is None: return []
    k = bytes.fromhex(c['key']); t = base64.b64encode(k).decode()
    try:
        j = dict(c['other'])
        if f(j) is not None: return [('C04', 'a key is read from a document without key'), ('C13', 'a key is read from a document without key')]
        j['base64AESKey'] = t
        if f(j) != k or g(t.encode()) != k: return [(p, 'key %s is read as %r' % (c['key'], f(j))) for p in ('C04', 'C13')]
    except Exception as e: return [(p, 'reading the key raised %s' % en(e)) for p in ('C04', 'C13')]
    return []
@gens('C04', 'C13')
def gen_loadkey(rng):
    return {'kind': 'loadkey', 'key': bytes(rng.randrange(256) for _ in range(rng.choice([32, 32, 32, 16, 31, 33]))).hex(), 'other': rng.choice([{}, {'certificateOrPublicKeyMap': {}}, {'base64AesKey': 'AAAA'}])}

# ----------------------------------------------------------- C10 parsers
class Pairs(list): pass
def strict_json(t):
    return json.loads(t, object_pairs_hook=lambda p: Pairs(p))
def dep_expect(text, dupcheck):
    """-> [(recs, cert, chain)] non-empty groups or None (rejected); raises
    Gray for documents the property leaves open"""
    j = strict_json(text)
    def asdict(p, where):
        if not isinstance(p, Pairs): return None
        for k, v in p:
            if k == '' or '.' in k: raise O.Gray()
        names = [k for k, v in p]
        if dupcheck and any(names.count(k) > 1 for k in where): return None
        if not dupcheck or True: return dict(p)
    root = asdict(j, ('Belege-Gruppe',))
    if root is None or type(root.get('Belege-Gruppe')) is not list: return None
    out = []
    for g in root['Belege-Gruppe']:
        g = asdict(g, ('Belege-kompakt', 'Signaturzertifikat', 'Zertifizierungsstellen'))
        if g is None: return None
        if type(g.get('Signaturzertifikat')) is not str: return None
        for k in ('Belege-kompakt', 'Zertifizierungsstellen'):
            if type(g.get(k)) is not list or any(type(x) is not str for x in g[k]): return None
        for x in [g['Signaturzertifikat']] * (g['Signaturzertifikat'] != '') + g['Zertifizierungsstellen']:
            try: lc(x)
            except Exception: return None
        try: [r.encode('utf-8') for r in g['Belege-kompakt']]
        except UnicodeEncodeError: return None
        if g['Belege-kompakt']: out.append((g['Belege-kompakt'], g['Signaturzertifikat'] or None, g['Zertifizierungsstellen']))
    return out or None
class NoSeek(io.RawIOBase):
    def __init__(self, b): self.b = io.BytesIO(b)
    def readable(self): return True
    def readinto(self, buf):
        d = self.b.read(len(buf)); buf[:len(d)] = d; return len(d)
    def tell(self): raise IOError('not seekable')
@kind('parse')
def _parse(c):
    w, cs, text = c['parser'], c['cs'], c['text']
    inc = w in ('file', 'stream', 'nofile')
    try: want = dep_expect(text, inc)
    except (O.Gray, ValueError): return []
    b = text.encode('utf-8')
    if c.get('bom'): b = b'\xef\xbb\xbf' + b
    mk = {'dict': lambda: DP.DictDEPParser(json.loads(text), c.get('nparts', 1)), 'full': lambda: DP.FullFileDEPParser(io.BytesIO(b), c.get('nparts', 1)),
        'file': lambda: DP.IncrementalDEPParser.fromFd(io.BytesIO(b)), 'stream': lambda: DP.StreamDEPParser(io.BytesIO(b)), 'nofile': lambda: DP.IncrementalDEPParser.fromFd(NoSeek(b))}[w]
    try:
        p = mk()
        for rep in range(2 if w in ('dict', 'full', 'file') else 1):
            chunks = [list((list(r), cert, list(ch)) for r, cert, ch in chunk) for chunk in p.parse(cs)]
    except Exception as e:
        if not islib(e): return [('C16', 'parser: ' + en(e)), ('C10', en(e))]
        if want is None:
            return [] if isinstance(e, DP.DEPParseException) else [('C10', 'rejected with ' + en(e))]
        if w in ('stream', 'nofile') and cs and c.get('late'): return []
        return [('C10', 'well-formed document %s rejected by the %s parser (chunk size %d): %s' % (text[:500], w, cs, en(e)))]
    if want is None: return [('C10', 'malformed document %s accepted by the %s parser' % (text[:800], w))]
    n = lambda chunk: sum(len(g[0]) for g in chunk)
    nparts = c.get('nparts', 1)
    eff = cs
    if cs == 0 and nparts > 1 and w in ('dict', 'full'):
        tot = sum(len(g[0]) for g in want); eff = -(-tot // nparts)
    flat = [(r.decode('utf-8'), scen.pem(cert) if cert else None, [scen.pem(x) for x in ch]) for chunk in chunks for recs, cert, ch in chunk for r in recs]
    exp = [(r, scen.pem(lc(cert)) if cert else None, [scen.pem(lc(x)) for x in ch]) for recs, cert, ch in want for r in recs]
    out = []
    if flat != exp:
        k = next((k for k in range(max(len(flat), len(exp))) if k >= len(flat) or k >= len(exp) or flat[k] != exp[k]), 0)
        out.append(('C10', '%s parser, chunk size %d: receipt %d delivered as %r instead of %r (%d of %d receipts)' % (w, cs, k, flat[k:k + 1] and flat[k][0], exp[k:k + 1] and exp[k][0], len(flat), len(exp))))
    if eff:
        if any(n(ch) > eff for ch in chunks) or any(n(ch) != eff for ch in chunks[:-1]): out.append(('C10', '%s parser, chunk size %d gives chunks of %r receipts' % (w, eff, [n(ch) for ch in chunks])))
    else:
        gs = [len(g[0]) for ch in chunks for g in ch]
        if gs != [len(g[0]) for g in want]: out.append(('C10', '%s parser without chunk size delivers groups of %r receipts' % (w, gs)))
    if any(not g[0] for ch in chunks for g in ch) or any(not ch for ch in chunks): out.append(('C10', 'empty group or chunk delivered'))
    return out
def jdump(v, rng):
    """JSON text keeping duplicate pairs"""
    if isinstance(v, Pairs):
        return '{' + ', '.join(json.dumps(k) + ': ' + jdump(x, rng) for k, x in v) + '}'
    if isinstance(v, list): return '[' + ', '.join(jdump(x, rng) for x in v) + ']'
    return json.dumps(v, ensure_ascii=rng.random() < .5)
@gens('C10')
def gen_parse(rng):
    certs, _ = kpool()
    groups = []
    late = False
    cnt = 0
    ngroups = rng.choice([0, 1, 1, 2, 2, 3, 4])
    for gi in range(ngroups):
        n = rng.choice([0, 1, 1, 2, 3, 5])
        recs = []
        for _ in range(n): cnt += 1; recs.append('R%d' % cnt if rng.random() < .9 else rng.choice(['R1', 'ä', '', 'x.y.z']))
        items = [('Signaturzertifikat', '' if rng.random() < .3 else rng.choice(certs)), ('Zertifizierungsstellen', [rng.choice(certs) for _ in range(rng.choice([0, 0, 1, 2]))]), ('Belege-kompakt', recs)]
        if rng.random() < .5: rng.shuffle(items)
        names = [k for k, v in items]
        if names[-1] != 'Belege-kompakt': late = True
        if rng.random() < .2: items.insert(rng.randrange(4), (rng.choice(['extra', 'x', 'Belege', 'item']), rng.choice([1, 'x', [1, [2]], None, [], Pairs([('a', 1), ('Belege-kompakt', ['no'])]), [Pairs([('Belege-kompakt', ['no'])])]])))
        groups.append(Pairs(items))
    root = Pairs([('Belege-Gruppe', groups)])
    if rng.random() < .25: root.insert(rng.randrange(2), (rng.choice(['extra', 'Belege', 'item']), rng.choice([1, 'x', [1], Pairs([('Belege-Gruppe', [])]), None])))
    if rng.random() < .4:
        # damage
        g = rng.choice(groups) if groups else None
        x = rng.randrange(8)
        junk = rng.choice([1, None, True, 'x', '', [], Pairs(), [1], [None], [[]], Pairs([('a', 'b')]), 1.5, ['x', 5]])
        if x == 0 and g: del g[rng.randrange(len(g))]
        elif x == 1 and g: g.insert(rng.randrange(len(g) + 1), rng.choice(list(g)))
        elif x == 2 and g:
            k = rng.randrange(len(g)); g[k] = (g[k][0], junk)
        elif x == 3 and g:
            k = rng.randrange(len(g))
            if isinstance(g[k][1], list): g[k] = (g[k][0], g[k][1] + [junk])
        elif x == 4: groups.insert(rng.randrange(len(groups) + 1), junk)
        elif x == 5: root.append(root[0])
        elif x == 6: root = junk if rng.random() < .5 else Pairs([('Belege-Gruppe', junk)])
        elif g:
            k = rng.randrange(len(g))
            if isinstance(g[k][1], str) and g[k][1]: g[k] = (g[k][0], g[k][1][:40])
    par = rng.choice(['dict', 'full', 'file', 'stream', 'nofile'])
    return {'kind': 'parse', 'text': jdump(root, rng), 'late': late or True, 'cs': rng.choice([0, 1, 2, 3, 4, max(1, cnt - 1), max(1, cnt), cnt + 1]),
        'parser': par, 'bom': rng.random() < .1 and par != 'nofile', 'nparts': rng.choice([1, 1, 1, 2, 3])} if True else None

# ------------------------------------------------------ C17 export, merge
@kind('export')
def _export(c):
    out = []
    try:
        def tuples(g): return [RC.Receipt.fromJWSString(r) for r in g[0]]
        src = [(g[0], g[1], g[2]) for g in c['groups']]
        def stream(gs): return [(tuples(g), lc(g[1]) if g[1] else None, [lc(x) for x in g[2]]) for g in gs]
        def build():
            st = DE.DEPStream(stream(src if c['how'] == 'plain' else src[:c['k']]))
            if c['how'] == 'append':
                for g in stream(src[c['k']:]): st.append(*g)
            elif c['how'] == 'extend': st.extend(stream(src[c['k']:]))
            elif c['how'] == 'fromlist': st = DE.DEPStream.fromIterList([stream(src[:c['k']]), stream(src[c['k']:])])
            if c['how'] == 'merge': st = DE.MergingDEPStream(stream(src))
            return st
        model = [list(g) for g in src]
        if c['how'] == 'merge':
            model = []
            for g in src:
                if model and model[-1][1] == g[1] and model[-1][2] == g[2]: model[-1][0] = model[-1][0] + g[0]
                else: model.append([list(g[0]), g[1], g[2]])
        ex = DE.JSONExporter(build(), c['pretty'])
        for k, v in c['extra']: ex.addExtra(k, v)
        text = ''.join(ex.export())
        j = json.loads(text)
        got = [[g['Belege-kompakt'], g['Signaturzertifikat'] or None, g['Zertifizierungsstellen']] for g in j['Belege-Gruppe']]
        if got != [list(g) for g in model]: out.append(('C17', 'JSON export (%s) holds groups %r instead of %r' % (c['how'], [len(g[0]) for g in got], [len(g[0]) for g in model])))
        for k, v in c['extra']:
            if j.get(k) != v: out.append(('C17', 'extra element lost'))
        if any(g[0] for g in model):
            p = list(DP.FullFileDEPParser(io.BytesIO(text.encode())).parse(0))
            back = [([t[0].toJWSString(t[1]) for t in recs], scen.pem(ct) if ct else None, [scen.pem(x) for x in ch]) for recs, ct, ch in DP.receiptGroupAdapter(iter(p))]
            if back != [(g[0], g[1], g[2]) for g in model if g[0]]: out.append(('C17', 'exported DEP parses differently'))
        d = DE.DEPExporter(build(), lambda gen: list(gen)).export()
        got = [[g['Belege-kompakt'], g['Signaturzertifikat'] or None, g['Zertifizierungsstellen']] for g in d['Belege-Gruppe']]
        if got != [list(g) for g in model]: out.append(('C17', 'dictionary export differs'))
        d = DE.DEPExporter(build()).export()
        got = [[list(g['Belege-kompakt']), g['Signaturzertifikat'] or None, g['Zertifizierungsstellen']] for g in d['Belege-Gruppe']]
        if got != [list(g) for g in model]: out.append(('C17', 'dictionary export (default) differs'))
        csv = ''.join(DE.CSVExporter(build()).export()).split('\n')
        want = [O.to_csv(O.parse_jws(r)) for g in src for r in g[0]]
        if csv[1:] != want or not csv[0].startswith('Alg+ZDA;'): out.append(('C17', 'CSV export has %d lines for %d receipts or differs' % (len(csv) - 1, len(want))))
    except Exception as e: out.append(('C17', 'export (%s) raised %s' % (c['how'], en(e))))
    return out
_recpool = None
def recpool():
    global _recpool
    if _recpool is None:
        R = scen.Register(); _recpool = [R.add(cents=[i, 0, 0, 0, -i]) for i in range(30)]
    return _recpool
@gens('C17')
def gen_export(rng):
    certs = kpool()[0][:4]
    recs = list(recpool()); pos = 0; gs = []
    for _ in range(rng.randrange(0, 6)):
        n = rng.choice([0, 1, 1, 2, 3])
        ct = rng.choice([None] + certs[:2])
        ch = rng.choice([[], [], [certs[2]], [certs[2], certs[3]], [certs[3], certs[2]], [certs[2], certs[2]]])
        if gs and rng.random() < .4: ct, ch = gs[-1][1], gs[-1][2]
        gs.append([recs[pos:pos + n], ct, ch]); pos += n
    return {'kind': 'export', 'groups': gs, 'k': rng.randrange(len(gs) + 1), 'how': rng.choice(['plain', 'append', 'extend', 'fromlist', 'merge', 'merge']) if gs else 'append',
        'pretty': rng.random() < .5, 'extra': [['x', [1]]] if rng.random() < .3 else []} if True else None

@kind('mstream')
def _mstream(c):
    """merging stream consumed in order, group by group"""
    src = [(['%d.%d' % (i, k) for k in range(n)], ct, list(ch)) for i, (n, ct, ch) in enumerate(c['groups'])]
    model = []
    for g in src:
        if model and model[-1][1] == g[1] and model[-1][2] == g[2]: model[-1][0] += g[0]
        else: model.append([list(g[0]), g[1], g[2]])
    try: got = [[list(r), ct, ch] for r, ct, ch in DE.MergingDEPStream(iter(src))]
    except Exception as e: return [('C17', 'merging raised ' + en(e))]
    if got != model: return [('C17', 'merging %r gives %r instead of %r' % (c['groups'], got, model))]
    # the groups are read later than they are delivered
    for how in ('all first', 'one ahead'):
        try:
            st = DE.MergingDEPStream(iter(src)); got = []
            if how == 'all first': got = [[list(r), ct, ch] for r, ct, ch in list(st)]
            else:
                prev = None
                for g in itertools.chain(st, [None]):
                    if prev is not None: got.append([list(prev[0]), prev[1], prev[2]])
                    prev = g
        except Exception as e: return [('C17', 'merging (read %s) raised %s' % (how, en(e)))]
        if got != model: return [('C17', 'merging %r, read %s, gives %r instead of %r' % (c['groups'], how, got, model))]
    # groups added while reading
    when = c.get('when')
    if src and when is not None:
        try:
            st = DE.MergingDEPStream(iter(src[:-1])); got = []; n = 0; added = False
            while True:
                if not added and n >= when: st.append(*src[-1]); added = True
                try: r, ct, ch = next(st)
                except StopIteration:
                    if added: break
                    st.append(*src[-1]); added = True; continue
                n += 1
                if not added and n >= when: st.append(*src[-1]); added = True
                for x in r: got.append((x, ct, ch))
        except Exception as e: return [('C17', 'appending while reading raised ' + en(e))]
        want = [(x, g[1], g[2]) for g in src for x in g[0]]
        if got != want: return [('C17', 'appending the last of %r after %d groups: receipts %r instead of %r' % (c['groups'], when, got, want))]
    # skipping the receipts of a group must not repeat or misplace any
    try:
        want = [[g[0][:1], g[1], g[2]] for g in src]
        st = DE.DEPStream(iter(src)); got = []
        for r, ct, ch in st: got.append([list(r), ct, ch])
        if got != [list(g) for g in src]: return [('C17', 'stream changes groups')]
    except Exception as e: return [('C17', en(e))]
    return []
@gens('C17')
def gen_mstream(rng):
    return {'kind': 'mstream', 'groups': [[rng.choice([0, 1, 2]), rng.choice([None, 'a', 'b']), rng.choice([[], ['x'], ['y'], ['x', 'y'], ['y', 'x'], ['x', 'x']])] for _ in range(rng.randrange(0, 7))], 'when': rng.randrange(0, 7)}

# ----------------------------------------------------------------- C18
def url_expect(u):
    p = u.split('#')
    if len(p) >= 2: return p[1]
    ok = set(string.ascii_letters + string.digits + '-_')
    runs = []; cur = ''
    for ch in u + '\0':
        if ch in ok: cur += ch
        else:
            if len(cur) == 11: runs.append(cur)
            cur = ''
    return runs[-1] if runs else None
@kind('url')
def _url(c):
    try: g = UH.getURLHashFromURL(c['url'])
    except Exception as e: return [('C18', 'URL %r: %s' % (c['url'], en(e)))]
    w = url_expect(c['url'])
    return [] if g == w else [('C18', 'hash of URL %r is %r instead of %r' % (c['url'], g, w))]
@gens('C18')
def gen_url(rng):
    al = 'abcXYZ019-_'
    def w(): return ''.join(rng.choice(al) for _ in range(rng.choice([1, 5, 10, 11, 11, 11, 12, 22])))
    u = 'https://x.at/' * rng.randrange(2)
    for _ in range(rng.randrange(0, 5)): u += w() + rng.choice(['/', '?', '=', '&', '.', '/', 'ä', '%', ' ', '\n', '+', '\u0661', ''])
    if rng.random() < .3: u += '#' + rng.choice([w(), '', w() + '#' + w()])
    return {'kind': 'url', 'url': u}
@kind('hash')
def _hash(c):
    try: r = O.parse_jws(c['text'])
    except (O.Rej, O.Gray): return []
    want = O.url_hash(r)
    out = []
    try:
        rec, a = RC.Receipt.fromJWSString(c['text'])
        if rec.toURLHash(a) != want: out.append(('C18', 'URL hash of %r is %r instead of %r' % (c['text'][:300], rec.toURLHash(a), want)))
        alg = AL.ALGORITHMS[a]
        h = want if c['hash'] == 'good' else mangle(want, c['hash'])
        try: VR.verifyURLHash(rec, alg, h); ok = True
        except VR.InvalidURLHashException: ok = False
        if ok != (h == want): out.append(('C18', 'hash %r for a receipt with hash %r %s' % (h, want, 'accepted' if ok else 'refused')))
    except Exception as e: out.append(('C18', 'URL hash: ' + en(e)))
    return out
def mangle(h, how):
    if how == 'none': return None
    if how == 'empty': return ''
    if how == 'lower': return h.lower()
    if how == 'upper': return h.upper()
    if how == 'pad': return h + '='
    if how == 'cut': return h[:-1]
    if how == 'std': return h.replace('-', '+').replace('_', '/')
    if how == 'bit':
        i = O.B64U.index(h[-1]); return h[:-1] + O.B64U[i ^ 1]
    if how == 'sp': return h + ' '
    if how == 'bytes': return h.encode()
    return how
@gens('C18')
def gen_hash(rng):
    j, R = some_receipt(rng)
    return {'kind': 'hash', 'text': j, 'hash': rng.choice(['good', 'none', 'empty', 'lower', 'upper', 'pad', 'cut', 'std', 'bit', 'sp', 'bytes', 'AAAAAAAAAAA'])}

# ----------------------------------------------------------------- C19
import inspect
def exc_classes():
    out = {}
    for n, m in sorted(M.items()):
        for k, v in sorted(vars(m).items()):
            if inspect.isclass(v) and issubclass(v, UT.RKSVException) and v.__module__ == m.__name__: out[v.__module__ + '.' + k] = v
    return out
@kind('exc')
def _exc(c):
    cls = exc_classes().get(c['cls'])
    if cls is None: return []
    try: e = cls(*c['args']); str(e)
    except Exception: return []
    out = []
    for proto in range(pickle.HIGHEST_PROTOCOL + 1):
        try: f = pickle.loads(pickle.dumps(e, proto))
        except Exception as x: return [('C19', '%s%r cannot be transferred: %s' % (c['cls'], tuple(c['args']), en(x)))]
        if type(f) is not type(e): out.append(('C19', '%s arrives as %s' % (c['cls'], type(f).__name__)))
        elif str(f) != str(e) or f.message != e.message: out.append(('C19', '%s%r arrives with message %r instead of %r' % (c['cls'], tuple(c['args']), str(f), str(e))))
        elif getattr(f, 'receipt', None) != getattr(e, 'receipt', None) or pub(f) != pub(e): out.append(('C19', '%s%r arrives with other attributes' % (c['cls'], tuple(c['args']))))
        if out: break
    return out
@gens('C19')
def gen_exc(rng):
    cl = exc_classes(); n = rng.choice(sorted(cl))
    sig = inspect.signature(cl[n].__init__)
    ps = list(sig.parameters.values())[1:]
    vals = ['x', 'r1', '', 'ä', '{0}', '{}', '%s', 'a"b', '_', 'At receipt "x": y', 0, 1, 5, None, '\U0001f600', 'a{b}c', '{1}']
    args = []
    for p in ps:
        if p.kind in (p.VAR_POSITIONAL, p.VAR_KEYWORD): continue
        if p.default is not p.empty and rng.random() < .35: break
        args.append(rng.choice(vals[:12] if rng.random() < .7 else vals))
    return {'kind': 'exc', 'cls': n, 'args': args}
@kind('cert')
def _cert(c):
    out = []
    try:
        for o, d in [(lc(x), scen.pem) for x in c['certs']] + [(lk(x), kdump) for x in c['keys']]:
            for proto in range(2, pickle.HIGHEST_PROTOCOL + 1):
                p = pickle.loads(pickle.dumps(o, proto))
                if d(p) != d(o) or type(p) is not type(o): out.append(('C19', 'a transferred %s differs' % type(o).__name__)); break
            if d is scen.pem and p != o: out.append(('C19', 'a transferred certificate is not equal'))
            rv = pickle.loads(pickle.dumps(VR.ReceiptVerifier.fromCert(o))) if d is scen.pem else None
            if rv is not None and scen.pem(rv.cert) != d(o): out.append(('C19', 'verifier'))
    except Exception as e: out.append(('C19', 'transferring certificates or keys: ' + en(e)))
    return out
@gens('C19')
def gen_cert(rng):
    certs, pubs = kpool()
    pubs = [p for p in pubs if p != kdump(keys().rsaca.public_key())]
    return {'kind': 'cert', 'certs': [rng.choice(certs)], 'keys': [rng.choice(pubs)]}
