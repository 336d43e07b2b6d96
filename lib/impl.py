"""Drives the real code and compares it with the reference semantics."""
import io, json, traceback, copy
from . import env, oracle as O, scen
M = env.mods()
V, VS, KS, DP, RC, VR, UT = (M['verify'], M['verification_state'], M['key_store'],
    M['depparser'], M['receipt'], M['verify_receipt'], M['utils'])

EXC2PROP = {}
for p, names in {
    'C01': 'InvalidSignatureException NoPublicKeyException CertSerialMismatchException',
    'C02': 'UntrustedCertificateException CertificateChainBrokenException CertificateSerialCollisionException NoCertificateGivenException',
    'C03': 'ChainingException InvalidChainingOnInitialReceiptException InvalidChainingOnClusterInitialReceiptException',
    'C04': 'InvalidTurnoverCounterException InvalidKeyException',
    'C05': 'DuplicateReceiptIdException',
    'C06': 'NonzeroTurnoverOnInitialReceiptException NonstandardTypeOnInitialReceiptException SignatureSystemFailedOnInitialReceiptException ChangingRegisterIdException ChangingSystemTypeException DecreasingDateException ClusterInOpenSystemException',
    'C07': 'NoRestoreReceiptAfterSignatureSystemFailureException',
    'C09': 'NoStartReceiptForLastCashRegisterException InvalidCashRegisterIndexException',
    'C10': 'DEPParseException MalformedDEPException MissingDEPElementException MalformedDEPElementException DuplicateDEPElementException',
    'C11': 'MalformedReceiptException UnknownAlgorithmException AlgorithmMismatchException CertSerialInvalidException InvalidCertificateProviderException ReceiptParseException',
}.items():
    for n in names.split(): EXC2PROP[n] = p
TAG2PROP = {'parse': 'C11', 'sig': 'C01', 'cert': 'C02', 'chain': 'C03', 'turnover': 'C04', 'key': 'C04',
    'dup': 'C05', 'start': 'C06', 'cont': 'C06', 'restore': 'C07'}
BACKENDS = {'U': 'UsedReceiptIdsUnique', 'N': 'UsedReceiptIdsSortedNatural'}

def islib(e):
    if not isinstance(e, UT.RKSVException): return False
    try: str(e); repr(e)
    except Exception: return False
    return True

def impl_ks(ks):
    s = KS.KeyStore()
    for i, (k, c) in ks.items(): s.putKey(i, k, c)
    return s

BTYPES = {'U': 'USED_RECEIPT_IDS_UNIQUE', 'N': 'USED_RECEIPT_IDS_SORTED_NATURAL'}
def impl_used(u):
    """built through the public JSON form"""
    data = sorted(u.ids) if u.b == 'U' else {'minId': u.lo, 'maxId': u.hi}
    return VS.UsedReceiptIdsBackend.readFromJson({'backendType': BTYPES[u.b], 'backendData': data}, 'used')
def impl_reg(r):
    o = VS.CashRegisterState()
    o.startReceiptJWS, o.lastReceiptJWS, o.lastTurnoverCounter, o.needRestoreReceipt, o.chainNextTo = r.view()
    return o
def impl_state(regs, used):
    s = VS.ClusterState(getattr(VS, BACKENDS[used.b]))
    s.cashRegisters = [impl_reg(r) for r in regs]
    s.usedReceiptIds = impl_used(used)
    return s
def view_reg(o): return (o.startReceiptJWS, o.lastReceiptJWS, o.lastTurnoverCounter, o.needRestoreReceipt, o.chainNextTo)
def view_used(o):
    d = o.writeToJson()['backendData']
    return sorted(d) if isinstance(d, list) else (d['minId'], d['maxId'])
def view_state(s): return ([view_reg(r) for r in s.cashRegisters], view_used(s.usedReceiptIds), type(s.usedReceiptIds).__name__)

class FakePool(object):
    """in-process stand-in for a process pool: arguments and results are
    pickled like in a real one, work runs in a chosen order"""
    def __init__(self, order=None): self.order = order
    def map_async(self, f, args):
        import pickle
        args = [pickle.loads(pickle.dumps(a)) for a in args]
        idx = list(range(len(args)))
        if self.order == 'rev': idx.reverse()
        res = [None] * len(args); err = None
        for i in idx:
            try: res[i] = pickle.loads(pickle.dumps(f(args[i])))
            except Exception as e:
                if err is None: err = pickle.loads(pickle.dumps(e))
        class R(object):
            def get(self, *a):
                if err is not None: raise err
                return res
        return R()
    def map(self, f, args): return self.map_async(f, args).get()

class Scn(object):
    """groups: [(list of JWS strings, cert or None, chain certs)]"""
    def __init__(self, groups, ks, key=None, regs=(), used=None, idx=None, note=''):
        self.groups, self.ks, self.key, self.idx, self.note = groups, ks, key, idx, note
        self.regs = [r.copy() for r in regs]
        self.used = used.copy() if used else O.Used('U')
        self.hints = {}
    def dep(self):
        return {'Belege-Gruppe': [{'Signaturzertifikat': scen.pem(c) if c else '',
            'Zertifizierungsstellen': [scen.pem(x) for x in ch], 'Belege-kompakt': list(rs)}
            for rs, c, ch in self.groups]}
    def dump(self):
        return {'dep': self.dep(), 'keystore': {i: [scen.kpem(k), scen.pem(c) if c else None] for i, (k, c) in self.ks.items()},
            'aeskey': self.key.hex() if isinstance(self.key, bytes) else None, 'registers': [r.view() for r in self.regs],
            'used': [self.used.b, sorted(self.used.ids), self.used.lo, self.used.hi], 'register_index': self.idx, 'note': self.note}
    @staticmethod
    def load(d):
        def lc(s): return UT.loadCert(UT.addPEMCertHeaders(s))
        groups = [(g['Belege-kompakt'], lc(g['Signaturzertifikat']) if g['Signaturzertifikat'] else None,
            [lc(c) for c in g['Zertifizierungsstellen']]) for g in d['dep']['Belege-Gruppe']]
        ks = {i: (UT.loadPubKey(UT.addPEMPubKeyHeaders(k)), lc(c) if c else None) for i, (k, c) in d['keystore'].items()}
        b, ids, lo, hi = d['used']
        return Scn(groups, ks, bytes.fromhex(d['aeskey']) if d['aeskey'] is not None else None,
            [O.Reg(*r) for r in d['registers']], O.Used(b, ids, lo, hi), d['register_index'], d['note'])

def oracle_run(s):
    """('ok', view) | ('rej', tags, info) | ('gray',)"""
    regs = [r.copy() for r in s.regs]
    used = s.used.copy()
    try:
        i = s.idx
        if i is None or i == len(regs):
            if regs and not regs[-1].start: raise O.Rejs({'index'}, 'no start receipt')
            regs.append(O.Reg()); i = len(regs) - 1
        if not 0 <= i < len(regs): raise O.Rejs({'index'})
        prevStart = regs[i - 1].start if i else None
        groups = [g for g in s.groups if g[0]]
        if not groups: raise O.Rejs({'dep'}, 'no receipts')
        O.verify_groups(groups, s.ks, s.key, regs[i], used, prevStart)
        return ('ok', ([r.view() for r in regs], used.view(), BACKENDS[used.b]))
    except O.Rejs as e: return ('rej', e.tags, e.info)
    except O.Gray: return ('gray',)

def make_parser(s, kind):
    d = s.dep()
    if kind == 'dict': return DP.DictDEPParser(d)
    b = json.dumps(d).encode('utf-8')
    if kind == 'full': return DP.FullFileDEPParser(io.BytesIO(b))
    if kind == 'file': return DP.IncrementalDEPParser.fromFd(io.BytesIO(b))
    return DP.StreamDEPParser(io.BytesIO(b))

def impl_run(s, mode=('dep',)):
    """mode: ('dep',) | ('parsed', parser, chunksize, nprocs, pool) |
    ('parts', [sizes], json?)  -> ('ok', view) | ('rej', exc)"""
    st = impl_state(s.regs, s.used)
    ks = impl_ks(s.ks)
    backend = type(st.usedReceiptIds)
    try:
        if mode[0] == 'dep':
            st = V.verifyDEP(s.dep(), ks, s.key, st, s.idx)
        elif mode[0] == 'parsed':
            _, parser, cs, np_, pool = mode
            st = V.verifyParsedDEP(make_parser(s, parser), ks, s.key, st, s.idx,
                FakePool(None if pool != 'rev' else 'rev') if pool else None, np_, cs)
        elif mode[0] == 'parts':
            idx = s.idx
            if idx is None: idx = len(s.regs)
            for part in split_parts(s.groups, mode[1]):
                sub = Scn(part, s.ks)
                st = V.verifyDEP(sub.dep(), ks, s.key, st, idx)
                if mode[2]:
                    st = VS.ClusterState.readStateFromJson(json.loads(json.dumps(st.writeStateToJson())))
        return ('ok', view_state(st))
    except RecursionError: raise
    except Exception as e:
        return ('rej', e)

def split_parts(groups, sizes):
    """cuts the receipts of a DEP into consecutive portions"""
    out = []; cur = []; it = iter(sizes); n = next(it, 10**9)
    for rs, c, ch in groups:
        rs = list(rs)
        while rs:
            take, rs = rs[:n], rs[n:]
            cur.append((take, c, ch)); n -= len(take)
            if n == 0: out.append(cur); cur = []; n = next(it, 10**9)
    if cur: out.append(cur)
    return out

FIELDPROP = ['C09', 'C03', 'C04', 'C07', 'C03']
def compare(o, i):
    """-> list of (property or None, message); None: belongs to whatever
    property is being checked"""
    if o[0] == 'gray': return []
    if o[0] == 'rej' and i[0] == 'rej':
        return [] if islib(i[1]) else [('C16', 'internal error %s: %s' % (type(i[1]).__name__, i[1]))]
    if o[0] == 'rej':
        ps = sorted({TAG2PROP.get(t) for t in o[1]} - {None}) or [None]
        return [(p, 'accepted, but must be rejected (%s; %s)' % (sorted(o[1]), o[2])) for p in ps]
    if i[0] == 'rej':
        n = type(i[1]).__name__
        out = [(EXC2PROP.get(n), 'valid input rejected with %s: %s' % (n, i[1])), ('C15', 'valid DEP rejected with %s: %s' % (n, i[1]))]
        if not islib(i[1]): out.append(('C16', 'internal error %s: %s' % (n, i[1])))
        return out
    out = []
    a, b = o[1], i[1]
    if a == b: return out
    if len(a[0]) != len(b[0]): return [('C09', 'number of registers %d instead of %d' % (len(b[0]), len(a[0])))]
    for k, (x, y) in enumerate(zip(a[0], b[0])):
        for f, (u, v) in enumerate(zip(x, y)):
            if u != v or type(u) != type(v):
                out.append((FIELDPROP[f], 'register %d: %s is %r instead of %r' % (k, ['start receipt', 'last receipt', 'turnover', 'pending restore', 'initial chaining value'][f], v, u)))
                out.append(('C08', out[-1][1])); out.append(('C09', out[-1][1]))
    if a[1] != b[1]: out.append(('C05', 'used receipt IDs %r instead of %r' % (b[1], a[1])))
    if a[2] != b[2]: out.append(('C09', 'bookkeeping %s instead of %s' % (b[2], a[2])))
    return out
