"""Executable reference semantics, written from the property statements only.
Uses the cryptography package directly and imports nothing from /repo."""
import base64, hashlib, re, datetime, json
from cryptography.hazmat.backends import default_backend
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import ec, rsa, padding
from cryptography.hazmat.primitives.asymmetric.utils import encode_dss_signature
from cryptography.hazmat.primitives.ciphers import Cipher, algorithms as calg, modes
from cryptography.exceptions import InvalidSignature

HEADER = '{"alg":"ES256"}'
FAIL = 'Sicherheitseinrichtung ausgefallen'

def b64u(b):
    return base64.urlsafe_b64encode(b).decode().replace('=', '')
FAILSIG = b64u(FAIL.encode())

class Rej(Exception):
    def __init__(self, tag, info=''):
        Exception.__init__(self, tag, info); self.tag = tag; self.info = info
class Gray(Exception):
    """behaviour deliberately left open by the property"""

B64 = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
B64U = B64[:-2] + '-_'
B32 = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ234567'

def bdecode(s, alphabet, bits=6, maxpad=3):
    """Decodes; None if undecodable; raises Gray for excess padding."""
    d = s.rstrip('=')
    p = len(s) - len(d)
    if any(c not in alphabet for c in d) or p > maxpad:
        return None
    n = len(d)
    if bits == 6:
        need = {0: 0, 1: None, 2: 2, 3: 1}[n % 4]
    else:
        need = {0: 0, 2: 6, 4: 4, 5: 3, 7: 1}.get(n % 8)
    if need is None or p < need:
        return None
    if p > need:
        raise Gray()
    v = 0
    for c in d:
        v = v << bits | alphabet.index(c)
    nb = n * bits // 8
    return (v >> (n * bits - nb * 8)).to_bytes(nb, 'big')

def b64dec(s): return bdecode(s, B64)
def b64udec(s):
    """unpadded url-safe Base64, padding restored first (up to 3 characters)"""
    if s.endswith('='): return None
    n = len(s)
    return bdecode(s + '=' * (-n % 4), B64U)

SUM = re.compile(r'-?(0|[1-9][0-9]*|[0-9]),[0-9][0-9]')
ZDA = re.compile(r'[A-Z][A-Z][1-9][0-9]*|AT0')
def cents(s): return int(s.replace(',', ''))

def isint(s, base):
    try: int(s, base); return True
    except ValueError: return False

def serial_kind(s):
    """'key' (closed), 'serial' (open) or None"""
    if not s: return None
    if s[0] == '-' and '-' not in s[1:]:
        s = s[1:]
    parts = s.split('-')
    if len(parts) > 2 or (len(parts) == 2 and not parts[1].isalnum()):
        return None
    b = parts[0]
    t = b[2:]
    if b[:2] == 'S:' and len(b) == 11 and t.isdigit(): return 'key'
    if b[:2] == 'U:' and 3 <= len(b) <= 16 and t.isalnum() and t == t.upper(): return 'key'
    if b[:2] == 'G:' and len(b) == 15 and t.isdigit(): return 'key'
    if isint(b, 16) or isint(b, 10): return 'serial'
    return None

class Rec(object): pass

def mkrec(alg, zda, rest, signature, header):
    """rest: the 11 fields after the provider; checks common to all formats"""
    r = Rec()
    (r.regId, r.recId, r.dt, r.sA, r.sB, r.sC, r.sD, r.sE, r.enc, r.serial, r.chain) = rest
    r.sums = rest[3:8]
    r.alg, r.zda, r.sig, r.header = alg, zda, signature, header
    if not r.enc.replace('=', ''): raise Rej('parse', 'counter')
    if not r.recId or '_' in r.recId: raise Rej('parse', 'recid')
    if not ZDA.fullmatch(zda): raise Rej('parse', 'zda')
    if not r.regId or '_' in r.regId: raise Rej('parse', 'regid')
    try: r.date = datetime.datetime.strptime(r.dt, '%Y-%m-%dT%H:%M:%S')
    except ValueError: raise Rej('parse', 'date')
    gray = False
    for s in r.sums:
        if not SUM.fullmatch(s): raise Rej('parse', 'sum')
        if len(s) > 300: gray = True
    def dec(s, what):
        nonlocal gray
        try: v = b64dec(s)
        except Gray:
            gray = True
            return b'\0' * 8
        if v is None: raise Rej('parse', what)
        return v
    ct = dec(r.enc, 'counter')
    cv = dec(r.chain, 'chain')
    k = serial_kind(r.serial)
    if k is None: raise Rej('parse', 'serial')
    if (k == 'serial') == (zda == 'AT0'): raise Rej('parse', 'provider')
    r.dummy = ct == b'TRA'; r.reversal = ct == b'STO'
    r.ct = ct
    if not (r.dummy or r.reversal) and not gray and not 5 <= len(ct) <= 16: raise Rej('parse', 'counter size')
    if not gray and len(cv) != 8: raise Rej('parse', 'chain size')
    if b64udec(signature) is None: raise Rej('parse', 'signature')
    if gray: raise Gray()
    r.null = all(cents(s) == 0 for s in r.sums)
    r.total = sum(cents(s) for s in r.sums)
    r.broken = signature == FAILSIG
    r.payload = '_%s-%s_%s' % (alg, zda, '_'.join(rest))
    r.jws = '.'.join([b64u(header.encode()), b64u(r.payload.encode('utf-8')), signature])
    return r

def utf8(s):
    try: s.encode('utf-8')
    except UnicodeEncodeError: raise Rej('parse', 'surrogate')

def split_payload(p, n, what):
    segs = p.split('_')
    if len(segs) != n or segs[0] != '': raise Rej('parse', what + ' elements')
    az = segs[1].split('-')
    if len(az) != 2: raise Rej('parse', 'alg')
    if not re.fullmatch('R[1-9][0-9]*', az[0]): raise Rej('parse', 'alg')
    if az[0] != 'R1': raise Rej('parse', 'unknown alg')
    return az[0], az[1], segs[2:]

def parse_jws(s):
    utf8(s)
    segs = s.split('.')
    if len(segs) != 3: raise Rej('parse', 'segments')
    if any(x.endswith('=') for x in segs): raise Rej('parse', 'padding')
    h = b64udec(segs[0]); p = b64udec(segs[1])
    if h is None or p is None: raise Rej('parse', 'b64')
    try: h = h.decode('utf-8'); p = p.decode('utf-8')
    except UnicodeDecodeError: raise Rej('parse', 'utf8')
    a, z, rest = split_payload(p, 13, 'payload')
    if h != HEADER: raise Rej('parse', 'header')
    return mkrec(a, z, rest, segs[2], h)

def parse_basic(s):
    utf8(s)
    a, z, rest = split_payload(s, 14, 'code')
    sig = b64dec(rest[-1])
    if sig is None: raise Rej('parse', 'signature')
    return mkrec(a, z, rest[:-1], b64u(sig), HEADER)

def parse_csv(s):
    return parse_basic('_' + '_'.join(x.strip() for x in s.split(';')))

def parse_ocr(s):
    utf8(s)
    segs = s.split('_')
    if len(segs) != 14 or segs[0]: raise Rej('parse', 'elements')
    for i in (10, 12, 13):
        v = bdecode(segs[i], B32, 5, 7)
        if v is None: raise Rej('parse', 'b32')
        segs[i] = base64.b64encode(v).decode()
    return parse_basic('_'.join(segs))

def to_basic(r): return r.payload + '_' + base64.b64encode(b64udec(r.sig)).decode()
def to_csv(r): return to_basic(r)[1:].replace('_', ';')
def to_ocr(r):
    s = to_basic(r).split('_')
    for i in (10, 12, 13):
        s[i] = base64.b32encode(b64dec(s[i])).decode()
    return '_'.join(s)
def url_hash(r):
    return b64u(hashlib.sha256(to_basic(r).encode('utf-8')).digest()[:8])

def es256_ok(jws, key):
    h, p, s = jws.split('.')
    if not isinstance(key, ec.EllipticCurvePublicKey) or key.curve.name != 'secp256r1': return False
    sig = b64udec(s)
    if sig is None or len(sig) != 64: return False
    try:
        key.verify(encode_dss_signature(int.from_bytes(sig[:32], 'big'), int.from_bytes(sig[32:], 'big')),
            (h + '.' + p).encode(), ec.ECDSA(hashes.SHA256()))
        return True
    except InvalidSignature:
        return False

def serial_ids(s):
    """key IDs a textual certificate serial may denote"""
    if s[:1] == '-': s = s[1:]
    return ['%x' % int(s, b) for b in (16, 10) if isint(s, b)]

def find_key(r, ks, cert):
    """ks: dict id -> (key, cert).  Returns key or raises Rej('sig')."""
    if r.zda == 'AT0':
        return cert.public_key() if cert else ks.get(r.serial, (None,))[0]
    ids = serial_ids(r.serial)
    if cert:
        if '%x' % abs(cert.serial_number) not in ids: raise Rej('sig', 'serial mismatch')
        return cert.public_key()
    for i in ids:
        if ks.get(i, (None,))[0]: return ks[i][0]
    return None

def receipt_status(r, ks, cert):
    """'signed' | 'failed' | 'failednull'; raises Rej('sig')"""
    key = find_key(r, ks, cert)
    if r.broken:
        return 'failednull' if r.null and not r.dummy and not r.reversal else 'failed'
    if key is None: raise Rej('sig', 'no key')
    if not es256_ok(r.jws, key): raise Rej('sig', 'bad signature')
    return 'signed'

def fp(c): return c.fingerprint(hashes.SHA256())
def signed_by(c, issuer):
    try: k = issuer.public_key()
    except Exception: return False
    try:
        if isinstance(k, ec.EllipticCurvePublicKey):
            k.verify(c.signature, c.tbs_certificate_bytes, ec.ECDSA(c.signature_hash_algorithm))
        elif isinstance(k, rsa.RSAPublicKey):
            k.verify(c.signature, c.tbs_certificate_bytes, padding.PKCS1v15(), c.signature_hash_algorithm)
        else: return False
        return True
    except InvalidSignature: return False
    except Exception: return False

def trust(cert, chain, ks):
    cur = cert
    for nxt in list(chain) + [None]:
        st = ks.get('%x' % abs(cur.serial_number), (None, None))[1]
        if st is not None:
            if fp(st) != fp(cur): raise Rej('cert', 'collision')
            return
        if nxt is None: raise Rej('cert', 'untrusted')
        if not signed_by(cur, nxt): raise Rej('cert', 'broken chain')
        cur = nxt

def iv(reg, rec): return hashlib.sha256((reg + rec).encode('utf-8')).digest()[:16]
def ctr(key, ivb, data):
    e = Cipher(calg.AES(key), modes.CTR(ivb), backend=default_backend()).encryptor()
    return e.update(data) + e.finalize()
def dec_counter(r, key):
    return int.from_bytes(ctr(key, iv(r.regId, r.recId), r.ct), 'big', signed=True)

def natkey(s):
    out = []
    for i, t in enumerate(re.split('([0-9]+)', s)):
        if i % 2: t = t.lstrip('0'); out.append((len(t), t))
        else: out.append(t.lower())
    return out

class Used(object):
    def __init__(self, backend='U', ids=None, lo=None, hi=None):
        self.b = backend; self.ids = set(ids or ()); self.lo = lo; self.hi = hi
    def copy(self): return Used(self.b, self.ids, self.lo, self.hi)
    def has(self, i):
        if self.b == 'U': return i in self.ids
        return self.hi is not None and not natkey(self.hi) < natkey(i)
    def add(self, i):
        self.ids.add(i)
        if self.lo is None: self.lo = i
        self.hi = i
    def view(self):
        return sorted(self.ids) if self.b == 'U' else (self.lo, self.hi)

class Reg(object):
    def __init__(self, start=None, last=None, turnover=0, need=False, nxt=None):
        self.start, self.last, self.turnover, self.need, self.nxt = start, last, turnover, need, nxt
    def copy(self): return Reg(self.start, self.last, self.turnover, self.need, self.nxt)
    def view(self): return (self.start, self.last, self.turnover, self.need, self.nxt)

def chainval(text): return base64.b64encode(hashlib.sha256(text.encode('utf-8')).digest()[:8]).decode()

def step(reg, used, jws, ks, cert, key, prevStart):
    """Verifies one receipt against the register state; mutates reg/used on
    success, otherwise raises Rejs(tags)."""
    try: r = parse_jws(jws)
    except Rej as e: raise Rejs({'parse'}, e.info)
    tags = set()
    try: st = receipt_status(r, ks, cert)
    except Rej as e: raise Rejs({e.tag}, e.info)
    prev = parse_jws(reg.last) if reg.last else None
    first = prev is None
    pure = r.null and not r.dummy and not r.reversal
    need = reg.need
    if st == 'signed':
        if not first and not pure:
            if need: tags.add('restore')
            if prev.broken: need = True
        else:
            need = False
    else:
        if first: tags.add('start')
        if need: tags.add('restore')
    chainto = reg.last
    start = reg.start
    if first:
        if not pure: tags.add('start')
        if prevStart:
            prev = parse_jws(prevStart)
            chainto = prevStart
            if r.zda != 'AT0' or prev.zda != 'AT0': tags.add('cont')
        start = jws
    if used.has(r.recId): tags.add('dup')
    if prev:
        if prev.regId != r.regId: tags.add('cont')
        if (prev.zda == 'AT0') != (r.zda == 'AT0'): tags.add('cont')
        if prev.date > r.date: tags.add('cont')
    want = reg.nxt or chainval(chainto or r.regId)
    if want != r.chain: tags.add('chain')
    turnover = reg.turnover
    if key is not None and not r.dummy:
        if not isinstance(key, bytes) or len(key) != 32: raise Rejs(tags | {'key'})
        turnover += r.total
        if not r.reversal and dec_counter(r, key) != turnover: tags.add('turnover')
    if tags: raise Rejs(tags, r.recId)
    reg.start, reg.last, reg.turnover, reg.need, reg.nxt = start, jws, turnover, need, None
    used.add(r.recId)

class Rejs(Exception):
    def __init__(self, tags, info=''):
        Exception.__init__(self, sorted(tags), info); self.tags = set(tags); self.info = info

def verify_groups(groups, ks, key, reg, used, prevStart):
    """groups: [(receipts, cert, chain)].  Mutates reg and used."""
    if len(groups) > 1 and any(not c for _, c, _ in groups): raise Rejs({'cert'}, 'no certificate')
    for recs, cert, chain in groups:
        if cert:
            try: trust(cert, chain, ks)
            except Rej as e: raise Rejs({e.tag}, e.info)
        for r in recs:
            step(reg, used, r, ks if not cert else {}, cert, key, prevStart)
