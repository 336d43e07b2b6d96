"""Builds real, signed receipts, groups, key stores and states for the
concrete cross-check and for replaying counterexamples."""
import base64, datetime, hashlib, random, itertools, ast, os, glob
from cryptography import x509
from cryptography.hazmat.backends import default_backend
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import ec, rsa, ed25519
from cryptography.hazmat.primitives.asymmetric.utils import decode_dss_signature
from cryptography.hazmat.primitives.serialization import Encoding, PublicFormat
from cryptography.x509.oid import NameOID
from . import oracle as O
from .env import REPO

def newkey(kind='p256'):
    if kind == 'p256': return ec.generate_private_key(ec.SECP256R1(), default_backend())
    if kind == 'p384': return ec.generate_private_key(ec.SECP384R1(), default_backend())
    if kind == 'rsa': return rsa.generate_private_key(65537, 2048, default_backend())
    if kind == 'ed': return ed25519.Ed25519PrivateKey.generate()

def mkcert(pub, serial, signer, cn='x', issuer=None, alg='default'):
    n = x509.Name([x509.NameAttribute(NameOID.COMMON_NAME, cn)])
    b = x509.CertificateBuilder().subject_name(n).issuer_name(issuer.subject if issuer else n)
    b = b.not_valid_before(datetime.datetime(2015, 1, 1)).not_valid_after(datetime.datetime(2040, 1, 1))
    b = b.serial_number(serial).public_key(pub)
    if isinstance(signer, ed25519.Ed25519PrivateKey): h = None
    else: h = hashes.SHA256() if alg == 'default' else alg
    return b.sign(signer, h, default_backend())

class Keys(object):
    """a small fixed pool of key material per run"""
    def __init__(self):
        self.k = [newkey() for _ in range(4)]
        self.ca = newkey(); self.ca2 = newkey()
        self.rsaca = newkey('rsa')
        self.cacert = mkcert(self.ca.public_key(), 0xca, self.ca, 'ca')
        self.ca2cert = mkcert(self.ca2.public_key(), 0xcb, self.ca, 'ca2', self.cacert)
        self.rsacert = mkcert(self.rsaca.public_key(), 0xcc, self.rsaca, 'rsa')
        self.serials = [0x1a2b3c, 12345678, 0xabcdef0123456789, 0x77]
        self.certs = [mkcert(k.public_key(), s, self.ca, 'c%d' % i, self.cacert)
            for i, (k, s) in enumerate(zip(self.k, self.serials))]
        # same serial, different certificate
        self.evil = [mkcert(self.k[3].public_key(), s, self.ca, 'e', self.cacert) for s in self.serials]
KEYS = None
def keys():
    global KEYS
    if KEYS is None: KEYS = Keys()
    return KEYS

def pem(c):
    return ''.join(c.public_bytes(Encoding.PEM).decode().splitlines()[1:-1])
def kpem(k):
    return ''.join(k.public_bytes(Encoding.PEM, PublicFormat.SubjectPublicKeyInfo).decode().splitlines()[1:-1])

def euros(c):
    s = '-' if c < 0 else ''
    c = abs(c)
    return '%s%d,%02d' % (s, c // 100, c % 100)

def sign(payload, key, header=O.HEADER):
    h = O.b64u(header.encode()); p = O.b64u(payload.encode('utf-8'))
    if key is None: return O.FAILSIG
    r, s = decode_dss_signature(key.sign((h + '.' + p).encode(), ec.ECDSA(hashes.SHA256())))
    return O.b64u(r.to_bytes(32, 'big') + s.to_bytes(32, 'big'))

def mkjws(fields, key, zda, alg='R1', header=O.HEADER, sig=None):
    """fields: dict of the 11 payload fields"""
    f = [fields[k] for k in ('regId', 'recId', 'dt', 'sA', 'sB', 'sC', 'sD', 'sE', 'enc', 'serial', 'chain')]
    payload = '_%s-%s_%s' % (alg, zda, '_'.join(f))
    s = sig if sig is not None else sign(payload, key, header)
    return '.'.join([O.b64u(header.encode()), O.b64u(payload.encode('utf-8')), s])

BASE = datetime.datetime(2017, 1, 1, 10, 0, 0)
AESKEY = bytes(range(32))

class Register(object):
    """Independent generator of receipt chains (not the repository's)."""
    def __init__(self, regId='REG-1', closed=False, size=8, key=AESKEY, sigkey=0,
            serialfmt='hex', keyId='U:ATU12345678', idfmt=None, start=BASE, zda=None):
        self.regId, self.closed, self.size, self.key = regId, closed, size, key
        self.si = sigkey; self.serialfmt = serialfmt; self.keyId = keyId
        self.n = 0; self.total = 0; self.last = None; self.t = start
        self.idfmt = idfmt or (lambda n: 'r%d' % n)
        self.zda = zda or ('AT0' if closed else 'AT1')
    def serial(self):
        if self.closed: return self.keyId
        s = keys().serials[self.si]
        return {'hex': '%x' % s, 'HEX': '%X' % s, 'dec': '%d' % s, '-hex': '-%x' % s, '0hex': '000%x' % s}[self.serialfmt]
    def add(self, kind='std', cents=(0, 0, 0, 0, 0), broken=False, chainto=None, delta=60, pre=None, post=None, tcoff=0, recId=None, key='own', force=None, total=None):
        """kind: std | dummy | reversal.  pre(fields) may alter the payload
        fields before signing, post(jws) the text afterwards."""
        self.n += 1
        self.t += datetime.timedelta(seconds=delta)
        f = dict(regId=self.regId, recId=recId or self.idfmt(self.n), dt=self.t.strftime('%Y-%m-%dT%H:%M:%S'),
            serial=self.serial())
        for k, c in zip('ABCDE', cents): f['s' + k] = euros(c)
        if kind != 'dummy': self.total += sum(cents)
        zda = self.zda
        f['chain'] = O.chainval(chainto if chainto is not None else (self.last or self.regId))
        f['enc'] = None
        f['zda'] = zda
        if pre: pre(f)
        zda = f.pop('zda')
        if f['enc'] is None:
            if kind == 'dummy': ct = b'TRA'
            elif kind == 'reversal': ct = b'STO'
            else:
                v = self.total + tcoff if total is None else total
                try: pt = v.to_bytes(self.size, 'big', signed=True)
                except OverflowError: pt = (v % (1 << 8 * self.size)).to_bytes(self.size, 'big')
                ct = O.ctr(self.key, O.iv(f['regId'], f['recId']), pt)
            f['enc'] = base64.b64encode(ct).decode()
        j = mkjws(f, None if broken else (keys().k[self.si] if key == 'own' else key), zda)
        if post: j = post(j)
        self.last = j
        return j

def keystore(closed, keyId='U:ATU12345678', si=(0,)):
    """dict id -> (key, cert)"""
    K = keys()
    if closed: return {keyId: (K.k[si[0]].public_key(), None)}
    return {'%x' % K.serials[i]: (K.k[i].public_key(), K.certs[i]) for i in si}

_consts = None
def constants():
    """integers and strings occurring in the code under test: candidate
    boundary values for generated inputs"""
    global _consts
    if _consts is None:
        ints, strs = set(), set()
        for f in sorted(glob.glob(os.path.join(REPO, 'librksv', '*.py'))):
            try: tree = ast.parse(open(f, encoding='utf-8').read())
            except (SyntaxError, OSError): continue
            docs = set()
            for n in ast.walk(tree):
                if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant): docs.add(id(n.value))
            for n in ast.walk(tree):
                if isinstance(n, ast.Constant) and id(n) not in docs:
                    if isinstance(n.value, int) and not isinstance(n.value, bool): ints.add(n.value)
                    elif isinstance(n.value, float) and n.value == int(n.value) and abs(n.value) < 1e30: ints.add(int(n.value))
                    elif isinstance(n.value, str) and len(n.value) <= 40: strs.add(n.value)
                    elif isinstance(n.value, bytes) and len(n.value) <= 40: strs.add(n.value.decode('latin-1'))
                elif isinstance(n, ast.BinOp):
                    try: v = eval(compile(ast.Expression(n), '?', 'eval'), {'__builtins__': {}})
                    except Exception: continue
                    if isinstance(v, int) and abs(v) < 10**60: ints.add(v)
        _consts = (sorted(ints), sorted(strs))
    return _consts
