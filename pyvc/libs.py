"""Models of the external libraries /repo imports (trusted base, see
models.TRUSTED).  Modules are reflected from the installed ones: exception and
type names, constants and submodules are themselves; functions and classes not
modelled here make the obligation undecided when called."""
import importlib, types, base64, binascii, collections, collections.abc, copy, datetime, enum, itertools, math, re, inspect
from fractions import Fraction
from .core import *
from .interp import *
from . import lang as L
from . import models as MD
from .seq import Seq
from . import seq as seqmod

FUNCS, CONS = {}, {}
def func(*names):
    def d(f):
        for n in names: FUNCS[n] = f
        return f
    return d
def cons(*names):
    def d(f):
        for n in names: CONS[n] = f
        return f
    return d
def pyname(t): return '%s.%s' % (t.__module__, t.__qualname__)

class LazyNS(dict):
    def __init__(self, M, I, name, mod): self.M, self.I, self.name, self.mod = M, I, name, mod
    def get(self, n, default=None):
        if n in self: return dict.get(self, n)
        v = member(self.M, self.I, self.name, n)
        if v is MISSING: return default
        self[n] = v
        return v
_real = {}
def real(name):
    if name not in _real:
        try: _real[name] = importlib.import_module(name)
        except ImportError: _real[name] = None
    return _real[name]
def module(M, I, name):
    if name not in M.libs:
        m = ModuleVal(name)
        m.ns = LazyNS(M, I, name, None)
        M.libs[name] = m
    return M.libs[name]
def member(M, I, mod, name):
    f = FUNCS.get(mod + '.' + name)
    if f is not None: return Builtin(mod + '.' + name, f)
    rm = real(mod)
    if rm is None: return Builtin(mod + '.' + name, unsup(mod + '.' + name))
    if not hasattr(rm, name):
        if real(mod + '.' + name) is not None: return module(M, I, mod + '.' + name)
        return MISSING
    v = getattr(rm, name)
    if isinstance(v, types.ModuleType): return module(M, I, v.__name__)
    return conv(I, v, mod + '.' + name)
def conv(I, v, label):
    if isinstance(v, type):
        return I.pyclass(v)
    if v is None or isinstance(v, (bool, int, float, str, bytes)): return v
    if isinstance(v, tuple): return tuple(conv(I, x, label) for x in v)
    if inspect.isroutine(v):
        n = '%s.%s' % (getattr(v, '__module__', None), getattr(v, '__qualname__', ''))
        f = FUNCS.get(n)
        return Builtin(label, f if f is not None else unsup(label))
    return MD.Ext('lib', name=label, real=v)
def unsup(n):
    def f(I, a, k): raise Unsupported('library function ' + n)
    return f

# ------------------------------------------------------------ classes
# kinds of opaque values that are objects without length or truth value of their own
OBJECTS = {'cert', 'pubkey', 'privkey', 'name', 'algobj', 'datetime'}
def opaque_class(M, I, v):
    t = {'datetime': datetime.datetime, 'timedelta': datetime.timedelta}.get(v.kind)
    if t: return I.pyclass(t)
    if v.kind == 'pubkey':
        from cryptography.hazmat.primitives.asymmetric import ec
        raise Unsupported('class of public key')
    if v.kind not in OBJECTS: raise Unsupported('class of ' + v.kind)
    return _ocls(I, v.kind)
_oc = {}
def _ocls(I, kind):
    if kind not in _oc: _oc[kind] = type('Opaque_' + kind, (), {})
    return I.pyclass(_oc[kind])
def isinstance_hook(M, I, v, cs):
    if isinstance(v, Opaque) and v.kind == 'pubkey':
        kk = F('keykind', 'A>I')(v.t)
        r = []
        for c in cs:
            n = c.py.__name__ if c.py else ''
            if n == 'EllipticCurvePublicKey': r.append(kk == 0)
            elif n == 'RSAPublicKey': r.append(kk == 1)
        return mkbool(disj(r))
    if isinstance(v, Opaque) and v.kind == 'cert':
        return any(c.py is not None and c.py.__name__ in ('Certificate', 'object') for c in cs)
    if isinstance(v, MD.Ext) and getattr(v, 'pytypes', None) is not None:
        return any(c.py in v.pytypes for c in cs)
    return None
def class_attr(M, I, c, n):
    for k in c.mro:
        if k.py is None: continue
        f = FUNCS.get('%s.%s' % (pyname(k.py), n)) or FUNCS.get('%s.%s.%s' % (k.py.__module__.split('.')[0], k.py.__name__, n))
        if f is not None: return Builtin(n, f)
        if k.py in (str, bytes, dict, list, set, int):
            m = getattr(M, 'm_%s_%s' % (k.py.__name__, n), None)
            if m is not None: return Builtin('%s.%s' % (k.py.__name__, n), m)
        if n in k.py.__dict__:
            v = k.py.__dict__[n]
            if isinstance(v, (bool, int, str, bytes, float, type(None), tuple)): return v
            if isinstance(v, k.py) and not isinstance(v, type): return MD.Ext('lib', name='%s.%s' % (pyname(k.py), n), real=v)
            if k.py is object or k.py is BaseException or k.py is Exception: return MISSING
            return Builtin('%s.%s' % (pyname(k.py), n), unsup('%s.%s' % (pyname(k.py), n)))
    return MISSING
def construct(M, I, c, a, k):
    f = CONS.get(pyname(c.py)) or CONS.get(c.py.__name__) if c.py.__module__.split('.')[0] in ('cryptography', 'jwt', 'collections', 'datetime', 'itertools', 'json') else CONS.get(pyname(c.py))
    if f is None: return MISSING
    return f(I, [x for x in a], k)
def opaque_binop(M, I, op, a, b):
    if isinstance(a, Opaque) and isinstance(b, Opaque) and a.kind == b.kind == 'datetime' and op == 'Sub':
        ts = F('ts', 'A>I')
        return Opaque('timedelta', ts(a.t) - ts(b.t))
    return None
def attr(M, I, o, n):
    if isinstance(o, Opaque):
        f = ATTR.get((o.kind, n))
        if f is not None: return f(I, o)
        m = METH.get((o.kind, n))
        if m is not None: return Builtin('%s.%s' % (o.kind, n), lambda I, a, k: m(I, o, a, k))
        raise Unsupported('attribute %s of %s' % (n, o.kind))
    if isinstance(o, MD.Ext):
        m = METH.get((o.kind, n))
        if m is not None: return Builtin('%s.%s' % (o.kind, n), lambda I, a, k: m(I, o, a, k))
        if n in o.__dict__ and n not in ('kind',): return o.__dict__[n]
        if o.kind == 'lib':
            if hasattr(o.real, n): return conv(I, getattr(o.real, n), o.name + '.' + n)
            return MISSING
        raise Unsupported('attribute %s of %s' % (n, o.kind))
    if isinstance(o, Builtin):
        raise Unsupported('attribute of %s' % o.name)
    if o is NotImplemented or isinstance(o, (MD.SetList, Range)): raise Unsupported('attribute %s' % n)
    if hasattr(o, 'm_' + n): return Builtin(n, lambda I, a, k: getattr(o, 'm_' + n)(I, a, k))
    raise Unsupported('attribute %s of %r' % (n, o))
ATTR, METH = {}, {}
def meth(kind, *names):
    def d(f):
        for n in names: METH[(kind, n)] = f
        return f
    return d
def oattr(kind, n):
    def d(f): ATTR[(kind, n)] = f; return f
    return d

# ------------------------------------------------------------ base64
def needbytes(I, v):
    v = I.models.force(I, v)
    if not isbytes(v): raise I.exc(TypeError, 'a bytes-like object is required')
    return v
def needdata(I, v):
    v = I.models.force(I, v)
    if not (isbytes(v) or isstr(v)): raise I.exc(TypeError, 'argument should be a bytes-like object or ASCII string')
    return v
def one(a, k):
    if len(a) != 1 or k: raise Unsupported('base64 arguments')
    return a[0]
@func('base64.b64encode', 'base64.standard_b64encode')
def _(I, a, k): return MD.B64E(I.ctx, needbytes(I, one(a, k)), 'std')
@func('base64.urlsafe_b64encode')
def _(I, a, k): return MD.B64E(I.ctx, needbytes(I, one(a, k)), 'url')
@func('base64.b64decode', 'base64.standard_b64decode')
def _(I, a, k): return MD.B64D(I, needdata(I, one(a, k)), 'std')
@func('base64.urlsafe_b64decode')
def _(I, a, k): return MD.B64D(I, needdata(I, one(a, k)), 'url')
@func('base64.b32encode')
def _(I, a, k): return MD.B32E(I.ctx, needbytes(I, one(a, k)))
@func('base64.b32decode')
def _(I, a, k): return MD.B32D(I, needdata(I, one(a, k)))

# ------------------------------------------------------------ re
@func('re.compile')
def _(I, a, k):
    p = I.ctx.conc(a[0]) if I.ctx else a[0]
    fl = a[1] if len(a) > 1 else k.get('flags', 0)
    if not isinstance(p, (str, bytes)): raise Unsupported('symbolic pattern')
    if isinstance(fl, MD.Ext): fl = int(fl.real)
    return MD.Ext('regex', pattern=p, flags=fl, rx=re.compile(p, fl))
def rxmatch(mode):
    def f(I, o, a, k):
        v = I.models.force(I, a[0])
        if len(a) > 1 or k: raise Unsupported('regex arguments')
        if isinstance(o.pattern, str) != isstr(v):
            raise I.exc(TypeError, 'expected string or bytes-like object')
        cv = I.ctx.conc(v)
        if cv is not None:
            m = getattr(o.rx, mode)(cv)
            return MD.Ext('match', m=m) if m is not None else None
        p = o.pattern if isinstance(o.pattern, str) else o.pattern.decode('latin-1')
        try: d = L.from_regex(p, o.flags, mode if mode != 'fullmatch' else 'full')
        except Exception as e: raise Unsupported('regular expression %r: %s' % (p, e))
        return MD.Ext('match', m=None) if I.ctx.member(v, d, 'match %s' % p) else None
    return f
for _m in ('match', 'fullmatch', 'search'):
    METH[('regex', _m)] = rxmatch(_m)
    def _mk(_m):
        def f(I, a, k):
            return METH[('regex', _m)](I, FUNCS['re.compile'](I, [a[0]] + list(a[2:]), k), [a[1]], {})
        return f
    FUNCS['re.' + _m] = _mk(_m)
@meth('match', 'group')
def _(I, o, a, k):
    if o.m is None: raise Unsupported('match group')
    return o.m.group(*a)
@meth('match', 'groups')
def _(I, o, a, k):
    if o.m is None: raise Unsupported('match groups')
    return o.m.groups()
class Matches(object):
    """all matches of a pattern in a symbolic text: number and last one"""
    pytype = list
@meth('regex', 'findall')
def _(I, o, a, k):
    cv = I.ctx.conc(a[0])
    if cv is not None: return list(o.rx.findall(cv))
    c = I.ctx
    t = c.term(a[0])
    if o.pattern != '(?<![A-Za-z0-9_-])[A-Za-z0-9_-]{11}(?![A-Za-z0-9_-])': c.note('other pattern')
    if c.branch(F('nomatch!%s' % o.pattern, 'S>B')(t), 'no match of %s' % o.pattern): return []
    last = c.atom(F('lastmatch!%s' % o.pattern, 'S>S')(t), L.from_regex('.*'))
    n = F('nmatch!%s' % o.pattern, 'S>I')(t)
    c.once(('nmatch', n.get_id()), n > 0)
    def item(I, k):
        if k == -1: return SStr([last])
        raise Unsupported('match other than the last')
    return MD.Ext('matches', last=SStr([last]), n=SInt(n), getitem=item)
@meth('regex', 'split')
def _(I, o, a, k):
    cv = I.ctx.conc(a[0])
    if cv is not None: return list(o.rx.split(cv))
    raise Unsupported('regex split')

# ------------------------------------------------------------ hashes, ciphers
def mkhash(I, alg):
    return MD.Ext('hashalg', name=alg)
@cons('SHA256')
def _(I, a, k): return MD.Ext('hashalg', name='SHA256')
@cons('SHA1', 'SHA384', 'SHA512', 'SHA224', 'MD5')
def _(I, a, k): raise Unsupported('hash algorithm')
@cons('Hash')
def _(I, a, k): return MD.Ext('hash', alg=a[0], data=b'')
@meth('hash', 'update')
def _(I, o, a, k): o.data = I.ctx.cat(o.data, needbytes(I, a[0]))
@meth('hash', 'finalize')
def _(I, o, a, k):
    if o.alg.name != 'SHA256': raise Unsupported('hash')
    return sha256(I, o.data)
def sha256(I, v):
    c = I.ctx
    t = F('sha256', 'S>S')(c.term(v))
    c.atom(t, L.chars(((0, 256),), 32, 32))
    return SBytes([t])
@func('hashlib.sha256')
def _(I, a, k): return MD.Ext('hash', alg=mkhash(I, 'SHA256'), data=needbytes(I, a[0]) if a else b'')
@meth('hash', 'digest')
def _(I, o, a, k): return sha256(I, o.data)
@func('cryptography.hazmat.backends.default_backend')
def _(I, a, k): return MD.Ext('backend')
@cons('AES')
def _(I, a, k):
    key = needbytes(I, a[0])
    n = I.ctx.length(key)
    if not I.test(n in (16, 24, 32) if isinstance(n, int) else mkbool(disj([n.t == x for x in (16, 24, 32)])), 'AES key size'):
        raise I.exc(ValueError, 'Invalid key size')
    return MD.Ext('aes', key=key)
@cons('CTR')
def _(I, a, k): return MD.Ext('ctrmode', iv=needbytes(I, a[0]))
@cons('Cipher')
def _(I, a, k):
    alg, mode = a[0], a[1] if len(a) > 1 else k.get('mode')
    if not (isinstance(alg, MD.Ext) and alg.kind == 'aes' and isinstance(mode, MD.Ext) and mode.kind == 'ctrmode'): raise Unsupported('cipher')
    n = I.ctx.length(mode.iv)
    if not I.test(mkbool(n == 16 if isinstance(n, int) else n.t == 16), 'nonce size'): raise I.exc(ValueError, 'Invalid nonce size')
    return MD.Ext('cipher', key=alg.key, iv=mode.iv)
@meth('cipher', 'encryptor', 'decryptor')
def _(I, o, a, k): return MD.Ext('cctx', key=o.key, iv=o.iv, used=False)
def ctr(I, key, iv, data):
    c = I.ctx
    if c.conc(data) == b'': return b''
    kt, ivt, dt = c.term(key), c.term(iv), c.term(data)
    ps = c.parts(data)
    if len(ps) == 1 and not isinstance(ps[0], LITS):
        tg = c.tags.get(ps[0].get_id())
        if tg and tg[0] == 'ctr':
            if tg[1].eq(kt) and tg[2].eq(ivt): return tg[3]
    t = F('aesctr', 'SSS>S')(kt, ivt, dt)
    c.atom(t, L.BYTES, ('ctr', kt, ivt, data))
    c.once(('ctrlen', t.get_id()), lambda: LEN(t) == iz(c.length(data)))
    # involution, also for data not known to be an encryption
    c.once(('ctrinv', t.get_id()), F('aesctr', 'SSS>S')(kt, ivt, t) == dt)
    mn, mx = None, None
    n = c.length(data)
    if isinstance(n, int): c.restrict(t, L.chars(((0, 256),), n, n))
    return SBytes([t])
@meth('cctx', 'update')
def _(I, o, a, k):
    if o.used: raise Unsupported('stateful cipher use')
    o.used = True
    return ctr(I, o.key, o.iv, needbytes(I, a[0]))
@meth('cctx', 'finalize')
def _(I, o, a, k): return b''
@func('builtins.int.from_bytes')
def _(I, a, k):
    v = needbytes(I, a[0])
    order = a[1] if len(a) > 1 else k.get('byteorder', 'big'); signed = k.get('signed', False)
    c = I.ctx
    cv = c.conc(v)
    if cv is not None: return int.from_bytes(cv, order, signed=signed)
    ps = c.parts(v)
    if len(ps) == 1:
        tg = c.tags.get(ps[0].get_id())
        if tg and tg[0] == 'tobytes' and tg[3] == order and tg[4] == signed: return tg[1]
    return SInt(F('frombytes!%s!%s' % (order, signed), 'S>I')(c.term(v)))

# ------------------------------------------------------------ certificates and keys
def cert(c, t): return Opaque('cert', t)
@oattr('cert', 'serial_number')
def _(I, o): return SInt(F('certserial', 'A>I')(o.t))
@oattr('cert', 'signature_hash_algorithm')
def _(I, o):
    if I.ctx.branch(F('nohash', 'A>B')(o.t), 'signed without hash'): return None
    return Opaque('halg', F('halg', 'A>A')(o.t))
@oattr('cert', 'signature')
def _(I, o): return SBytes([I.ctx.atom(F('certsig', 'A>S')(o.t), L.BYTES)])
@oattr('cert', 'tbs_certificate_bytes')
def _(I, o): return SBytes([I.ctx.atom(F('tbs', 'A>S')(o.t), L.BYTES)])
@oattr('cert', 'subject')
def _(I, o): return Opaque('name', F('subject', 'A>A')(o.t))
@oattr('cert', 'issuer')
def _(I, o): return Opaque('name', F('issuer', 'A>A')(o.t))
@meth('cert', 'public_key')
def _(I, o, a, k): return Opaque('pubkey', F('pubkeyof', 'A>A')(o.t))
@meth('cert', 'fingerprint')
def _(I, o, a, k):
    if a[0].name != 'SHA256': raise Unsupported('fingerprint')
    return SBytes([I.ctx.atom(F('fingerprint', 'A>S')(o.t), L.chars(((0, 256),), 32, 32))])
@meth('cert', 'public_bytes')
def _(I, o, a, k): return MD.Ext('pem', src=o)
@meth('pubkey', 'public_bytes')
def _(I, o, a, k): return MD.Ext('pem', src=o)
@meth('pem', 'decode')
def _(I, o, a, k): return o
@meth('pem', 'splitlines')
def _(I, o, a, k):
    """header, lines of base64 text, footer"""
    def cut(I, k):
        c = I.ctx
        if not (isinstance(k, slice) and k.start == 1 and k.stop == -1 and k.step is None): raise Unsupported('PEM lines')
        n = c.fresh('pemlines'); c.assume(n >= 1)
        s = Seq(SInt(n), lambda I, i: SStr([c.atom(F('pemline', 'AI>S')(o.src.t, i), L.from_regex('[A-Za-z0-9+/=]+'))]), 'PEM lines')
        def join(I, sep):
            if c.conc(sep) != '': return None
            t = F('b64of', 'A>S')(o.src.t)
            c.atom(t, L.from_regex('[A-Za-z0-9+/=]+'), ('b64of', o.src))
            return SStr([t])
        s.joinfn = join
        return s
    return MD.Ext('pemlines', src=o.src, getitem=cut)
def pem_source(I, v, kind):
    """the object a PEM text was written from, if it consists of the header,
    the base64 text of the object in lines and the footer"""
    c = I.ctx
    ps = c.parts(v)
    name = {'cert': b'CERTIFICATE', 'pubkey': b'PUBLIC KEY'}[kind]
    if len(ps) != 3 or ps[0] != b'-----BEGIN %s-----\n' % name or ps[2] not in (b'\n-----END %s-----' % name, b'\n-----END %s-----\n' % name) or isinstance(ps[1], LITS): return None
    tg = c.tags.get(ps[1].get_id())
    if tg and tg[0] == 'e8': tg = c.tags.get(tg[1].get_id())
    if not tg or tg[0] != 'wrap' or tg[3] != '\n' or tg[2] > 64: return None
    b = tg[1]
    if not isinstance(b, SStr) or len(b.parts) != 1 or isinstance(b.parts[0], LITS): return None
    tg = c.tags.get(b.parts[0].get_id())
    return tg[1] if tg and tg[0] == 'b64of' and tg[1].kind == kind else None
@cons('ECDSA')
def _(I, a, k):
    if a[0] is None: raise I.exc(TypeError, 'Expected instance of hashes.HashAlgorithm.')
    return MD.Ext('ecdsa', halg=a[0])
@cons('PKCS1v15')
def _(I, a, k): return MD.Ext('pkcs1')
@meth('pubkey', 'verify')
def _(I, o, a, k):
    c = I.ctx
    kk = F('keykind', 'A>I')(o.t)
    from cryptography.exceptions import InvalidSignature
    sig, data = c.term(needbytes(I, a[0])), c.term(needbytes(I, a[1]))
    if len(a) == 3:
        if not c.branch(kk == 0, 'EC key'): raise I.exc(TypeError, 'verify()')
        if not (isinstance(a[2], MD.Ext) and a[2].kind == 'ecdsa'): raise Unsupported('signature algorithm')
        h = a[2].halg
        ok = F('ecverify', 'ASSA>B')(o.t, sig, data, h.t if isinstance(h, Opaque) else z3.Const('halg!' + h.name, Any))
    elif len(a) == 4:
        if not c.branch(kk == 1, 'RSA key'): raise I.exc(TypeError, 'verify()')
        if a[3] is None: raise I.exc(TypeError, 'Expected instance of hashes.HashAlgorithm.')
        if not (isinstance(a[2], MD.Ext) and a[2].kind == 'pkcs1'): raise Unsupported('padding')
        h = a[3]
        ok = F('rsaverify', 'ASSA>B')(o.t, sig, data, h.t if isinstance(h, Opaque) else z3.Const('halg!' + h.name, Any))
    else: raise Unsupported('verify')
    if not c.branch(ok, 'signature valid'): raise I.exc(InvalidSignature)
    return None

# ------------------------------------------------------------ jwt
@cons('PyJWS')
def _(I, a, k): return MD.Ext('pyjws')
@meth('pyjws', 'decode')
def _(I, o, a, k):
    import jwt
    c = I.ctx
    if len(a) != 2 or k: raise Unsupported('PyJWS.decode arguments')
    jws, key = a
    if not isstr(jws) and not isbytes(jws): raise I.exc(jwt.exceptions.DecodeError, 'Invalid token type')
    if not (isinstance(key, Opaque) and key.kind == 'pubkey'):
        if key is None: raise I.exc(TypeError, 'Expecting a PEM-formatted key.')
        raise Unsupported('key')
    t = c.term(jws)
    # precondition (established by the callers): header names ES256
    if not c.branch(F('keykind', 'A>I')(key.t) == 0, 'EC key'): raise I.exc(TypeError, 'Expecting a PEM-formatted key.')
    if not c.branch(F('es256ok', 'SA>B')(t, key.t), 'ES256 signature valid'): raise I.exc(jwt.exceptions.InvalidSignatureError, 'Signature verification failed')
    p = F('jwspayload', 'S>S')(t)
    c.atom(p, L.BYTES)
    c.assume(LEN(p) > 0)   # receipts' payloads are not empty
    return SBytes([p])
@func('jwt.algorithms.get_default_algorithms')
def _(I, a, k):
    d = PDict(); d.setraw('ES256', MD.Ext('es256')); return d
@meth('es256', 'prepare_key')
def _(I, o, a, k): return a[0]
@meth('es256', 'sign')
def _(I, o, a, k):
    c = I.ctx
    key = a[1]
    if not (isinstance(key, Opaque) and key.kind == 'privkey'): raise Unsupported('signing key')
    # randomised: the result is any signature valid for the message
    t = c.fresh('signature', 'S')
    m = needbytes(I, a[0])
    c.atom(t, L.chars(((0, 256),), 64, 64), ('es256sig', m, key))
    # the compact serialisation with this signature verifies under the public key
    seg = MD.decode(I, MD.B64UN(c, SBytes([t])))
    pub = F('pubof', 'A>A')(key.t)
    c.assume(z3.And(F('es256ok', 'SA>B')(c.term(c.cat(MD.decode(I, m), '.', seg)), pub), F('keykind', 'A>I')(pub) == 0))
    return SBytes([t])

# ------------------------------------------------------------ PEM
@func('cryptography.x509.load_pem_x509_certificate', 'cryptography.x509.base.load_pem_x509_certificate')
def _(I, a, k):
    c = I.ctx
    src = pem_source(I, needbytes(I, a[0]), 'cert')
    if src is not None: return src
    t = c.term(needbytes(I, a[0]))
    if not c.branch(F('certok', 'S>B')(t), 'valid certificate'): raise I.exc(ValueError, 'Unable to load certificate')
    return Opaque('cert', F('loadcert', 'S>A')(t))
@func('cryptography.hazmat.primitives.serialization.load_pem_public_key', 'cryptography.hazmat.primitives.serialization.base.load_pem_public_key')
def _(I, a, k):
    c = I.ctx
    src = pem_source(I, needbytes(I, a[0]), 'pubkey')
    if src is not None: return src
    t = c.term(needbytes(I, a[0]))
    if not c.branch(F('keyok', 'S>B')(t), 'valid key'): raise I.exc(ValueError, 'Could not deserialize key data.')
    return Opaque('pubkey', F('loadkey', 'S>A')(t))

# ------------------------------------------------------------ datetime
@func('datetime.datetime.strptime')
def _(I, a, k):
    c = I.ctx
    s, f = [I.models.force(I, x) for x in a]
    if not isstr(s): raise I.exc(TypeError, 'strptime() argument 1 must be str')
    f = c.conc(f)
    if f is None: raise Unsupported('symbolic date format')
    cv = c.conc(s)
    t = c.term(s)
    d = F('strptime!' + f, 'S>A')(t)
    if cv is not None:
        try: v = datetime.datetime.strptime(cv, f)
        except ValueError as e: raise I.exc(ValueError, str(e))
        c.once(('dt', d.get_id()), F('ts', 'A>I')(d) == int((v - datetime.datetime(1, 1, 1)).total_seconds()))
        return Opaque('datetime', d, s)
    if not c.branch(F('strptimeok!' + f, 'S>B')(t), 'valid date'): raise I.exc(ValueError, 'time data does not match format')
    return Opaque('datetime', d, s)
@meth('datetime', 'strftime')
def _(I, o, a, k):
    f = I.ctx.conc(a[0])
    t = F('strftime!' + f, 'A>S')(o.t)
    c = I.ctx
    c.atom(t, L.from_regex('[0-9]{4}-[0-9]{2}-[0-9]{2}T[0-9]{2}:[0-9]{2}:[0-9]{2}') if f == '%Y-%m-%dT%H:%M:%S' else None, ('strftime', o, f))
    c.once(('strf', t.get_id()), z3.And(F('strptimeok!' + f, 'S>B')(t), F('ts', 'A>I')(F('strptime!' + f, 'S>A')(t)) == F('ts', 'A>I')(o.t)))
    return SStr([t])

# ------------------------------------------------------------ copy, itertools, misc
@func('copy.copy')
def _(I, a, k): return shallow(I, a[0])
def shallow(I, v):
    if isinstance(v, Obj):
        f = v.cls.find('__copy__')
        if f is not MISSING: return I.call(Bound(v, f), [], {})
        if v.cls.meta == 'enum': return v
        o = Obj(v.cls, v.attrs.copy()); o.ghost = v.ghost; return o
    if isinstance(v, list): return list(v)
    if isinstance(v, (PDict, PSet, seqmod.MSeq)): return v.copy()
    if isinstance(v, MD.SymList):
        n = v.clone(I); n.memo = dict(v.memo); return n
    if isinstance(v, (Sym, tuple, str, bytes, int, float, type(None), ClassVal, FuncVal)): return v
    if v is POISON: return v
    raise Unsupported('copy of %r' % (v,))
@func('copy.deepcopy')
def _(I, a, k): return deep(I, a[0], {})
def deep(I, v, memo):
    if id(v) in memo: return memo[id(v)]
    if isinstance(v, Obj):
        f = v.cls.find('__deepcopy__')
        if f is not MISSING: return I.call(Bound(v, f), [PDict()], {})
        if v.cls.meta == 'enum': return v
        o = Obj(v.cls); memo[id(v)] = o; o.ghost = v.ghost
        o.attrs = deep(I, v.attrs, memo)
        return o
    if isinstance(v, list):
        r = []; memo[id(v)] = r
        r.extend(deep(I, x, memo) for x in v); return r
    if isinstance(v, tuple): return tuple(deep(I, x, memo) for x in v)
    if isinstance(v, PDict):
        r = v.copy(); memo[id(v)] = r
        for e in r.order: e[1] = deep(I, e[1], memo)
        return r
    if isinstance(v, PSet): return v.copy()
    if isinstance(v, MD.SJson): return v
    return shallow(I, v)
def chain(I, its):
    for x in its:
        for y in I.iterate(x): yield y
@func('itertools.chain')
def _(I, a, k): return seqmod.Chain(I, a)
@cons('itertools.chain')
def _(I, a, k): return seqmod.Chain(I, a)
@func('itertools.chain.from_iterable')
def _(I, a, k): return Gen(chain(I, I.iterate(a[0])))
@cons('itertools.groupby')
def _(I, a, k):
    key = a[1] if len(a) > 1 else k.get('key')
    def g():
        out = []
        for x in I.iterate(a[0]):
            kv = x if key is None else I.call(key, [x], {})
            if out and I.test(I.compare('Eq', out[-1][0], kv)): out[-1][1].append(x)
            else: out.append((kv, [x]))
        for kv, xs in out: yield (kv, Gen(iter(xs)))
    return Gen(g())
@cons('itertools.islice')
def _(I, a, k):
    b = [I.models.force(I, x) for x in a[1:]]
    if not all(x is None or isinstance(x, int) for x in b): raise Unsupported('islice')
    return Gen(itertools.islice(I.iterate(a[0]), *b))
@func('math.ceil')
def _(I, a, k):
    v = I.models.force(I, a[0])
    if isinstance(v, (int, float)):
        try: return math.ceil(v)
        except (OverflowError, ValueError) as e: raise I.exc(type(e), str(e))
    if isinstance(v, SInt): return v
    if isinstance(v, SFloat) and v.real is not None:
        if v.err != 0 or v.mag is not None: I.ctx.note('rounding of a floating point number')
        return mkint(-z3.ToInt(-v.real))
    if isinstance(v, SFloat): return SInt(I.ctx.fresh('ceil'))
    raise Unsupported('ceil')
@func('warnings.warn')
def _(I, a, k): return None
@meth('lib', 'get')
def _(I, o, a, k):
    if o.name == 'os.environ': return a[1] if len(a) > 1 else None
    raise Unsupported('library method ' + o.name)
@func('os.getenv')
def _(I, a, k): return a[1] if len(a) > 1 else None
@func('json.loads')
def _(I, a, k): raise Unsupported('json.loads')

@cons('JSONEncoder')
def _(I, a, k):
    if a or any(n not in ('sort_keys', 'indent', 'separators', 'ensure_ascii', 'check_circular') for n in k): raise Unsupported('JSONEncoder')
    return MD.Ext('jsonencoder')
@meth('jsonencoder', 'iterencode')
def _(I, o, a, k):
    if len(a) != 1 or k: raise Unsupported('iterencode')
    return Opaque('jsontext', I.ctx.fresh('jsontext', 'A'), a[0])
@func('ijson.parse')
def _(I, a, k):
    f = I.ctx.data.get('ijson.parse')
    if f is None: raise Unsupported('ijson.parse')
    return f(I, a, k)
@func('ijson.items')
def _(I, a, k):
    f = I.ctx.data.get('ijson.items')
    if f is None: raise Unsupported('ijson.items')
    return f(I, a, k)
