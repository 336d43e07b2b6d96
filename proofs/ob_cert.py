"""Trust in certificates: C02."""
from .common import *
from .group import mkgroup
from .ob_crypto import keystore, ks_key
from . import common as CM, base
from pyvc import loops
from pyvc.loops import FoldRule, Rejected, Accepted, alike
from pyvc.seq import Seq

# ---------------------------------------------------------------- certificates
def fp(I, cert): return F('fingerprint', 'A>S')(cert.t)
def fptext(I, cert):
    """the fingerprint as text: an injective function of its bytes"""
    c = I.ctx
    x = F('fphex', 'S>S')(fp(I, cert))
    c.atom(fp(I, cert), L.chars(((0, 256),), 32, 32))
    c.assume(F('fphexinv', 'S>S')(x) == fp(I, cert))
    return SStr([c.atom(x, L.chars(((48, 58), (97, 103), (58, 59)), 95, 95))])
@contract('utils.certFingerprint', 'utils.certFingerprint')
def _(I, f, a, k):
    if len(a) != 1 or k or not (isinstance(a[0], Opaque) and a[0].kind == 'cert'): return MISSING
    return fptext(I, a[0])
@obl('utils.certFingerprint', 'C02', 'utils.certFingerprint', assumes=['lower-case two-digit hexadecimal texts joined by colons determine the 32 bytes they were made from'])
def _(R):
    """the 32 bytes of the SHA-256 fingerprint, two hexadecimal digits each"""
    I, c = R.I, R.ctx
    a = R.opaque('cert', 'a')
    x = R.call('utils.certFingerprint', a)
    R.require(x.ok, 'certFingerprint raises')
    R.require(isstr(x.v), 'fingerprint is no text')
    bs = list(I.iterate(SBytes([c.atom(fp(I, a), L.chars(((0, 256),), 32, 32))])))
    want = functools.reduce(c.cat, [y for i, b in enumerate(bs) for y in ([':'] if i else []) + [I.models.hex2(I, b) if not isinstance(b, int) else '%02x' % b]])
    R.require(len(bs) == 32, 'SHA-256 has 32 bytes')
    R.require(R.eq(x.v, want), 'fingerprint texts do not tell certificates')
    R.done()

def signed_by(I, cert, by):
    """ES or RSA signature of by's key over the to-be-signed part"""
    return F('certsigned', 'AA>B')(cert.t, by.t)
@contract('utils.verifyCert', 'utils.verifyCert')
def _(I, f, a, k):
    if len(a) != 2 or k or not all(isinstance(x, Opaque) and x.kind == 'cert' for x in a): return MISSING
    return mkbool(signed_by(I, *a))
@obl('utils.verifyCert', 'C02', 'utils.verifyCert')
def _(R):
    """true exactly if the signature in the certificate is one of the other
    certificate's key over the certificate's contents"""
    I, c = R.I, R.ctx
    a, b = R.opaque('cert', 'a'), R.opaque('cert', 'b')
    o = R.call('utils.verifyCert', a, b)
    R.require(o.ok, 'raises %s' % (o.v.cls.name if not o.ok else ''))
    key = F('pubkeyof', 'A>A')(b.t); kind = F('keykind', 'A>I')(key)
    args = key, F('certsig', 'A>S')(a.t), F('tbs', 'A>S')(a.t), F('halg', 'A>A')(a.t)
    want = z3.And(z3.Not(F('nohash', 'A>B')(a.t)), z3.Or(z3.And(kind == 0, F('ecverify', 'ASSA>B')(*args)), z3.And(kind == 1, F('rsaverify', 'ASSA>B')(*args))))
    R.require(mkbool(bt(I.truth(o.v)) == want), 'does not tell signed certificates')
    R.done()

# ---------------------------------------------------------------- walking the chain
def stored(R, cert):
    """certificate in the key store under the serial number of cert, or None"""
    I, c = R.I, R.ctx
    sn = F('certserial', 'A>I')(cert.t)
    k = c.term(I.models.hexstr(I, SInt(z3.If(sn >= 0, sn, -sn))))
    if not I.test(mkbool(F('ks.has', 'S>B')(k))): return None
    if not I.test(mkbool(F('ks.iscert', 'S>B')(k))): return None
    return Opaque('cert', F('ks.cert', 'S>A')(k))
def at_anchor(R, cert):
    s = stored(R, cert)
    if s is None: return None
    return Accepted() if R.I.test(mkbool(fp(R.I, s) == fp(R.I, cert))) else Rejected('C02', 'stored certificate has another fingerprint')
class ChainFold(FoldRule):
    cert = None
    def roots(self): return []
    def entry(self): return self.cert
    def elem(self, k): return self.seq.at(self.I, k)
    def arb(self, k): return self.elem(k - 1)
    def shape(self, g, old): return []
    def step(self, g, i):
        r = at_anchor(self.R, g)
        if r is not None: return r
        nxt = self.elem(i)
        if not self.I.test(mkbool(signed_by(self.I, g, nxt))): return Rejected('C02', 'certificate not signed by the next one')
        return nxt
    def accepted(self, g): self.R.require(False, 'goes on although: %s' % g.detail, 'C02')
    def templates(self, g, i):
        return [('elem', lambda: self.seq.at(self.I, i)), ('cert', lambda: self.cert), ('index', lambda: mkint(iz(i))), ('next', lambda: mkint(iz(i) + 1)),
            ('None', lambda: None), ('True', lambda: True), ('False', lambda: False)]
def mkchain(R, n=None, name='chain'):
    c = R.ctx
    if n is None:
        n = c.fresh(name + '.n'); c.assume(n >= 0); n = SInt(n)
    tok = c.fresh(name, 'A')
    return Seq(n, lambda I, i: Opaque('cert', F('certat', 'AI>A')(tok, z3.simplify(iz(i)))), name)
CERT_USES = ['key_store.numSerialToKeyId', 'utils.certFingerprint', 'utils.verifyCert']
def chain_outcome(R, o, g):
    if not isinstance(g, (Rejected, Accepted)):
        g = at_anchor(R, g) or Rejected('C02', 'no certificate of the chain is in the key store')
    if isinstance(g, Rejected):
        R.require(not o.ok, 'accepts a certificate although: %s' % g.detail, case={'why': g.detail})
        R.require(R.lib(o), 'raises %s instead of an exception of the library' % (o.v.cls.name if not o.ok else ''))
        R.done('rejected')
    else:
        R.require(o.ok, 'rejects a properly anchored certificate with %s' % (o.v.cls.name if not o.ok else ''))
        R.done('accepted')
@obl('verify.verifyCert', 'C02', 'verify.verifyCert key_store.KeyStore.getCert', uses=CERT_USES, fold=True, fallback='verify.verifyCert/bounded', weight=2)
def _(R):
    """accepts exactly if walking along the chain reaches a certificate stored
    under its serial number with the same fingerprint, each one passed being
    signed by the next (chains of any length)"""
    I, c = R.I, R.ctx
    seq = mkchain(R); cert = R.opaque('cert')
    h = ChainFold(R, seq, base.INV.get('verify.verifyCert', {}), c.data.get('mode'))
    h.cert = cert; c.data['fold'] = h
    o = R.call('verify.verifyCert', cert, seq, keystore(R, certs=True))
    g = c.data.get('ghost')
    if g is None: raise Undecided('the chain is not processed by a loop')
    chain_outcome(R, o, g)
@obl('verify.verifyCert/bounded', 'C02', 'verify.verifyCert', uses=CERT_USES, bounded='chains of at most 3 certificates', unroll={'unroll_seq': 3})
def _(R):
    I = R.I
    n = R.pick(4, 'length')
    seq = mkchain(R, n); cert = R.opaque('cert')
    h = ChainFold(R, seq, {}, None); h.cert = cert
    l = [seq.at(I, i) for i in range(n)]
    o = R.call('verify.verifyCert', cert, l, keystore(R, certs=True))
    g = cert
    for i in range(n):
        g = h.step(g, i)
        if isinstance(g, (Rejected, Accepted)): break
    chain_outcome(R, o, g)

# ---------------------------------------------------------------- verifiers of groups
@contract('chain:verifyCert', 'verify.verifyCert')
def _(I, f, a, k):
    """abstract verdict on a certificate with its chain"""
    if len(a) != 3 or k or not isinstance(a[0], Opaque): return MISSING
    ch = a[1]
    if not (isinstance(ch, Opaque) and ch.kind == 'chain') or not (isinstance(a[2], Obj) and a[2].ghost == 'store'): raise Unsupported('arguments of verifyCert')
    if I.ctx.branch(F('anchored', 'AA>B')(a[0].t, ch.t), 'anchored'): return None
    raise I.exc(I.modules['verify'].ns['UntrustedCertificateException'], 'x')
def mkchunkgroup(R, i):
    """a group: receipts, certificate or none, chain"""
    cert = R.opaque('cert') if R.pick(2, 'certificate') else None
    return (R.opaque('recs'), cert, R.opaque('chain'))
@obl('verify.packageChunkWithVerifiers/bounded', 'C02 C08', 'verify.packageChunkWithVerifiers verify_receipt.ReceiptVerifier.fromCert verify_receipt.ReceiptVerifier.fromKeyStore',
    uses=['chain:verifyCert'], bounded='chunks of at most 3 groups')
def _(R):
    """every group gets a verifier for its anchored certificate, or, if it is
    the only one and names none, one for the key store"""
    I, c = R.I, R.ctx
    n = R.pick(4, 'groups')
    chunk = [mkchunkgroup(R, i) for i in range(n)]
    ks = keystore(R); ks.ghost = 'store'
    o = R.call('verify.packageChunkWithVerifiers', chunk, ks)
    want = None
    for recs, cert, ch in chunk:
        if cert is None:
            if n != 1: want = 'NoCertificateGivenException'; break
        elif not I.test(mkbool(F('anchored', 'AA>B')(cert.t, ch.t))): want = 'UntrustedCertificateException'; break
    if want:
        R.require(not o.ok, 'accepts a chunk that must be answered with ' + want, case={'why': want})
        R.require(R.lib(o), 'raises %s' % (o.v.cls.name if not o.ok else ''))
        R.done(want); return
    R.require(o.ok, 'refuses a chunk with %s' % (o.v.cls.name if not o.ok else ''))
    l = list(I.iterate(o.v))
    R.require(len(l) == n, 'number of groups changes')
    for (recs, cert, ch), p in zip(chunk, l):
        p = list(I.iterate(p))
        R.require(len(p) == 2 and p[0] is recs, 'receipts of a group change')
        rv = p[1]
        R.require(isinstance(rv, Obj) and R.isinst(rv, 'verify_receipt.ReceiptVerifier'), 'no receipt verifier')
        if cert is None: R.require(rv.attrs.raw('keyStore', 1) is ks and rv.attrs.raw('cert', 1) is None, 'group without certificate is not verified with the key store')
        else: R.require(rv.attrs.raw('cert', 1) is cert and rv.attrs.raw('keyStore', 1) is None, 'group is not verified with its own certificate')
    R.done('ok')
