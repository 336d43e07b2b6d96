"""Key stores: C14, transfer of keys and certificates: C19, malformed stores: C16."""
from .common import *
from . import common as CM, base
from .ob_crypto import spec
from pyvc import loops
from pyvc.seq import Seq
from pyvc.loops import FoldRule, Rejected, DictIs, alike
from pyvc.models import SeqMap, SymMap

KT = 'key_store.KeyTuple'
def mktuple(R, kid, key, cert):
    o = Obj(R.name(KT))
    for n, v in (('keyId', kid), ('key', key), ('cert', cert)): o.attrs.setraw(n, v)
    return o
def stored(R, i, tok, withcert):
    """key and certificate of entry i"""
    c = R.ctx
    if c.branch(F('iscertentry', 'AI>B')(tok, i), 'entry with certificate'):
        cert = Opaque('cert', F('entrycert', 'AI>A')(tok, i))
        return Opaque('pubkey', F('pubkeyof', 'A>A')(cert.t)), cert
    return Opaque('pubkey', F('entrykey', 'AI>A')(tok, i)), None
HEXID = MD.CANONHEX
def mkstore(R, name='store', canonical=False):
    """key store with any number of entries: certificates with the key they
    hold, and bare keys; canonical: certificates have serial numbers as IDs"""
    c = R.ctx
    ks = R.new('key_store.KeyStore')
    d = R.get(ks, 'keydict')
    if not isinstance(d, PDict) or d.order or d.base is not None: raise Undecided('new key store is not an empty dictionary')
    n = c.fresh('entries'); c.assume(n >= 0)
    tok = c.fresh(name, 'A')
    m = SeqMap(c, tok, n, None)
    def val(I, i):
        kid = m.key(I, i)
        key, cert = stored(R, i, tok, canonical)
        if cert is not None and canonical: kid = canon_id(R, kid)
        return mktuple(R, kid, key, cert)
    m.vals = m.val = None
    m = SeqMap(c, tok, n, val)
    if canonical: m = CanonMap(R, m)
    d.base = m
    return ks, m
def canon_id(R, kid):
    force_lang(R.I, kid, HEXID); return kid
class CanonMap(SeqMap):
    """entries with certificate have IDs in canonical form, other IDs are texts"""
    def __init__(self, R, m):
        SeqMap.__init__(self, m.c, m.tok, m.n, m.val); self.R = R
    def key(self, I, i):
        k = SeqMap.key(self, I, i)
        i = z3.simplify(iz(i))
        if I.ctx.branch(F('iscertentry', 'AI>B')(self.tok, i), 'entry with certificate'): canon_id(self.R, k)
        return k
    def prefix(self, m):
        p = CanonMap(self.R, self); p.upto = iz(m); p.vals = self.vals; p.root = self.root; return p
    def withvals(self, val):
        p = CanonMap(self.R, self); p.val = val; p.vals = Seq(self.vals.n, val, 'values'); return p
def lookup(R, d, q):
    """(key, certificate) stored under q"""
    e = R.I.models.dict_find(R.I, d.copy(), q)
    if e is None: return None, None
    return e[1].attrs.raw('key'), e[1].attrs.raw('cert')
def answers(R, ks, q, want, what):
    for n, w in zip(('getKey', 'getCert'), want):
        o = R.meth(ks, n, q)
        R.require(o.ok, '%s: %s raises %s' % (what, n, o.v.cls.name if not o.ok else ''))
        R.require(alike(R.I, o.v, w), '%s: %s gives something else' % (what, n), case={'function': n})
    ids = R.call(R.get(ks, 'getKeyIds'))
    R.require(ids.ok, what + ': getKeyIds raises')
    return bt(R.I.models.contains(R.I, ids.v, q))
F_ = 'key_store.KeyStore.'
@obl('key_store.KeyStore: operations', 'C14 C01 C02', ' '.join(F_ + n for n in '__init__ getKey getCert getKeyIds putKey delKey putPEMCert putPEMKey __deepcopy__'.split()), uses=['key_store.numSerialToKeyId'])
def _(R):
    """any store, one operation: an arbitrary ID is answered with what the
    operation put there, and otherwise as before"""
    I, c = R.I, R.ctx
    q = R.text('anyid')
    k = R.pick(7, 'operation')
    if k == 0:
        ks = R.new('key_store.KeyStore')
        R.require(neg(answers(R, ks, q, (None, None), 'new store')), 'a new store is not empty'); R.done('new'); return
    ks, m = mkstore(R)
    d0 = R.get(ks, 'keydict').copy()
    before = lookup(R, d0, q)
    had = I.models.dict_find(I, d0.copy(), q) is not None
    def same(has, want): R.require(mkbool(bt(has) == z3.BoolVal(want) if not isinstance(has, bool) else has == want), 'IDs of the store', case={})
    x = R.text('id')
    isx = I.test(R.eq(x, q)) if k in (2, 3, 6) else False
    if k == 1:
        o = R.call(I.modules['spec'].ns['deepcopy'] if 'deepcopy' in I.modules['spec'].ns else Builtin('deepcopy', lambda I, a, k: libs.deep(I, a[0], {})), ks)
        R.require(o.ok and isinstance(o.v, Obj) and o.v.cls is ks.cls and o.v is not ks, 'copying a key store')
        same(answers(R, o.v, q, before, 'copy'), had)
        # changes to the copy do not reach the original
        R.meth(o.v, 'putKey', x, R.opaque('pubkey'), None); R.meth(o.v, 'delKey', q)
        same(answers(R, ks, q, before, 'original after changing the copy'), had); R.done('copy'); return
    if k == 2:
        key, cert = R.opaque('pubkey'), (R.opaque('cert') if R.pick(2) else None)
        o = R.meth(ks, 'putKey', x, key, cert)
        R.require(o.ok, 'putKey raises')
        same(answers(R, ks, q, (key, cert) if isx else before, 'after putKey'), had or isx); R.done('putKey'); return
    if k == 3:
        o = R.meth(ks, 'delKey', x)
        R.require(o.ok, 'delKey raises %s' % (o.v.cls.name if not o.ok else ''))
        same(answers(R, ks, q, (None, None) if isx else before, 'after delKey'), had and not isx); R.done('delKey'); return
    if k == 4: same(answers(R, ks, q, before, 'looking up'), had); R.done('lookup'); return
    if k == 5:
        pem = R.text('pem')
        t = c.term(MD.encode(I, pem)) if in_lang(I, pem, L.NOSURR) else None
        o = R.meth(ks, 'putPEMCert', pem)
        if not o.ok:
            R.require(t is None or not I.test(mkbool(F('certok', 'S>B')(t))), 'a valid certificate is refused')
            same(answers(R, ks, q, before, 'after a refused certificate'), had); R.done('refused'); return
        R.require(t is not None and mkbool(F('certok', 'S>B')(t)), 'an invalid certificate is stored')
        cert = F('loadcert', 'S>A')(t)
        n = F('certserial', 'A>I')(cert)
        kid = I.models.hexstr(I, SInt(z3.If(n >= 0, n, -n)))
        isx = I.test(R.eq(kid, q))
        same(answers(R, ks, q, (Opaque('pubkey', F('pubkeyof', 'A>A')(cert)), Opaque('cert', cert)) if isx else before, 'after putPEMCert'), had or isx); R.done('putPEMCert'); return
    pem = R.text('pem')
    t = c.term(MD.encode(I, pem)) if in_lang(I, pem, L.NOSURR) else None
    o = R.meth(ks, 'putPEMKey', x, pem)
    if not o.ok:
        R.require(t is None or not I.test(mkbool(F('keyok', 'S>B')(t))), 'a valid key is refused')
        same(answers(R, ks, q, before, 'after a refused key'), had); R.done('refused'); return
    R.require(t is not None and mkbool(F('keyok', 'S>B')(t)), 'an invalid key is stored')
    same(answers(R, ks, q, (Opaque('pubkey', F('loadkey', 'S>A')(t)), None) if isx else before, 'after putPEMKey'), had or isx); R.done('putPEMKey')
UF = 'utils.exportCertToPEM utils.exportKeyToPEM utils.addPEMCertHeaders utils.addPEMPubKeyHeaders utils.loadCert utils.loadPubKey'
@obl('utils: PEM texts', 'C14 C19', UF)
def _(R):
    """a certificate or key exported, given headers and loaded is the same"""
    c = R.ctx
    c.data['lazycomp'] = True
    k = R.pick(2)
    if R.pick(2):
        o = R.call(('utils.addPEMCertHeaders', 'utils.addPEMPubKeyHeaders')[k], R.text('data'))
        R.require(o.ok and isstr(R.I.models.force(R.I, o.v)), 'adding headers to a text fails'); R.done('headers'); return
    x = R.opaque(('cert', 'pubkey')[k])
    names = (('exportCertToPEM', 'addPEMCertHeaders', 'loadCert'), ('exportKeyToPEM', 'addPEMPubKeyHeaders', 'loadPubKey'))[k]
    o = R.call('utils.' + names[0], x)
    R.require(o.ok, names[0] + ' raises')
    R.require(isstr(o.v) and R.ctx.implied(iz(R.length(o.v)) > 0), 'exported text is empty')
    p = R.call('utils.' + names[1], o.v)
    R.require(p.ok, names[1] + ' raises')
    q = R.call('utils.' + names[2], p.v)
    R.require(q.ok, names[2] + ' refuses an exported object')
    R.require(q.v is x or alike(R.I, q.v, x), 'another object after export and loading')
    R.done()
# contract: texts written for certificates and keys
def _tag(I, v, what):
    v = I.models.force(I, v)
    if not isstr(v): return None
    ps = I.ctx.parts(v)
    tg = I.ctx.tags.get(ps[0].get_id()) if len(ps) == 1 and not isinstance(ps[0], LITS) else None
    return tg[1] if tg and tg[0] == what else None
@contract('utils: PEM texts', UF)
def _(I, f, a, k):
    if len(a) != 1 or k: return MISSING
    n = f.name
    kind = 'cert' if 'Cert' in n else 'pubkey'
    if n.startswith('export'):
        if not isinstance(a[0], Opaque) or a[0].kind != kind: return MISSING
        t = F('b64of', 'A>S')(a[0].t)
        I.ctx.atom(t, B64TEXT, ('b64of', a[0]))
        return SStr([t])
    x = _tag(I, a[0], 'b64of' if n.startswith('add') else 'pemof')
    if x is None and n.startswith('add') and isstr(I.models.force(I, a[0])):
        # a text that depends on the given one only
        t = F('headers!' + kind, 'S>S')(I.ctx.term(I.models.force(I, a[0])))
        I.ctx.atom(t)
        return SStr([t])
    if x is None or x.kind != kind: return MISSING
    if n.startswith('load'): return x
    t = F('pemof', 'A>S')(x.t)
    I.ctx.atom(t, L.ASCII if hasattr(L, 'ASCII') else L.NOSURR, ('pemof', x))
    return SStr([t])
B64TEXT = L.from_regex('[A-Za-z0-9+/=]+')
def source(I, v, kind):
    """object the text was exported from"""
    x = _tag(I, v, 'b64of')
    return x if x is not None and x.kind == kind else None

# ---------------------------------------------------------------- loops over the entries of a store
class StoreFold(FoldRule):
    """entries of a map are put into a new store one after the other"""
    def __init__(self, R, m, inv, mode, want, ks=None):
        """want(i): dictionary after the first i entries"""
        FoldRule.__init__(self, R, m.seq(R.I, 'items'), inv, mode); self.m, self.want, self.ks = m, want, ks
    def handles(self, q):
        x = getattr(q.root, 'src', None)
        if not isinstance(x, SeqMap) or x.root is not self.m.root or not self.I.ctx.implied(x.upto == self.m.upto): return False
        self.seq = q if q.root is q else q.root
        return True
    def stores(self):
        if self.ks is not None: return [self.ks]
        l = []
        for _, v in self.fr.vars.items():
            if isinstance(v, Obj) and R_isstore(self.R, v) and not any(v is x for x in l): l.append(v)
        return l
    def roots(self): return self.stores()
    def entry(self): return z3.IntVal(0)
    def arb(self, k): return k
    def shape(self, g, old): return []
    def step(self, g, i): return z3.simplify(iz(i) + 1)
    def templates(self, g, i):
        return [('store', lambda: DictIs(self.want(g))), ('index', lambda: mkint(iz(i))), ('None', lambda: None), ('True', lambda: True), ('False', lambda: False)]
def R_isstore(R, v): return v.cls.sub(R.name('key_store.KeyStore'))
def mapdict(m, k=None):
    d = PDict(); d.base = m if k is None else m.prefix(k)
    return d
NS = 'key_store.KeyStore: transfer'
@obl(NS, 'C14 C19', F_ + '__getstate__ ' + F_ + '__setstate__ ' + F_ + 'putKey', uses=['utils: PEM texts'], fold=True)
def _(R):
    """a store of any size handed to another process answers as before"""
    I, c = R.I, R.ctx
    ks, m = mkstore(R)
    d0 = R.get(ks, 'keydict').copy()
    c.data['lazycomp'] = True
    o = R.meth(ks, '__getstate__')
    R.require(o.ok, 'storing the state raises %s' % (o.v.cls.name if not o.ok else ''))
    new = Obj(ks.cls)
    h = StoreFold(R, m, base.INV.get(NS, {}), c.data.get('mode'), lambda k: mapdict(m, k), new)
    c.data['fold'] = h
    p = R.meth(new, '__setstate__', o.v)
    R.require(p.ok, 'restoring the state raises %s' % (p.v.cls.name if not p.ok else ''))
    if not hasattr(h, 'ghost') and not c.implied(m.n == 0): raise Undecided('entries are not processed by a loop')
    q = R.text('anyid')
    before = lookup(R, d0, q)
    had = I.models.dict_find(I, d0.copy(), q) is not None
    R.require(mkbool(answers(R, new, q, before, 'after transfer') == z3.BoolVal(had)), 'IDs of the store after transfer', case={})
    R.require(mkbool(answers(R, ks, q, before, 'original') == z3.BoolVal(had)), 'IDs of the store transferred', case={})
    R.done()

def jsonentry(I, m):
    """what a key store document holds for entry i"""
    def f(I, i):
        e = m.vals.at(I, i)
        key, cert = e.attrs.raw('key'), e.attrs.raw('cert')
        d = PDict()
        for n, v in (('id', m.key(I, i)), ('signatureDeviceType', 'CERTIFICATE' if cert is not None else 'PUBLIC_KEY'),
            ('signatureCertificateOrPublicKey', I.call(I.modules['utils'].ns['exportCertToPEM' if cert is not None else 'exportKeyToPEM'], [cert if cert is not None else key], {}))):
            I.models.setitem(I, d, n, v)
        return d
    return f
class DictFold(StoreFold):
    """a dictionary is filled entry by entry"""
    def stores(self): return []
WS = 'key_store.KeyStore: writeStoreToJson-readStoreFromJson'
@obl(WS, 'C14', F_ + 'writeStoreToJson ' + F_ + 'readStoreFromJson ' + F_ + 'putKey key_store.parseKeyStoreCert key_store.parseKeyStorePubkey', uses=['utils: PEM texts', 'key_store.strSerialToKeyIds'], fold=True)
def _(R):
    """a store of any size written as JSON and read back answers as before"""
    I, c = R.I, R.ctx
    ks, m = mkstore(R, canonical=True)
    d0 = R.get(ks, 'keydict').copy()
    inv = base.INV.get(WS, {})
    mj = m.withvals(jsonentry(I, m))
    a = DictFold(R, m, inv, c.data.get('mode'), lambda k: mapdict(mj, k))
    b = StoreFold(R, mj, inv, c.data.get('mode'), lambda k: mapdict(m, k))
    c.data['fold'] = [a, b]
    b64 = R.text('aeskey') if R.pick(2) else None
    o = R.meth(ks, 'writeStoreToJson', b64)
    R.require(o.ok, 'writing raises %s' % (o.v.cls.name if not o.ok else ''))
    if b64 is not None:
        e = I.models.dict_find(I, o.v, 'base64AESKey') if isinstance(o.v, PDict) else None
        R.require(e is not None and alike(I, e[1], b64), 'the AES key is not written')
    p = R.call('key_store.KeyStore.readStoreFromJson', o.v)
    R.require(p.ok, 'reading the document written raises %s' % (p.v.cls.name if not p.ok else ''))
    if not (hasattr(a, 'ghost') and hasattr(b, 'ghost')) and not c.implied(m.n == 0): raise Undecided('entries are not processed by a loop')
    q = R.text('anyid')
    before = lookup(R, d0, q)
    had = I.models.dict_find(I, d0.copy(), q) is not None
    R.require(mkbool(answers(R, p.v, q, before, 'after reading') == z3.BoolVal(had)), 'IDs of the store read', case={})
    R.require(mkbool(answers(R, ks, q, before, 'original') == z3.BoolVal(had)), 'IDs of the store written', case={})
    R.done()
RS = 'key_store.KeyStore.readStoreFromJson'
def spec_entry(R, kid, v):
    """(ID, key, certificate) an element of the document stands for, or None"""
    I = R.I
    if not v.narrow(I, ['dict']): return None
    d = v.force(I)
    es = [d.has(I, n) for n in ('id', 'signatureDeviceType', 'signatureCertificateOrPublicKey')]
    if not all(e[1] for e in es): return None
    i, t, s = [e[2] for e in es]
    if not i.narrow(I, ['str']) or not I.test(R.eq(i.force(I), kid)): return None
    if not t.narrow(I, ['str']): return None
    cert = I.test(R.eq(t.force(I), 'CERTIFICATE'))
    if not cert and not I.test(R.eq(t.force(I), 'PUBLIC_KEY')): return None
    if cert:
        ids = spec(R, 'serial_ids', kid)
        if not ids: return None
    if not s.narrow(I, ['str']): return None
    x = R.call('utils.addPEMCertHeaders' if cert else 'utils.addPEMPubKeyHeaders', s.force(I))
    if x.ok: x = R.call('utils.loadCert' if cert else 'utils.loadPubKey', x.v)
    if not x.ok: return None
    if not cert: return kid, x.v, None
    return ids[0], Opaque('pubkey', F('pubkeyof', 'A>A')(x.v.t)), x.v
class ReadFold(StoreFold):
    def __init__(self, R, d, inv, mode):
        FoldRule.__init__(self, R, None, inv, mode); self.d, self.ks = d, None
    def handles(self, q):
        if getattr(q.root, 'src', None) is not self.d.pairlist or self.d.pairlist is None: return False
        self.seq = q.root; return True
    def entry(self): return PDict()
    def arb(self, k):
        c = self.I.ctx
        d = PDict(); tok = c.fresh('sofar', 'A')
        def val(I, k):
            i = F('keypos', 'AS>I')(tok, I.ctx.term(k))
            key, cert = stored(self.R, i, tok, False)
            return mktuple(self.R, k, key, cert)
        memo = []
        def get(I, k):
            for t, v in memo:
                if t is k or I.test(self.R.eq(t, k)): return v
            memo.append((k, val(I, k))); return memo[-1][1]
        d.base = SymMap(lambda I, k: F('iskey', 'AS>B')(tok, I.ctx.term(k)) if isstr(k) else False, get)
        return d
    def step(self, g, i):
        kid, v = self.seq.at(self.I, i)
        e = spec_entry(self.R, kid, v)
        if e is None: return Rejected('C14', 'malformed entry')
        g = g.copy()
        self.I.models.setitem(self.I, g, e[0], mktuple(self.R, *e))
        return g
    def accepted(self, g): self.R.require(False, 'goes on after a ' + g.detail, 'C14')
    def templates(self, g, i):
        return [('store', lambda: DictIs(g)), ('index', lambda: mkint(iz(i))), ('None', lambda: None), ('True', lambda: True), ('False', lambda: False)]
@obl(RS, 'C14 C16', RS + ' key_store.parseKeyStoreCert key_store.parseKeyStorePubkey', uses=['key_store.strSerialToKeyIds', 'utils: PEM texts'], fold=True)
def _(R):
    """any JSON value: every entry well-formed, and then exactly those in the
    store, or refused with a key store exception"""
    I, c = R.I, R.ctx
    j = MD.SJson('json')
    h = None
    good = j.narrow(I, ['dict'])
    if good:
        e = j.force(I).has(I, 'certificateOrPublicKeyMap')
        good = e[1] and e[2].narrow(I, ['dict'])
        if good:
            h = ReadFold(R, e[2].force(I), base.INV.get(RS, {}), c.data.get('mode')); c.data['fold'] = [h]
    o = R.call(RS, j)
    if good:
        if not hasattr(h, 'ghost'): raise Undecided('entries are not processed by a loop')
        good = not isinstance(h.ghost, Rejected)
    if not o.ok: R.require(R.cls(o, 'key_store.KeyStoreException'), 'raises %s' % o.v.cls.name)
    if not good:
        R.require(not o.ok, 'a malformed key store is accepted', 'C14', case={}); R.done('malformed'); return
    R.require(o.ok, 'a well-formed key store is refused with %s' % (o.v.cls.name if not o.ok else ''), 'C14')
    if not R_isstore(R, o.v): raise Undecided('another kind of store')
    q = R.text('anyid')
    had = I.models.dict_find(I, h.ghost.copy(), q) is not None
    R.require(mkbool(answers(R, o.v, q, lookup(R, h.ghost, q), 'store read') == z3.BoolVal(had)), 'IDs of the store read', 'C14', case={})
    R.done('ok')
