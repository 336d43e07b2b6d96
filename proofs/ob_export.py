"""Exporters: C17."""
from .common import *
from . import common as CM, base
from .ob_dep import *
from .ob_stream import contents, likeval, stop, drain, DE, smallgroups
from pyvc import seq as seqmod
from pyvc.seq import Seq, MSeq, SeqIt

HEADER = 'Alg+ZDA;Register ID;Receipt ID;Date+Time;Sum A;Sum B;Sum C;Sum D;Sum E;Turnover Counter;Cert. Serial;Chaining Value;Signature'
FIELDS = ('zda', 'registerId', 'receiptId', 'dateTime', 'sumA', 'sumB', 'sumC', 'sumD', 'sumE', 'encTurnoverCounter', 'certSerial', 'previousChain', 'signature', 'signed', 'header')
# ---------------------------------------------------------------- texts of receipts
def textof(name):
    q = 'receipt.Receipt.' + name
    @contract('export:' + name, q)
    def _(I, f, a, k):
        b = I.bindargs(f, a, k)
        o = b.get('self')
        t = o.attrs.raw('_tok', None) if isinstance(o, Obj) else None
        vs = [v for n, v in b.items() if n != 'self']
        if t is None or len(vs) != 1 or not isstr(I.models.force(I, vs[0])): return MISSING
        return text(I, name, t, vs[0])
def text(I, name, t, prefix):
    return SStr([I.ctx.atom(F('export!' + name, 'AS>S')(t, I.ctx.term(I.models.force(I, prefix))))])
USES = ['export:' + n for n in ('toJWSString', 'toCSV')]
for _n in ('toJWSString', 'toCSV'): textof(_n)
def receipt(R, t):
    """(receipt, prefix) identified by a term"""
    o = Obj(R.name('receipt.Receipt'))
    for n in FIELDS: o.attrs.setraw(n, POISON)
    o.attrs.setraw('_tok', t)
    return o, SStr([R.ctx.atom(F('prefix', 'A>S')(t))])
def pem(R, cert): return R.I.call(R.name('utils.exportCertToPEM'), [cert], {})

class Exported(Chunks):
    """M groups of any number of receipts"""
    def rec(self, m, e):
        return receipt(self.R, F('exprec', 'AII>A')(self.tok, z3.simplify(iz(m)), z3.simplify(iz(e))))
    def group(self, m, e=None):
        """receipts, certificate, list of certificates"""
        c = self.R.ctx; m = z3.simplify(iz(m))
        q = Seq(SInt(self.len(m)), lambda I, e: self.rec(m, e), 'receipts'); q.mi = m
        cert = Opaque('cert', F('expcert', 'AI>A')(self.tok, m)) if c.branch(F('expcertgiven', 'AI>B')(self.tok, m), 'certificate given') else None
        t = F('expchain', 'AI>A')(self.tok, m)
        n = F('expchainlen', 'AI>I')(self.tok, m); c.assume(n >= 0)
        chain = Seq(SInt(n), lambda I, j: Opaque('cert', F('chaincert', 'AI>A')(t, z3.simplify(iz(j)))), 'chain')
        return q, cert, chain
    def stream(self):
        q = Seq(SInt(self.n), lambda I, m: self.deliver(m), 'groups')
        return q
    def deliver(self, m):
        q, cert, chain = self.group(m)
        g = Gen(seqmod.iterate(self.R.I, q)); g.seq = q
        return g, cert, chain
def asiter(R, q):
    g = Gen(seqmod.iterate(R.I, q)); g.seq = q
    return g
# ---------------------------------------------------------------- CSV
class Lines(InOrder):
    """consumer of the parts of the CSV text: the header, then one receipt each"""
    def __init__(self, R, doc):
        InOrder.__init__(self, R, None, None)
        self.doc = doc; self.next = z3.IntVal(-1)
    def take(self, v):
        R, I, c = self.R, self.R.I, self.R.ctx
        v = I.models.force(I, v)
        if not isstr(v): raise Undecided('part of the text is %r' % (v,))
        if c.conc(v) is not None:
            if c.conc(v) != HEADER: raise Undecided('part %r' % (c.conc(v),))
            n = z3.IntVal(-1)
        else:
            ps = c.parts(v)
            x = ps[1] if len(ps) == 2 and isinstance(ps[0], str) and ps[0] == '\n' else None
            t = x.arg(0) if z3.is_app(x) and x.decl().name().startswith('export!toCSV') else None
            if t is None or not t.decl().name().startswith('exprec') or not t.arg(0).eq(self.doc.tok): raise Undecided('another part of the text')
            if not x.arg(1).eq(F('prefix', 'A>S')(t)): raise Undecided('another prefix')
            n = self.doc.H(t.arg(1)) + t.arg(2)
        R.require(mkbool(n == self.next), 'receipts are lost, repeated or out of order', case={'csv': 'order'})
        self.next = z3.simplify(self.next + 1)
class RowsFold(GroupsFold): pass
CE = DE + 'CSVExporter.export'
@obl(CE, 'C17', CE, uses=USES, fold=True, fallback=CE + '/bounded')
def _(R):
    """any number of groups and receipts: the header and a line for each receipt"""
    I, c = R.I, R.ctx
    doc = Exported(R)
    q = doc.stream()
    E = Lines(R, doc)
    h = ChunksFold(R, q, E, base.INV.get(CE, {}), c.data.get('mode')); h.doc = doc
    c.data['fold'] = [h, GroupsFold(R, h, c.data.get('mode'))]
    c.data['lazycomp'] = 'lazy'
    x = R.new(DE + 'CSVExporter', asiter(R, q))
    o = R.meth(x, 'export')
    exc = consume(R, o.v, E) if o.ok else o.v
    R.require(exc is None, 'raises %s' % (exc.cls.name if exc else ''))
    R.require(mkbool(E.next == doc.H(doc.n)), 'receipts are lost')
    R.done('all')
def small(R, most):
    """few groups, for all receipts and certificates"""
    c = R.ctx; out = []
    for i in range(R.pick(most + 1, 'groups')):
        rs = [receipt(R, c.fresh('r%d' % i, 'A')) for _ in range(R.pick(3, 'receipts'))]
        cert = R.opaque('cert') if R.pick(2, 'certificate') else None
        out.append((rs, cert, [R.opaque('cert') for _ in range(R.pick(3, 'chain') if i == 0 else 1)]))
    return out
def feed(R, gs): return Gen(iter([(Gen(iter(list(g[0]))), g[1], list(g[2])) for g in gs]))
@obl(CE + '/bounded', 'C17', CE, uses=USES, bounded='at most 2 groups of at most 2 receipts', unroll={'unroll': 30})
def _(R):
    I = R.I
    gs = small(R, 2)
    x = R.new(DE + 'CSVExporter', feed(R, gs))
    R.meth(x, 'addExtra', 'x', 'y')
    o = R.meth(x, 'export')
    R.require(o.ok, 'raises %s' % (o.v.cls.name if not o.ok else ''))
    parts = [o.v] if isstr(o.v) else drain(R, o.v) if isinstance(o.v, (Gen, Obj)) else list(o.v)
    got = ''
    for p in parts: got = I.models.binop(I, 'Add', got, p)
    want = HEADER
    for g in gs:
        for r, p in g[0]: want = I.models.binop(I, 'Add', I.models.binop(I, 'Add', want, '\n'), text(I, 'toCSV', r.attrs.raw('_tok'), p))
    R.require(isstr(got) and R.eq(got, want), 'another text')
    R.done()
# ---------------------------------------------------------------- dictionaries
WRAPPERS = ['default', 'list', 'FakeListIterator']
def truth(R, v):
    try: t = R.I.truth(v)
    except PyRaise as p: R.require(False, 'truth value of a list raises %s' % p.exc.cls.name)
    return z3.BoolVal(t) if isinstance(t, bool) else t
def pickof(R, l, j):
    for i, x in enumerate(l):
        if R.ctx.branch(iz(j) == i, 'element'): return x
    raise Infeasible()
def sizeok(R, v, n):
    """truth value of an exported list"""
    I = R.I
    if isinstance(v, Obj):
        R.require(v.cls.sub(I.pyclass(list)), 'no list')
        R.require(mkbool(truth(R, v) == (iz(n) > 0)), 'truth value of a list')
def elements(R, v, how, n):
    """(number, element function) of an exported list"""
    I = R.I
    v = I.models.force(I, v)
    if how == 'JSON':
        R.require(isinstance(v, (Obj, list, tuple, Seq)), 'a list cannot be written as JSON')
        how = 'FakeListIterator' if isinstance(v, Obj) else 'list'
    if how == 'list' and not isinstance(v, (list, Seq)): raise Undecided('list is %r' % (v,))
    if how == 'FakeListIterator':
        if not isinstance(v, Obj): raise Undecided('list is %r' % (v,))
        sizeok(R, v, n)
        o = R.call(I.builtins['iter'], v)
        R.require(o.ok, 'a list cannot be read')
        v = o.v
        if isinstance(v, Obj): raise Undecided('own iterator')
    if isinstance(v, (list, tuple)): return len(v), lambda j: pickof(R, v, j)
    if isinstance(v, MSeq): return v.n, lambda j: v.at(I, j)
    cs = contents(I, v)
    if cs is None: cs = [('item', x) for x in drain(R, v, 2)]
    k = z3.IntVal(0); parts = []
    for x in cs:
        if x[0] == 'item': parts.append((k, k + 1, x)); k = z3.simplify(k + 1)
        else: parts.append((k, k + iz(x[1].n) - x[2], x)); k = z3.simplify(k + iz(x[1].n) - x[2])
    def at(j):
        for lo, hi, x in parts:
            if R.I.ctx.branch(z3.And(j >= lo, j < hi), 'part'): return x[1] if x[0] == 'item' else x[1].at(I, z3.simplify(j - lo + x[2]))
        raise Infeasible()
    return mkint(k), at
def anyof(R, n):
    """an arbitrary index below n, or None"""
    c = R.ctx
    if not c.branch(iz(n) > 0, 'elements'): return None
    j = c.fresh('j'); c.assume(z3.And(j >= 0, j < iz(n)))
    return j
def check_group(R, d, g, how):
    """one element of the list of groups"""
    I = R.I
    R.require(isinstance(d, PDict), 'a group is no dictionary')
    q, cert, chain = g
    R.require({k for k, _ in d.items()} == set(KEYS), 'elements of a group')
    s = d.raw('Signaturzertifikat')
    if cert is None: R.require(R.eq(s, ''), 'certificate of a group without one')
    else: R.require(isstr(I.models.force(I, s)) and R.eq(s, pem(R, cert)), 'another certificate')
    l = I.models.force(I, d.raw('Zertifizierungsstellen'))
    if isinstance(l, Obj): n, at = elements(R, l, 'FakeListIterator', chain.n)
    else:
        R.require(isinstance(l, (list, tuple, Seq)), 'list of certificates')
        n, at = (len(l), lambda j: pickof(R, l, j)) if isinstance(l, (list, tuple)) else (l.n, lambda j: l.at(I, j))
    R.require(mkbool(iz(n) == iz(chain.n)), 'number of certificates')
    j = anyof(R, chain.n)
    if j is not None: R.require(R.eq(at(j), pem(R, chain.at(I, j))), 'another certificate in the list')
    n, at = elements(R, d.raw('Belege-kompakt'), how, q.n)
    R.require(mkbool(iz(n) == iz(q.n)), 'number of receipts')
    j = anyof(R, q.n)
    if j is not None:
        r, p = q.at(I, j)
        R.require(R.eq(at(j), text(I, 'toJWSString', r.attrs.raw('_tok'), p)), 'another receipt')
def check_export(R, v, doc, extra, how):
    I = R.I
    R.require(isinstance(v, PDict), 'no dictionary')
    keys = {k for k, _ in v.items()}
    R.require(keys == {'Belege-Gruppe'} | {k for k, _ in extra}, 'elements of the document')
    for k, x in extra: R.require(R.eq(v.raw(k), x), 'added element')
    n, at = elements(R, v.raw('Belege-Gruppe'), how, doc.n)
    R.require(mkbool(iz(n) == iz(doc.n)), 'groups are lost or repeated')
    j = anyof(R, doc.n)
    if j is not None: check_group(R, at(j), doc.group(j), how)
def add_extra(R, x):
    extra = []
    if R.pick(2, 'added elements') == 0: return extra
    for k in ('Zusatz', 'Notiz', 'Zusatz'):
        e = (k, R.text('value'))
        o = R.meth(x, 'addExtra', *e)
        R.require(o.ok, 'addExtra raises')
        extra = [y for y in extra if y[0] != k] + [e]
    return extra
DX, JX = DE + 'DEPExporter.export', DE + 'JSONExporter.export'
EUSES = USES + ['utils: PEM texts']
def exporter(how):
    name = JX if how == 'JSON' else '%s (%s)' % (DX, how)
    fns = ' '.join([DX, DE + 'DEPExporter.__init__', DE + 'DEPExporter.addExtra'] + ([JX, DE + 'JSONExporter.__init__'] if how == 'JSON' else []) + ([DE + 'FakeListIterator.' + x for x in ('__init__', '__iter__', '__bool__')] if how in ('JSON', 'FakeListIterator') else []))
    @obl(name, 'C17', fns, uses=EUSES, fallback=name + '/bounded', assumes=['json.JSONEncoder.iterencode writes the dictionary it is given, taking the elements of a list subclass by iteration and an empty one by its truth value'] if how == 'JSON' else [])
    def _(R):
        """any number of groups, receipts and certificates"""
        I, c = R.I, R.ctx
        c.data['lazycomp'] = 'lazy'; c.data['genexp'] = 'iterator'
        doc = Exported(R)
        s = asiter(R, doc.stream())
        x = newexporter(R, how, s)
        extra = add_extra(R, x)
        v = exported(R, x, how)
        check_export(R, v, doc, extra, how)
        R.done('exported')
    @obl(name + '/bounded', 'C17', fns, uses=EUSES, bounded='at most 2 groups of at most 2 receipts', unroll={'unroll': 30})
    def _(R):
        gs = small(R, 2)
        x = newexporter(R, how, feed(R, gs))
        extra = [('Zusatz', 1)] if R.pick(2, 'added') else []
        for e in extra: R.meth(x, 'addExtra', *e)
        check_small(R, exported(R, x, how), gs, extra, how)
        R.done()
def newexporter(R, how, s):
    if how == 'JSON':
        k = R.pick(3, 'pretty')
        return R.new(DE + 'JSONExporter', s, *([] if k == 2 else [bool(k)]))
    return R.new(DE + 'DEPExporter', s, *([] if how == 'default' else [R.I.pyclass(list) if how == 'list' else R.name(DE + 'FakeListIterator')]))
def exported(R, x, how):
    o = R.meth(x, 'export')
    R.require(o.ok, 'raises %s' % (o.v.cls.name if not o.ok else ''))
    if how != 'JSON': return o.v
    if not isinstance(o.v, Opaque) or o.v.kind != 'jsontext': raise Undecided('text made in another way')
    return o.v.info
def readall(R, v):
    """the list JSON or a caller sees"""
    I = R.I
    v = I.models.force(I, v)
    if isinstance(v, (list, tuple)): return list(v)
    if isinstance(v, Obj):
        R.require(v.cls.sub(I.pyclass(list)), 'no list')
        if not I.test(mkbool(truth(R, v)), 'truth value'): return []
        o = R.call(I.builtins['iter'], v)
        R.require(o.ok, 'a list cannot be read')
        v = o.v
    return drain(R, v)
def check_small(R, v, gs, extra, how):
    I = R.I
    R.require(isinstance(v, PDict), 'no dictionary')
    R.require({k for k, _ in v.items()} == {'Belege-Gruppe'} | {k for k, _ in extra}, 'elements of the document')
    for k, x in extra: R.require(R.eq(v.raw(k), x), 'added element')
    # one group after the other, as they are written
    l = I.models.force(I, v.raw('Belege-Gruppe')); n = 0
    if how == 'JSON': R.require(isinstance(l, (Obj, list, tuple)), 'a list cannot be written as JSON')
    if isinstance(l, Obj): ds = None if not readtruth(R, l) else R.call(I.builtins['iter'], l).v
    else: ds = l
    if isinstance(ds, (list, tuple)): ds = Gen(iter(list(ds)))
    while ds is not None:
        o = R.call(I.builtins['next'], ds)
        if not o.ok:
            R.require(stop(R, o), 'raises %s' % o.v.cls.name)
            break
        R.require(n < len(gs), 'too many groups')
        d, g = o.v, gs[n]; n += 1
        R.require(isinstance(d, PDict) and {k for k, _ in d.items()} == set(KEYS), 'elements of a group')
        R.require(R.eq(d.raw('Signaturzertifikat'), '' if g[1] is None else pem(R, g[1])), 'another certificate')
        cs = readall(R, d.raw('Zertifizierungsstellen'))
        R.require(len(cs) == len(g[2]), 'number of certificates')
        for a, b in zip(cs, g[2]): R.require(R.eq(a, pem(R, b)), 'another certificate in the list')
        rs = readall(R, d.raw('Belege-kompakt'))
        R.require(len(rs) == len(g[0]), 'number of receipts')
        for a, (r, p) in zip(rs, g[0]): R.require(R.eq(a, text(I, 'toJWSString', r.attrs.raw('_tok'), p)), 'another receipt')
    R.require(n == len(gs), 'groups are lost')
def readtruth(R, v):
    R.require(v.cls.sub(R.I.pyclass(list)), 'no list')
    return R.I.test(mkbool(truth(R, v)), 'truth value')
for _h in WRAPPERS + ['JSON']: exporter(_h)

@obl(DE + 'DEPExporterI.fromSingleGroup', 'C17', DE + 'DEPExporterI.fromSingleGroup', uses=EUSES)
def _(R):
    """an exporter for a single group of any size"""
    I, c = R.I, R.ctx
    c.data['lazycomp'] = 'lazy'; c.data['genexp'] = 'iterator'
    doc = Exported(R, 1)
    q, cert, chain = doc.group(z3.IntVal(0))
    rs = q if R.pick(2, 'iterator') == 0 else asiter(R, q)
    n = R.pick(3, 'arguments')
    how = ['default', 'JSON', 'CSV'][R.pick(3, 'exporter')]
    cls = {'default': 'DEPExporter', 'JSON': 'JSONExporter', 'CSV': 'CSVExporter'}[how]
    o = R.call(I.getattr(R.name(DE + cls), 'fromSingleGroup'), rs, *[cert, chain][:n])
    R.require(o.ok, 'raises %s' % (o.v.cls.name if not o.ok else ''))
    x = o.v
    if how == 'CSV':
        s = I.getattr(x, '_stream')
        if not isinstance(s, (Obj, list)): raise Undecided('stream of the exporter')
        gs = drain(R, s) if isinstance(s, Obj) else s
        R.require(len(gs) == 1 and isinstance(gs[0], tuple) and len(gs[0]) == 3, 'not one group')
        R.require(likeval(I, gs[0][0], rs) is True or gs[0][0] is rs, 'other receipts')
    else:
        doc.one = (q, cert if n > 0 else None, chain if n > 1 else Seq(0, None, 'none'))
        doc.group = lambda m: doc.one
        check_export(R, exported(R, x, how), doc, [], how)
    R.done(how)
