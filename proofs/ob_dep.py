"""Reading DEPs: C10."""
from .common import *
from . import common as CM, base
from .group import jws_rec, jws_fields
from pyvc import loops, seq as seqmod
from pyvc.seq import Seq, MSeq
from pyvc.loops import FoldRule, Template, Rejected, alike

DP = 'depparser.'
ERR = DP + 'DEPParseException'
# ---------------------------------------------------------------- single elements
def spec_enc(I, v):
    """bytes of a receipt given as JSON value, or None"""
    v = I.models.force(I, v)
    if not isstr(v) or not in_lang(I, v, L.NOSURR): return None
    return MD.encode(I, v)
def spec_cert(I, v):
    """certificate object for the text of a DEP, or None"""
    v = I.models.force(I, v)
    if not isstr(v): return None
    h = I.call(I.modules['utils'].ns['addPEMCertHeaders'], [v], {})
    if not in_lang(I, h, L.NOSURR): return None
    x = I.ctx.term(MD.encode(I, h))
    if not I.ctx.branch(F('certok', 'S>B')(x), 'valid certificate'): return None
    return Opaque('cert', F('loadcert', 'S>A')(x))
def parse_error(R, o, what):
    R.require(R.cls(o, ERR), '%s is answered with %s' % (what, o.v.cls.name))

@obl('depparser: elements', 'C10 C16 C17', DP + 'shrinkDEPReceipt ' + DP + 'expandDEPReceipt ' + DP + 'parseDEPCert', uses=['utils: PEM texts'])
def _(R):
    """receipts and certificates as found in a DEP document"""
    I = R.I
    R.ctx.data['lazycomp'] = 'lazy'
    k = R.pick(3, 'function')
    extra = [R.int('idx')] if k < 2 and R.pick(2, 'index given') else []
    if k == 1:
        x = R.bytes('rec')
        o = R.call(DP + 'expandDEPReceipt', x, *extra)
        ok = in_lang(I, x, L.UTF8) if hasattr(L, 'UTF8') else None
        try: want = MD.decode(I, x)
        except PyRaise: want = None
        R.require(o.ok == (want is not None), 'bytes of a receipt: %s' % ('accepted' if o.ok else 'refused'))
        if o.ok: R.require(R.eq(o.v, want), 'another receipt after expanding')
        else: parse_error(R, o, 'an undecodable receipt')
        R.done('ok' if o.ok else 'error'); return
    v = MD.SJson('element')
    if k == 0:
        o = R.call(DP + 'shrinkDEPReceipt', v, *extra)
        want = spec_enc(I, v)
        R.require(o.ok == (want is not None), 'receipt is %s' % ('accepted' if o.ok else 'refused'))
        if o.ok:
            R.require(isbytes(o.v), 'a receipt is not kept as bytes')
            R.require(R.eq(o.v, want), 'another receipt after shrinking')
            b = R.call(DP + 'expandDEPReceipt', o.v)
            R.require(b.ok and isstr(b.v) and R.eq(b.v, I.models.force(I, v)), 'another receipt after shrinking and expanding')
        else: parse_error(R, o, 'a malformed receipt')
    else:
        o = R.call(DP + 'parseDEPCert', v)
        want = spec_cert(I, v)
        R.require(o.ok == (want is not None), 'certificate is %s' % ('accepted' if o.ok else 'refused'))
        if o.ok: R.require(alike(I, o.v, want), 'another certificate')
        else: parse_error(R, o, 'a malformed certificate')
    R.done('ok' if o.ok else 'error')

# ---------------------------------------------------------------- one group of a document
KEYS = ('Belege-kompakt', 'Signaturzertifikat', 'Zertifizierungsstellen')
def aslist(R, v):
    """(length, element function) of a list or iterator"""
    I = R.I
    if isinstance(v, Gen) and not (v.started or v.done or v.busy): v = v.seq if v.seq is not None else list(I.iterate(v))
    if isinstance(v, (list, tuple)): return len(v), lambda i: v[i]
    if isinstance(v, Seq): return v.n, lambda i: v.at(I, i)
    return None
def anyel(R, n, what='element'):
    """an arbitrary index below n, or None"""
    c = R.ctx
    if not c.branch(iz(n) > 0, what): return None
    j = c.fresh('any'); c.assume(z3.And(j >= 0, j < iz(n)))
    return z3.simplify(j)
def bad_among(R, l, spec):
    """one of the elements looked at is malformed"""
    return any(spec(R.I, x) is None for x in list(l.memo.values()))
@obl(DP + 'DictDEPParser._parseDEPGroup', 'C10 C16', DP + 'DictDEPParser._parseDEPGroup', uses=['utils: PEM texts'])
def _(R):
    """any JSON value: a well-formed group gives its receipts, certificate and
    certificate list in order, anything else a parse error"""
    I, c = R.I, R.ctx
    c.data['lazycomp'] = 'lazy'
    g = MD.SJson('group')
    p = R.new(DP + 'DictDEPParser', PDict())
    o = R.meth(p, '_parseDEPGroup', g, R.int('idx', 0))
    def malformed():
        d = I.models.force(I, g)
        if not isinstance(d, MD.SymDict): return 'no object'
        v = {}
        for k in KEYS:
            e = d.has(I, k)
            if not e[1]: return k + ' missing'
            v[k] = I.models.force(I, e[2])
        if not isstr(v[KEYS[1]]): return 'certificate is no text'
        if not isinstance(v[KEYS[2]], MD.SymList): return 'certificate list is no list'
        if not isinstance(v[KEYS[0]], MD.SymList): return 'receipts are no list'
        return v
    v = malformed()
    if isinstance(v, str):
        if not o.ok: parse_error(R, o, 'a group where ' + v); R.done('malformed'); return
        R.require(False, 'accepts a group although: ' + v, case={'why': v})
        return
    recs, cert, certs = (v[k] for k in KEYS)
    empty = I.test(mkbool(I.models.equal(I, cert, '')))
    want = None if empty else spec_cert(I, cert)
    if not o.ok:
        parse_error(R, o, 'a malformed group')
        bad = not empty and want is None or bad_among(R, certs, spec_cert) or bad_among(R, recs, spec_enc)
        R.require(bad, 'a well-formed group is refused with ' + o.v.cls.name)
        R.done('malformed'); return
    R.require(empty or want is not None, 'accepts an invalid signing certificate')
    R.require(isinstance(o.v, tuple) and len(o.v) == 3, 'result is no triple')
    gr, gc, gl = o.v
    R.require(alike(I, gc, want), 'another signing certificate')
    a = aslist(R, gl)
    if a is None: raise Undecided('certificate list is %r' % (gl,))
    n, at = a
    R.require(mkbool(iz(n) == iz(certs.n)), 'number of certificates in the list')
    j = anyel(R, n, 'certificate in the list')
    if j is not None:
        x = at(j)
        w = spec_cert(I, certs.item(str(j)))
        R.require(w is not None, 'accepts a malformed certificate list')
        R.require(alike(I, x, w), 'another certificate in the list')
    a = aslist(R, gr)
    if a is None: raise Undecided('receipts are %r' % (gr,))
    n, at = a
    R.require(mkbool(iz(n) == iz(recs.n)), 'number of receipts')
    j = anyel(R, n, 'receipt')
    if j is not None:
        try: x = at(j)
        except PyRaise as e: x = e.exc
        w = spec_enc(I, recs.item(str(j)))
        if w is None:
            R.require(isinstance(x, Obj) and x.cls.sub(R.name(ERR)), 'a malformed receipt is delivered'); R.done('malformed receipt'); return
        R.require(isbytes(x) and R.eq(x, w), 'another receipt')
    R.done('group')

@obl(DP + 'totalRecsInDictDEP', 'C10 C16', DP + 'totalRecsInDictDEP')
def _(R):
    """sum over the groups of the number of their receipts, groups without a
    list of receipts having none"""
    I, c = R.I, R.ctx
    c.data['lazycomp'] = 'lazy'
    d = MD.SymDict(I, 'dep')
    o = R.call(DP + 'totalRecsInDictDEP', d)
    R.require(o.ok, 'counting the receipts raises %s' % (o.v.cls.name if not o.ok else ''))
    e = d.has(I, 'Belege-Gruppe')
    l = I.models.force(I, e[2]) if e[1] else None
    if not isinstance(l, MD.SymList):
        R.require(isint(o.v) and mkbool(iz(o.v) == 0), 'receipts counted without groups'); R.done('none'); return
    s = [q for t, q in c.data.get('sums', []) if isinstance(o.v, SInt) and o.v.t.eq(t)]
    if not s or getattr(s[0].root, 'src', None) is not l: raise Undecided('no sum over the groups')
    R.require(mkbool(iz(s[0].n) == iz(l.n)), 'number of groups counted')
    j = anyel(R, s[0].n)
    if j is not None:
        r = s[0].at(I, j)
        k = s[0].index(j)
        g = I.models.force(I, l.item(str(k)))
        t = 0
        if isinstance(g, MD.SymDict):
            x = g.has(I, 'Belege-kompakt')
            y = I.models.force(I, x[2]) if x[1] else None
            if isinstance(y, MD.SymList): t = iz(y.n)
        R.require(mkbool(iz(r) == t), 'number of receipts of a group')
    R.done()

# ---------------------------------------------------------------- documents of any number of groups
class Doc(object):
    """N groups; group i has len(i) receipts, a certificate object and a
    certificate list.  G(i): receipts before group i"""
    def __init__(self, R, name='dep'):
        self.R = R; c = R.ctx
        self.tok = c.fresh(name, 'A')
        self.n = c.fresh('groups'); c.assume(self.n >= 0)
        c.assume(self.G(0) == 0)
        c.assume(self.G(self.n) >= 0)
        self.total = self.G(self.n)
        self.objs = {}
        self.groups = []
    def G(self, i): return F('grstart', 'AI>I')(self.tok, z3.simplify(iz(i)))
    def len(self, i):
        """number of receipts of group i"""
        c = self.R.ctx; i = z3.simplify(iz(i))
        l = F('grlen', 'AI>I')(self.tok, i)
        # prefix sums of natural numbers
        c.once(('grlen', self.tok, l.get_id()), lambda: z3.And(l >= 0, self.G(i) >= 0, self.G(z3.simplify(i + 1)) == self.G(i) + l,
            z3.Implies(i + 1 <= self.n, self.G(z3.simplify(i + 1)) <= self.total), z3.Implies(i <= self.n, self.G(i) <= self.total)))
        c.keep.append(l)
        return l
    def rec(self, i, j):
        return SBytes([self.R.ctx.atom(F('docrec', 'AII>S')(self.tok, z3.simplify(iz(i)), z3.simplify(iz(j))), L.BYTES)])
    def group(self, i):
        """(receipts, certificate, list) of group i: the same objects each time"""
        c, I = self.R.ctx, self.R.I
        i = z3.simplify(iz(i))
        for k, v in self.groups:
            if k.eq(i) or c.implied(k == i): return v
        m = self.len(i)
        def el(I, j):
            if c.branch(F('docbad', 'AII>B')(self.tok, i, z3.simplify(iz(j))), 'malformed receipt'): self.fail()
            return self.rec(i, j)
        q = Seq(SInt(m), el, 'receipts'); q.gi = i
        # no certificate, or one
        cert = Opaque('cert', F('doccert', 'AI>A')(self.tok, i)) if c.branch(F('doccertgiven', 'AI>B')(self.tok, i), 'certificate given') else None
        certs = Opaque('certlist', F('docchain', 'AI>A')(self.tok, i))
        self.groups.append((i, (q, cert, certs)))
        return q, cert, certs
    def fail(self):
        self.R.ctx.data['bad'] = True
        raise self.R.I.exc(self.R.name(ERR), 'malformed')

class ChunkIs(Template):
    """list of the non-empty pieces of groups that make up positions lo to hi,
    every group in one piece, the last one whole"""
    def __init__(self, E, lo, hi): self.E, self.lo, self.hi = E, z3.simplify(iz(lo)), z3.simplify(iz(hi))
    def make(self):
        c = self.E.R.ctx
        if not c.branch(self.lo < self.hi, 'receipts in the chunk'): return []
        m = c.fresh('pieces'); c.assume(m >= 0); c.assume((m > 0) == (self.lo < self.hi))
        def el(I, i): raise Unsupported('element of a chunk')
        r = MSeq(mkint(m), el, 'chunk'); r.chunk = (self.lo, self.hi)
        return r
    def matches(self, I, v):
        if self.E.escaped(v): return False
        d = self.E.describe(v)
        if d is None: return False
        lo, hi, whole = d
        if lo is None: return mkbool(self.lo == self.hi)
        return conj([bt(mkbool(lo == self.lo)), bt(mkbool(hi == self.hi)), bt(whole)])
class RecsIs(Template):
    """list of receipts a to b - 1 of group i"""
    def __init__(self, E, i, a, b): self.E, self.i, self.a, self.b = E, z3.simplify(iz(i)), z3.simplify(iz(a)), z3.simplify(iz(b))
    def make(self):
        if self.E.R.ctx.implied(self.a == self.b): return []
        r = MSeq(mkint(self.b - self.a), lambda I, j: self.E.doc.rec(self.i, self.a + j), 'recs'); r.piece = (self.i, self.a, self.b)
        return r
    def matches(self, I, v):
        if self.E.escaped(v): return False
        d = self.E.piece(v, self.i)
        if d is None: return False
        if d == (): return mkbool(self.a == self.b)
        a, b = d
        return conj([bt(mkbool(a == self.a)), bt(mkbool(b == self.b))])
class Emitted(object):
    """consumer of the chunks: everything before position start was delivered"""
    def __init__(self, R, doc, size):
        self.R, self.doc, self.size = R, doc, size
        self.start = z3.IntVal(0)
        self.heaps = []
    def escaped(self, v): return any(id(v) in ids for h, ids in self.heaps)
    def intact(self):
        for h, ids in self.heaps:
            if any(id(x) in ids for x in h.changed()): self.R.require(False, 'a chunk changes after it was delivered', case={'chunk': 'changed'})
    def piece(self, v, i):
        """which receipts of group i a list consists of: (from, to), () if none"""
        c = self.R.ctx
        def follows(x, b):
            # receipt b of the group?
            if not isbytes(x) or c.conc(x) is not None: return False
            return c.implied(c.term(x) == c.term(self.doc.rec(i, b)))
        if isinstance(v, (list, tuple)): base, add = None, list(v)
        elif isinstance(v, MSeq):
            if getattr(v, 'piece', None): base = v.piece
            elif getattr(v, 'src', None) is not None: base = self.slice_of(v.src)
            else: return None
            if base is None: return None
            n0 = iz(v.base.n)
            add = []
            for k, (j, x) in enumerate(v.writes):
                if not c.implied(j == n0 + k): return None
                add.append(x)
        elif isinstance(v, Seq):
            base, add = self.slice_of(v), []
            if base is None: return None
        else: return None
        if base is not None:
            if not c.implied(base[0] == i): return None
            lo, hi = base[1], base[2]
        elif not add: return ()
        else:
            tg = self.index_of(add[0], i)
            if tg is None: return None
            lo = hi = tg
        for x in add:
            if not follows(x, hi): return None
            hi = z3.simplify(hi + 1)
        return lo, hi
    def slice_of(self, q):
        r = q.root
        if getattr(r, 'gi', None) is None or q.step != 1 or getattr(q, 'name', '') in ('comp', 'map', 'genexp'): return None
        return (r.gi, z3.simplify(iz(q.off)), z3.simplify(iz(q.off) + iz(q.n)))
    def index_of(self, x, i):
        """j such that x is receipt j of group i"""
        if not isbytes(x) or self.R.ctx.conc(x) is not None: return None
        t = self.R.ctx.term(x)
        if z3.is_app(t) and t.decl().name() == 'docrec' and self.R.ctx.implied(t.arg(1) == i): return t.arg(2)
        return None
    def describe(self, v):
        """positions a chunk covers: (lo, hi, is the last piece the rest of its
        group); None if it is no sequence of pieces in order; (None, ..) if empty"""
        c = self.R.ctx
        base = None; add = []
        if isinstance(v, (list, tuple)): add = list(v)
        elif isinstance(v, MSeq) and getattr(v, 'chunk', None):
            base = v.chunk
            n0 = iz(v.base.n)
            for k, (j, x) in enumerate(v.writes):
                if not c.implied(j == n0 + k): return None
                add.append(x)
        else: return None
        if base is not None and c.implied(base[0] == base[1]): base = None
        if base is None and not add: return None, None, True
        self.why = 'pieces'
        lo = hi = None; whole = True
        if base is not None: lo, hi = base
        for t in add:
            if not isinstance(t, tuple) or len(t) != 3: return None
            recs, cert, certs = t
            g = self.owner(certs)
            if g is None: return None
            i, (q, gc, gl) = g
            if not (cert is gc): self.why = 'another certificate'; return None
            if not self.R.I.ctx.implied(bt(whole)): self.why = 'a group in several pieces'; return None
            p = self.piece(recs, i)
            if p is None: return None
            if p == (): self.why = 'empty group'; return None
            a, b = p
            if not c.implied(a < b): self.why = 'empty group'; return None
            pa, pb = self.doc.G(i) + a, self.doc.G(i) + b
            if lo is None: lo = pa
            elif not (c.implied(hi == pa) and c.implied(a == 0)): self.why = 'order of the groups'; return None
            hi = pb; whole = mkbool(b == self.doc.len(i))
        return z3.simplify(lo), z3.simplify(hi), whole
    def owner(self, certs):
        for i, g in self.doc.groups:
            if g[2] is certs: return i, g
        return None
    def take(self, v):
        """a chunk is delivered"""
        R, c = self.R, self.R.ctx
        self.intact()
        d = self.describe(v)
        if d is None:
            if self.alien(v): raise Undecided('chunk of unknown form %r' % (v,))
            R.require(False, 'a chunk does not consist of the receipts of the groups in order: %s' % getattr(self, 'why', ''), case={'chunk': getattr(self, 'why', '')})
        lo, hi, whole = d
        R.require(lo is not None, 'an empty chunk is delivered', case={'chunk': 'empty'})
        R.require(mkbool(lo == self.start), 'receipts are lost or repeated', case={'chunk': 'position'})
        R.require(mkbool(z3.And(hi > lo, hi <= self.doc.total)), 'receipts beyond the document')
        n = iz(self.size)
        R.require(mkbool(z3.Implies(n > 0, z3.Or(hi - lo == n, z3.And(hi - lo < n, hi == self.doc.total)))), 'chunk of another size than asked for', case={'chunk': 'size'})
        if c.branch(n == 0, 'no chunk size'):
            # groups are kept whole
            R.require(mkbool(bt(whole)), 'a group is split without chunk size', case={'chunk': 'split'})
            R.require(self.whole_first(v), 'a group is split without chunk size', case={'chunk': 'split'})
        self.start = hi
        h = loops.Heap(R.I, [v], [])
        self.heaps.append((h, {i for i, (x, s) in h.seen.items() if isinstance(x, (list, MSeq, PDict, PSet))}))
    def whole_first(self, v):
        if isinstance(v, MSeq): return True
        g = self.owner(v[0][2])
        return mkbool(self.piece(v[0][0], g[0])[0] == 0)
    def alien(self, v):
        """contains objects whose contents are not known"""
        if v is POISON or not isinstance(v, (list, tuple, MSeq)): return not isinstance(v, (list, tuple))
        xs = list(v) if not isinstance(v, MSeq) else [x for _, x in v.writes]
        if isinstance(v, MSeq) and not getattr(v, 'chunk', None): return True
        for t in xs:
            if t is POISON or isinstance(t, tuple) and any(x is POISON for x in t): return True
            if isinstance(t, tuple) and len(t) == 3 and isinstance(t[0], Seq) and not getattr(t[0], 'piece', None) and (getattr(t[0], 'src', None) is None or self.slice_of(t[0].src) is None): return True
        return False

class ChunkFold(FoldRule):
    """loop over the groups"""
    def __init__(self, R, E, inv, mode):
        FoldRule.__init__(self, R, None, inv, mode); self.E = E
    def roots(self): return []
    def escaped(self, v): return self.E.escaped(v)
    def entry(self): return self.E
    def step(self, g, i):
        if self.I.ctx.data.get('bad'): return Rejected('C10 C16', 'malformed element')
        return self.E
    def accepted(self, g): self.R.require(False, 'goes on after an error: ' + g.detail, g.why)
    def pos(self, i): return self.E.doc.G(z3.simplify(iz(i) + 1))
    def before(self, k): return self.E.doc.G(k)
    def limits(self, start, pos, base):
        n = iz(self.E.size)
        return [z3.And(start >= 0, start <= pos), z3.Implies(n > 0, pos - start < n), z3.Implies(n == 0, start == base)]
    def arb(self, k):
        c, doc = self.I.ctx, self.E.doc
        k = z3.simplify(iz(k))
        if not k.eq(z3.simplify(iz(doc.n))): doc.len(k)
        doc.len(z3.simplify(k - 1))
        s = c.fresh('start')
        for x in self.limits(s, self.before(k), self.before(k)): c.assume(x)
        self.E.start = s
        return self.E
    def shape(self, g, old):
        self.E.intact()
        p = self.pos(self.at)
        return [(mkbool(x), 'receipts kept back') for x in self.limits(self.E.start, p, p)]
    def body(self, I, s, fr, g, i, heap, key, entryvals, roots):
        self.at = i
        return FoldRule.body(self, I, s, fr, g, i, heap, key, entryvals, roots)
    def finished(self, q): self.E.finished = True
    def common(self, i, pos):
        n = iz(self.E.size); E = self.E
        return [('count', lambda: mkint(pos - E.start)), ('left', lambda: mkint(n - (pos - E.start))), ('index', lambda: mkint(iz(i))), ('next', lambda: mkint(iz(i) + 1)),
            ('given', lambda: mkbool(E.start > 0)), ('None', lambda: None), ('True', lambda: True), ('False', lambda: False), ('zero', lambda: 0)]
    def templates(self, g, i):
        E = self.E; pos = self.pos(i)
        return [('chunk', lambda: ChunkIs(E, E.start, pos)), ('empty', lambda: RecsIs(E, i, 0, 0))] + self.common(i, pos)
class RecFold(ChunkFold):
    """loop over the receipts of one group"""
    def __init__(self, R, outer, mode):
        ChunkFold.__init__(self, R, outer.E, outer.inv, mode)
    def handles(self, q):
        if getattr(q.root, 'gi', None) is None: return False
        self.seq = q.root
        return True
    @property
    def gi(self): return self.seq.gi
    def pos(self, i): return z3.simplify(self.E.doc.G(self.gi) + iz(i) + 1)
    def before(self, k): return z3.simplify(self.E.doc.G(self.gi) + iz(k))
    def limits(self, start, pos, base): return ChunkFold.limits(self, start, pos, self.E.doc.G(self.gi))
    def arb(self, k):
        c = self.I.ctx
        s = c.fresh('start')
        for x in self.limits(s, self.before(k), None): c.assume(x)
        self.E.start = s
        return self.E
    def finished(self, q): pass
    def templates(self, g, i):
        E = self.E; G = E.doc.G(self.gi); pos = self.pos(i)
        s = E.start
        a = z3.simplify(z3.If(s > G, s - G, 0))
        return [('chunk', lambda: ChunkIs(E, s, z3.If(s > G, s, G))), ('recs', lambda: RecsIs(E, self.gi, a, iz(i) + 1)), ('elem', lambda: self.seq.at(self.I, i))] + self.common(i, pos)
def consume(R, gen, E):
    """takes all chunks; the exception if there is one"""
    if not isinstance(gen, Gen):
        if isinstance(gen, Obj): raise Undecided('not a generator')
        R.require(isinstance(gen, (list, tuple, Seq)), 'result is %r' % (gen,))
    else: R.ctx.data['topgen'] = gen.frame
    try:
        for ch in R.I.iterate(gen): E.take(ch)
    except PyRaise as p:
        E.intact()
        return p.exc
    E.intact()
    return None
GC = DP + 'DictDEPParser._groupChunkGen'
@contract(DP + 'DictDEPParser._parseDEPGroup', DP + 'DictDEPParser._parseDEPGroup')
def _(I, f, a, k):
    doc = I.ctx.data.get('doc')
    if doc is None: return MISSING
    b = I.bindargs(f, a, k)
    g = b.get('group')
    if not isinstance(g, Opaque) or g.kind != 'depgroup': return MISSING
    i = g.t.arg(1)
    c = I.ctx
    if c.branch(F('docbadgroup', 'AI>B')(doc.tok, i), 'malformed group'): doc.fail()
    q, cert, certs = doc.group(i)
    r = Gen(seqmod.iterate(I, q)); r.seq = q
    return (r, cert, certs)
def docgroups(R, doc):
    def el(I, i):
        i = z3.simplify(iz(i))
        doc.len(i)
        o = Opaque('depgroup', F('docgroup', 'AI>A')(doc.tok, i))
        return o
    return Seq(SInt(doc.n), el, 'groups')
def chunk_gen(R, n=None):
    c = R.ctx
    doc = c.data['doc'] = Doc(R)
    size = R.int('chunksize', 0)
    p = R.new(DP + 'DictDEPParser', PDict())
    groups = docgroups(R, doc)
    E = Emitted(R, doc, size)
    return p, groups, size, E, doc
@obl(GC, 'C10 C08', GC, uses=[DP + 'DictDEPParser._parseDEPGroup'], fold=True, fallback=GC + '/bounded')
def _(R):
    """any number of groups, receipts per group and chunk size: the chunks are
    consecutive slices of the document of the size asked for"""
    c = R.ctx
    p, groups, size, E, doc = chunk_gen(R)
    h = ChunkFold(R, E, base.INV.get(GC, {}), c.data.get('mode'))
    h.seq = groups
    c.data['fold'] = [h, RecFold(R, h, c.data.get('mode'))]
    o = R.meth(p, '_groupChunkGen', size, groups)
    R.require(o.ok, 'raises at the call')
    finish_chunks(R, o.v, E)
def finish_chunks(R, gen, E):
    exc = consume(R, gen, E)
    if exc is not None:
        R.require(R.ctx.data.get('bad', False), 'raises %s for a well-formed document' % exc.cls.name)
        R.require(exc.cls.sub(R.name(ERR)), 'raises %s' % exc.cls.name)
        R.done('malformed'); return
    R.require(not R.ctx.data.get('bad', False), 'passes over a malformed element')
    R.require(mkbool(E.start == E.doc.total), 'the last receipts are lost', case={'chunk': 'last'})
    R.done('all')
@obl(GC + '/bounded', 'C10 C08', GC, uses=[DP + 'DictDEPParser._parseDEPGroup'], bounded='at most 2 groups of at most 2 receipts', unroll={'unroll_seq': 2})
def _(R):
    p, groups, size, E, doc = chunk_gen(R)
    o = R.meth(p, '_groupChunkGen', size, groups)
    R.require(o.ok, 'raises at the call')
    finish_chunks(R, o.v, E)

# ---------------------------------------------------------------- generators that pass things on in order
class InOrder(object):
    """consumer: item number next must come next"""
    def __init__(self, R, total, number, heads='item'):
        self.R, self.total, self.number = R, total, number
        self.next = z3.IntVal(0)
    def take(self, v):
        n = self.number(v)
        self.R.require(mkbool(n == self.next), 'items are lost, repeated or out of order', case={'chunk': 'order'})
        self.next = z3.simplify(self.next + 1)
    def intact(self): pass
class OrderFold(FoldRule):
    """loop over items; those before item k have been passed on"""
    def __init__(self, R, seq, E, inv, mode, base=0):
        FoldRule.__init__(self, R, seq, inv, mode); self.E, self.base = E, base
    def roots(self): return []
    def entry(self): return self.E
    def step(self, g, i):
        if self.I.ctx.data.get('bad'): return Rejected('C10 C16', 'malformed element')
        return self.E
    def accepted(self, g): self.R.require(False, 'goes on after an error: ' + g.detail, g.why)
    def first(self, k): return z3.simplify(iz(self.base) + iz(k))      # number of the first item not passed on
    def arb(self, k): self.E.next = self.first(k); return self.E
    def body(self, I, s, fr, g, i, heap, key, entryvals, roots):
        self.at = i
        return FoldRule.body(self, I, s, fr, g, i, heap, key, entryvals, roots)
    def shape(self, g, old): return [(mkbool(self.E.next == self.first(z3.simplify(iz(self.at) + 1))), 'item not passed on, or several times')]
    def templates(self, g, i):
        E = self.E
        return [('elem', lambda: self.seq.at(self.I, i)), ('index', lambda: mkint(iz(i))), ('next', lambda: mkint(iz(i) + 1)), ('items', lambda: mkint(E.next)),
            ('any', lambda: mkbool(E.next > 0)), ('none', lambda: mkbool(E.next == 0)), ('None', lambda: None), ('True', lambda: True), ('False', lambda: False), ('zero', lambda: 0)]
PA = DP + 'DictDEPParser.parse'
def _gencontract(I, f, a, k):
    """chunk generator: any number of chunks, or an error at one of them"""
    d = I.ctx.data.get('chunks')
    if d is None: return MISSING
    b = I.bindargs(f, a, k)
    if 'chunksize' not in b or 'groups' not in b: return MISSING
    d['args'] = (b['chunksize'], b['groups'])
    r = Gen(seqmod.iterate(I, d['seq'])); r.seq = d['seq']
    return r
contract(GC, GC)(_gencontract)
def chunkseq(R, name='chunk'):
    """any number of chunks, one of which may not come to be"""
    c = R.ctx
    tok = c.fresh(name, 'A'); n = c.fresh('nchunks'); c.assume(n >= 0)
    def el(I, i):
        i = z3.simplify(iz(i))
        if c.branch(F('chunkbad', 'AI>B')(tok, i), 'malformed chunk'):
            c.data['bad'] = True
            raise I.exc(R.name(ERR), 'malformed')
        return Opaque('depchunk', F('depchunk', 'AI>A')(tok, i))
    q = Seq(SInt(n), el, 'chunks')
    def number(v):
        if not isinstance(v, Opaque) or v.kind != 'depchunk': raise Undecided('chunk %r' % (v,))
        return v.t.arg(1)
    return q, number
@obl(PA, 'C10 C16 C08', PA, uses=[GC, DP + 'totalRecsInDictDEP'], fold=True, assumes=['the quotient of two numbers of receipts is computed exactly'])
def _(R):
    """any JSON value as document: the chunks of its groups, or a parse error"""
    I, c = R.I, R.ctx
    c.data['lazycomp'] = 'lazy'
    v = MD.SJson('dep')
    q, number = chunkseq(R)
    d = c.data['chunks'] = {'seq': q}
    E = InOrder(R, iz(q.n), number)
    h = OrderFold(R, q, E, base.INV.get(PA, {}), c.data.get('mode'))
    c.data['fold'] = h
    size = R.int('chunksize', 0); nparts = R.int('nparts', 1)
    p = R.new(DP + 'DictDEPParser', v, nparts)
    o = R.meth(p, 'parse', size)
    exc = consume(R, o.v, E) if o.ok else o.v
    dv = I.models.force(I, v)
    e = dv.has(I, 'Belege-Gruppe') if isinstance(dv, MD.SymDict) else None
    l = I.models.force(I, e[2]) if e and e[1] else None
    good = isinstance(l, MD.SymList) and I.test(mkbool(iz(l.n) > 0))
    if not good or c.data.get('bad') or I.test(mkbool(iz(q.n) == 0)):
        R.require(exc is not None, 'no error for a malformed document')
        R.require(exc.cls.sub(R.name(ERR)), 'a malformed document is answered with %s' % exc.cls.name)
        R.done('error'); return
    R.require(exc is None, 'raises %s for a well-formed document' % (exc and exc.cls.name))
    if 'args' not in d: raise Undecided('chunks come from elsewhere')
    R.require(mkbool(E.next == E.total), 'chunks are lost')
    s, gr = d['args']
    R.require(I.models.force(I, gr) is l, 'other groups are read')
    R.require(isint(s), 'chunk size is no number')
    R.require(mkbool(z3.Implies(z3.Or(iz(size) > 0, iz(nparts) == 1), iz(s) == iz(size))), 'another chunk size than asked for', case={'chunk': 'size'})
    R.require(mkbool(iz(s) >= 0), 'negative chunk size')
    R.done('all')

# ---------------------------------------------------------------- receipt groups for the exporters
RG = DP + 'receiptGroupAdapter'
@contract('jws:function of the text', 'receipt.Receipt.fromJWSString')
def _(I, f, a, k):
    if len(a) != 1 or k or not isinstance(I.models.force(I, a[0]), SStr): return MISSING
    x = I.ctx.term(a[0])
    if not I.ctx.branch(F('jwsok', 'S>B')(x), 'well-formed receipt'): raise I.exc(I.modules['receipt'].ns['MalformedReceiptException'], 'text')
    return Opaque('parsed', F('jwsparsed', 'S>A')(x))
class Chunks(object):
    """M chunks; chunk m has len(m) groups, group (m, e) len(m, e) receipts"""
    def __init__(self, R, n=None):
        c = R.ctx; self.R = R
        self.tok = c.fresh('dep', 'A')
        if n is None:
            n = c.fresh('chunks'); c.assume(n >= 0)
        self.n = n
        c.assume(self.H(0) == 0)
        self.known = []
    def H(self, i): return F('chstart', 'AI>I')(self.tok, z3.simplify(iz(i)))
    def len(self, i):
        c = self.R.ctx; i = z3.simplify(iz(i))
        l = F('chlen', 'AI>I')(self.tok, i)
        c.once(('chlen', self.tok, l.get_id()), lambda: z3.And(l >= 0, self.H(i) >= 0, self.H(z3.simplify(i + 1)) == self.H(i) + l))
        c.keep.append(l)
        return l
    def chunk(self, I, m):
        m = z3.simplify(iz(m))
        q = Seq(SInt(self.len(m)), lambda I, e: self.group(m, e), 'chunk'); q.mi = m
        return q
    def group(self, m, e):
        c = self.R.ctx; e = z3.simplify(iz(e))
        for a, b, v in self.known:
            if c.implied(a == m) and c.implied(b == e): return v
        k = F('gpair', 'II>I')(m, e)
        n = F('grlen2', 'AII>I')(self.tok, m, e); c.assume(n >= 0)
        rec = lambda j: SBytes([c.atom(F('docrec', 'AII>S')(F('grtok', 'AII>A')(self.tok, m, e), z3.IntVal(0), z3.simplify(iz(j))), L.BYTES)])
        q = Seq(SInt(n), lambda I, j: rec(j), 'receipts')
        cert = Opaque('cert', F('doccert2', 'AII>A')(self.tok, m, e)) if c.branch(F('doccertgiven2', 'AII>B')(self.tok, m, e), 'certificate given') else None
        certs = Opaque('certlist', F('docchain2', 'AII>A')(self.tok, m, e))
        v = (q, cert, certs)
        self.known.append((m, e, v))
        return v
    def number(self, v):
        """number of the group an emitted tuple comes from; checks the tuple"""
        R, I = self.R, self.R.I
        if not isinstance(v, tuple) or len(v) != 3: raise Undecided('group %r' % (v,))
        for m, e, g in self.known:
            if v[2] is g[2]: break
        else:
            if isinstance(v[2], (list, tuple, MSeq)): raise Undecided('another certificate list object')
            R.require(False, 'another certificate list', case={'group': 'list'})
        R.require(alike(I, v[1], g[1]), 'another certificate', case={'group': 'certificate'})
        a = aslist(R, v[0])
        if a is None: raise Undecided('receipts are %r' % (v[0],))
        n, at = a
        R.require(mkbool(iz(n) == iz(g[0].n)), 'number of receipts in a group', case={'group': 'number'})
        j = anyel(R, n)
        if j is not None:
            x = at(j)
            want = spec_rec(I, g[0].at(I, j))
            if want is None: raise Undecided('malformed receipt is passed on')
            R.require(alike(I, x, want), 'another receipt', case={'group': 'receipt'})
        return self.H(m) + e
def spec_rec(I, b):
    try:
        t = MD.decode(I, b)
        return I.call(I.getattr(I.modules['receipt'].ns['Receipt'], 'fromJWSString'), [t], {})
    except PyRaise: return None
class GroupsFold(OrderFold):
    """loop over the groups of a chunk"""
    def __init__(self, R, outer, mode): OrderFold.__init__(self, R, None, outer.E, outer.inv, mode); self.outer = outer
    def handles(self, q):
        if getattr(q.root, 'mi', None) is None: return False
        self.seq = q.root; self.base = self.outer.doc.H(q.root.mi)
        return True
class ChunksFold(OrderFold):
    def first(self, k): return self.doc.H(k)
    def body(self, I, s, fr, g, i, heap, key, entryvals, roots):
        self.doc.len(i)
        return OrderFold.body(self, I, s, fr, g, i, heap, key, entryvals, roots)
def adapter(R, doc, chunks, fold=True):
    I, c = R.I, R.ctx
    c.data['lazycomp'] = True
    E = InOrder(R, None, doc.number)
    if fold:
        h = ChunksFold(R, chunks, E, base.INV.get(RG, {}), c.data.get('mode')); h.doc = doc
        c.data['fold'] = [h, GroupsFold(R, h, c.data.get('mode'))]
    o = R.call(RG, chunks)
    exc = consume(R, o.v, E) if o.ok else o.v
    if exc is not None:
        # one of the receipts looked at is malformed
        bad = any(spec_rec(I, x) is None for _, _, g in doc.known for _, x in g[0].memo)
        R.require(bad, 'raises %s for well-formed receipts' % exc.cls.name)
        R.require(exc.cls.sub(R.name('utils.RKSVException')), 'a malformed receipt is answered with %s' % exc.cls.name, 'C16')
        R.done('malformed'); return
    R.require(mkbool(E.next == doc.H(doc.n)), 'groups are lost')
    R.done('all')
@obl(RG, 'C17 C10', RG, uses=['jws:function of the text'], fold=True)
def _(R):
    """any number of chunks, groups and receipts: every group is passed on in
    order with its receipts parsed, its certificate and its list"""
    doc = Chunks(R)
    adapter(R, doc, Seq(SInt(doc.n), lambda I, m: doc.chunk(I, m), 'chunks'))
@contract(DP + 'totalRecsInDictDEP', DP + 'totalRecsInDictDEP')
def _(I, f, a, k):
    # a sum of lengths
    if not isinstance(I.models.force(I, a[0]), MD.SymDict): return MISSING
    n = I.ctx.fresh('nrecs'); I.ctx.assume(n >= 0)
    return SInt(n)
