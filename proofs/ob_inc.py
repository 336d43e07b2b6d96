"""Reading DEPs from JSON event streams: C10, C16, C08."""
from .ob_dep import *
from . import ob_file
from . import base

IP = DP + 'IncrementalDEPParser.parse'
BG = 'Belege-Gruppe'
EL = {'cert': BG + '.item.Signaturzertifikat', 'list': BG + '.item.Zertifizierungsstellen', 'recs': BG + '.item.Belege-kompakt'}
VALUES = ('start_map', 'start_array', 'string', 'number', 'boolean', 'null')

class EvDoc(Doc):
    """document as it is read: texts of certificates and receipts"""
    def certnum(self, i):
        l = F('certnum', 'AI>I')(self.tok, z3.simplify(iz(i))); self.R.ctx.once(('certnum', l.get_id()), l >= 0); return l
    def certtext(self, i): return SStr([self.R.ctx.atom(F('certtext', 'AI>S')(self.tok, z3.simplify(iz(i))))])
    def listtext(self, i, j): return SStr([self.R.ctx.atom(F('listtext', 'AII>S')(self.tok, z3.simplify(iz(i)), z3.simplify(iz(j))))])
    def rectext(self, i, j): return SStr([self.R.ctx.atom(F('rectext', 'AII>S')(self.tok, z3.simplify(iz(i)), z3.simplify(iz(j))))])
    def cert(self, i):
        t = self.certtext(i)
        if self.R.I.test(self.R.eq(t, '')): return None
        return depcert(self.R.ctx, t)
    def listcert(self, i, j): return depcert(self.R.ctx, self.listtext(i, j))
def depcert(c, t): return Opaque('cert', F('depcert', 'S>A')(c.term(t)))
@contract('depparser: elements of streams', DP + 'parseDEPCert')
def _(I, f, a, k):
    v = I.models.force(I, a[0]); c = I.ctx
    if len(a) != 1 or k or c.data.get('doc') is None: return MISSING
    if not isstr(v) or not c.branch(F('depcertok', 'S>B')(c.term(v)), 'valid certificate'):
        c.data['doc'].badvalue = True
        raise I.exc(I.modules['depparser'].ns['MalformedCertificateException'], 'x')
    return depcert(c, v)
@contract('depparser: receipts of streams', DP + 'shrinkDEPReceipt')
def _(I, f, a, k):
    v = I.models.force(I, a[0]); c = I.ctx
    doc = c.data.get('doc')
    if len(a) != 1 or k or doc is None: return MISSING
    if not isstr(v) or not c.branch(F('deprecok', 'S>B')(c.term(v)), 'receipt that can be encoded'):
        doc.badvalue = True
        raise I.exc(I.modules['depparser'].ns['MalformedDEPElementException'], 'x')
    t = c.term(v)
    if z3.is_app(t) and t.decl().name() == 'rectext': return doc.rec(t.arg(1), t.arg(2))
    return SBytes([c.atom(F('deprec', 'S>S')(t), L.BYTES)])

class CertsIs(Template):
    """list of the first m certificates of the list of group i"""
    def __init__(self, E, i, m, shared=False): self.E, self.i, self.m, self.shared = E, z3.simplify(iz(i)), z3.simplify(iz(m)), shared
    def make(self):
        E = self.E
        if E.R.ctx.implied(self.m == 0) and not self.shared: return []
        r = MSeq(mkint(self.m), lambda I, j: E.doc.listcert(self.i, j), 'certs'); r.certs = (self.i, self.m)
        # possibly part of a chunk delivered before
        if self.shared: E.note(r)
        return r
    def matches(self, I, v):
        c = I.ctx
        if not self.shared and self.E.escaped(v): return False
        lo = 0; add = []
        if isinstance(v, list): add = v
        elif isinstance(v, MSeq) and (getattr(v, 'certs', None) or v.base.n == 0 and isinstance(v.base.n, int)):
            if v.base.n != 0 if isinstance(v.base.n, int) else True:
                if not c.implied(v.certs[0] == self.i): return False
                lo = v.certs[1]
            for k, (j, x) in enumerate(v.writes):
                if not c.implied(j == iz(v.base.n) + k): return False
                add.append(x)
        else: return False
        if not c.implied(iz(lo) + len(add) == self.m): return False
        return conj([bt(alike(I, x, self.E.doc.listcert(self.i, z3.simplify(iz(lo) + k)))) for k, x in enumerate(add)])

class Sized(ChunkIs):
    """the same, with elements whose sizes add up"""
    def make(self):
        E = self.E; c = E.R.ctx
        r = ChunkIs.make(self)
        if not isinstance(r, MSeq): return r
        lo, hi, base = self.lo, self.hi, r.base
        def size(I, i): return F('piecelen', 'AI>I')(E.doc.tok, iz(i))
        r.base.elem = lambda I, i: (Seq(SInt(size(I, i)), None, 'piece'), POISON, POISON)
        def sized(I, q):
            """sum of a function of the elements that is the length of their receipts"""
            x = q.root
            if not isinstance(x, MSeq) or getattr(x, 'chunk', None) is None or q.step != 1 or not c.implied(iz(q.off) == 0) or not c.implied(iz(q.n) == iz(x.n)): return None
            j = c.fresh('el'); c.assume(z3.And(j >= 0, j < iz(x.base.n), size(I, j) >= 1))
            y = q.at(I, j)
            if not isint(y) or not c.implied(iz(y) == size(I, j)): return None
            t = mkint(x.chunk[1] - x.chunk[0])
            for k in range(len(x.writes)): t = I.binop(ast.Add(), t, q.at(I, z3.simplify(iz(x.base.n) + k)))
            return t
        r.sized = sized
        return r

class Reading(Emitted):
    """how much of the document has been read and delivered"""
    def __init__(self, R, doc, size, cls):
        Emitted.__init__(self, R, doc, size)
        self.cls = cls
        self.kind = 'start'; self.gseen = False
        self.i = z3.IntVal(0); self.flags = frozenset(); self.fetched = False
        self.b = z3.IntVal(0); self.m = z3.IntVal(0)
        self.ev = self.last = None; self.bad = False
        self.known = []
    def note(self, v):
        h = loops.Heap(self.R.I, [v], [])
        self.heaps.append((h, {i for i, (x, s) in h.seen.items() if isinstance(x, (list, MSeq, PDict, PSet))}))
    def pos(self):
        """receipts read so far"""
        if self.kind in ('start',): return z3.IntVal(0)
        if self.kind in ('map', 'groups', 'end'): return self.doc.G(self.i)
        return z3.simplify(self.doc.G(self.i) + self.b)
    def limits(self):
        """what is kept back is less than a chunk"""
        n, s, p = iz(self.size), self.start, self.pos()
        out = [z3.And(s >= 0, s <= p), z3.Implies(n > 0, p - s < n), z3.Implies(n == 0, s == 0)]
        if self.kind in ('group', 'certs', 'recs'):
            G = self.doc.G(self.i)
            if self.fetched: out.append(s > G)
            elif self.cls != 'CertlessStreamDEPParser' and not ({'cert', 'list'} <= self.flags and (self.kind != 'certs')): out.append(s <= G)
        return out
    def arb(self, last):
        """an arbitrary state; last: at the end of the document"""
        R, c, doc = self.R, self.R.ctx, self.doc
        self.start = c.fresh('start')
        self.i = c.fresh('group'); c.assume(self.i >= 0); c.assume(self.i <= doc.n)
        self.flags = frozenset(); self.fetched = False; self.b = z3.IntVal(0); self.m = z3.IntVal(0)
        kinds = ['end'] if last else ['map', 'groups', 'group', 'certs', 'recs']
        self.kind = kinds[R.pick(len(kinds), 'state')]
        if self.kind == 'map':
            self.gseen = R.pick(2, 'groups seen') == 0
            c.assume(self.i == (doc.n if self.gseen else 0))
        elif self.kind == 'end': self.gseen = True; c.assume(self.i == doc.n)
        elif self.kind == 'groups': self.gseen = True
        else:
            self.gseen = True
            c.assume(self.i < doc.n)
            l = doc.len(self.i)
            f = {x for x in ('cert', 'list', 'recs') if x != {'certs': 'list', 'recs': 'recs'}.get(self.kind) and R.pick(2, x + ' seen') == 0}
            self.fetched = self.cls == 'FileDEPParser' and (self.kind == 'recs' or 'recs' in f) and R.pick(2, 'certificates fetched') == 0
            if self.kind == 'recs': self.b = c.fresh('read'); c.assume(z3.And(self.b >= 0, self.b <= l)); f.add('recs')
            elif 'recs' in f: self.b = l
            if self.kind == 'certs': self.m = c.fresh('certs'); c.assume(z3.And(self.m >= 0, self.m <= doc.certnum(self.i))); f.add('list')
            self.flags = frozenset(f)
        doc.len(z3.simplify(self.i - 1))
        for x in self.limits(): c.assume(x)
    # -- events
    def event(self, I):
        """an event that the document can have next"""
        R, c, doc = self.R, self.R.ctx, self.doc
        def val(e):
            return None if e in ('start_map', 'start_array', 'null') else SStr([c.atom(c.fresh('value', 'S'))]) if e == 'string' else SBool(c.fresh('value', 'B')) if e == 'boolean' else SInt(c.fresh('value'))
        def wrong(but, prefix):
            es = [e for e in VALUES if e not in but]
            e = es[R.pick(len(es), 'event')]
            return ('wrong', (prefix, e, val(e)))
        def other(known):
            p = SStr([c.atom(c.fresh('prefix', 'S'))])
            for k in known: c.assume(neg(bt(R.eq(p, k))))
            es = VALUES + ('end_map', 'end_array', 'map_key')
            e = es[R.pick(len(es), 'event')]
            return ('other', (p, e, val(e) if e in VALUES else SStr([c.atom(c.fresh('value', 'S'))]) if e == 'map_key' else None))
        def key(prefix): return ('other', (prefix, 'map_key', SStr([c.atom(c.fresh('value', 'S'))])))
        k = self.kind
        if R.pick(2, 'broken') == 1:
            self.bad = True
            raise I.exc(jsonerror(I), 'broken')
        if k == 'start': alts = [lambda: ('root', ('', 'start_map', None)), lambda: wrong(['start_map'], '')]
        elif k == 'map':
            alts = [lambda: key(''), lambda: ('end', ('', 'end_map', None)), lambda: ('groups', (BG, 'start_array', None)), lambda: wrong(['start_array'], BG), lambda: other(['', BG])]
        elif k == 'groups':
            alts = [lambda: ('endgroups', (BG, 'end_array', None)), lambda: ('group', (BG + '.item', 'start_map', None)), lambda: wrong(['start_map'], BG + '.item')]
        elif k == 'group':
            alts = [lambda: key(BG + '.item'), lambda: ('endgroup', (BG + '.item', 'end_map', None)),
                lambda: ('cert', (EL['cert'], 'string', doc.certtext(self.i) if 'cert' not in self.flags else val('string'))), lambda: wrong(['string'], EL['cert']),
                lambda: ('list', (EL['list'], 'start_array', None)), lambda: wrong(['start_array'], EL['list']),
                lambda: ('recs', (EL['recs'], 'start_array', None)), lambda: wrong(['start_array'], EL['recs']),
                lambda: other([BG + '.item', ''] + list(EL.values()))]
        elif k == 'certs':
            alts = [lambda: ('endcerts', (EL['list'], 'end_array', None)), lambda: ('onecert', (EL['list'] + '.item', 'string', doc.listtext(self.i, self.m))), lambda: wrong(['string'], EL['list'] + '.item')]
        elif k == 'recs':
            alts = [lambda: ('endrecs', (EL['recs'], 'end_array', None)), lambda: ('onerec', (EL['recs'] + '.item', 'string', doc.rectext(self.i, self.b))), lambda: wrong(['string'], EL['recs'] + '.item')]
        else: raise Infeasible()
        what, ev = alts[R.pick(len(alts), 'event in ' + k)]()
        # what the document says
        if what == 'endgroups': c.assume(self.i == doc.n)
        if what == 'group': c.assume(self.i < doc.n); doc.len(self.i)
        if what == 'endcerts': c.assume(self.m == doc.certnum(self.i))
        if what == 'onecert': c.assume(self.m < doc.certnum(self.i))
        if what == 'endrecs': c.assume(self.b == doc.len(self.i))
        if what == 'onerec': c.assume(self.b < doc.len(self.i))
        self.ev = what
        # malformed?
        f = self.flags
        if what == 'wrong' or what in ('cert', 'list', 'recs') and what in f or what == 'groups' and self.gseen or what == 'end' and not self.gseen or what == 'endgroup' and len(f) < 3: self.bad = True
        if what == 'onerec': self.reads = z3.simplify(self.b + 1)
        return ev
    def advance(self):
        """the state after the event"""
        w, doc = self.ev, self.doc
        self.last = w
        if w == 'root': self.kind = 'map'
        elif w == 'end': self.kind = 'end'
        elif w == 'groups': self.kind, self.gseen = 'groups', True
        elif w == 'endgroups': self.kind = 'map'
        elif w == 'group': self.kind, self.flags, self.fetched, self.b = 'group', frozenset(), False, z3.IntVal(0)
        elif w == 'endgroup': self.kind, self.i, self.flags, self.fetched, self.b = 'groups', z3.simplify(self.i + 1), frozenset(), False, z3.IntVal(0)
        elif w == 'cert': self.flags |= {'cert'}
        elif w == 'list': self.kind, self.m = 'certs', z3.IntVal(0); self.flags |= {'list'}
        elif w == 'recs': self.kind, self.b = 'recs', z3.IntVal(0); self.flags |= {'recs'}
        elif w == 'onecert': self.m = z3.simplify(self.m + 1)
        elif w == 'onerec': self.b = z3.simplify(self.b + 1)
        elif w == 'endcerts': self.kind = 'group'; self.m = z3.IntVal(0)
        elif w == 'endrecs': self.kind = 'group'; self.b = doc.len(self.i)
        self.ev = None
    # -- what chunks consist of
    def describe(self, v):
        c = self.R.ctx; I = self.R.I
        base = None; add = []
        if isinstance(v, (list, tuple)): add = list(v)
        elif isinstance(v, MSeq) and (getattr(v, 'chunk', None) or isinstance(v.base.n, int) and v.base.n == 0):
            base = getattr(v, 'chunk', None)
            for k, (j, x) in enumerate(v.writes):
                if not c.implied(j == iz(v.base.n) + k): return None
                add.append(x)
        else: return None
        self.why = 'pieces'
        if base is not None and c.implied(base[0] == base[1]): base = None
        if base is None and not add: return None, None, True
        lo = hi = None; whole = True
        if base is not None: lo, hi = base
        for t in add:
            if not isinstance(t, tuple) or len(t) != 3: return None
            recs, cert, certs = t
            i = self.whose(recs)
            if i is None: self.why = 'empty group'; return None
            if not self.rightcerts(i, cert, certs): return None
            if not c.implied(bt(whole)): self.why = 'a group in several pieces'; return None
            p = self.piece(recs, i)
            if p is None: return None
            if p == () or not c.implied(p[0] < p[1]): self.why = 'empty group'; return None
            a, b = p
            self.doc.len(i)
            pa, pb = self.doc.G(i) + a, self.doc.G(i) + b
            if lo is None: lo = pa
            elif not (c.implied(hi == pa) and c.implied(a == 0)): self.why = 'order of the groups'; return None
            hi = pb; whole = mkbool(b == self.doc.len(i))
        return z3.simplify(lo), z3.simplify(hi), whole
    def rightcerts(self, i, cert, certs):
        c = self.R.ctx; I = self.R.I
        lax = self.cls == 'CertlessStreamDEPParser'
        if not (lax and cert is None or c.implied(bt(alike(I, cert, self.doc.cert(i))))): self.why = 'another certificate'; return False
        l = CertsIs(self, i, self.doc.certnum(i), True)
        if not (lax and isinstance(certs, list) and not certs or c.implied(bt(l.matches(I, certs)))): self.why = 'another certificate list'; return False
        return True
    def whose(self, recs):
        if isinstance(recs, MSeq) and getattr(recs, 'piece', None): return recs.piece[0]
        xs = [x for _, x in recs.writes] if isinstance(recs, MSeq) else list(recs) if isinstance(recs, (list, tuple)) else []
        for x in xs[:1]:
            if isbytes(x) and self.R.ctx.conc(x) is None:
                t = self.R.ctx.term(x)
                if z3.is_app(t) and t.decl().name() == 'docrec': return t.arg(1)
        return None
    def whole_first(self, v):
        if isinstance(v, MSeq) and getattr(v, 'chunk', None): return True
        t = v[0] if isinstance(v, (list, tuple)) else v.writes[0][1]
        return mkbool(self.piece(t[0], self.whose(t[0]))[0] == 0)
    def alien(self, v):
        if v is POISON or not isinstance(v, (list, tuple, MSeq)): return True
        if isinstance(v, MSeq) and not getattr(v, 'chunk', None) and not (isinstance(v.base.n, int) and v.base.n == 0): return True
        for t in (list(v) if not isinstance(v, MSeq) else [x for _, x in v.writes]):
            if t is POISON or isinstance(t, tuple) and any(x is POISON for x in t): return True
        return False
def jsonerror(I): return I.pyclass(libs.real('ijson').JSONError)

# ---------------------------------------------------------------- the state machine's representation
class StateIs(Template):
    """the parser's state object for what was read"""
    def __init__(self, E): self.E = E; self.built = self.one = self.made = None
    def graph(self):
        """the same objects the program's own constructors make, with templates for the contents"""
        if self.built is None: self.built = self.build()
        return self.built
    def build(self):
        E = self.E; R = E.R; I = R.I; doc = E.doc
        n = E.size
        def put(o, **kv):
            for k, v in kv.items():
                if k not in [str(x) for x in o.attrs.keys()]: raise Unsupported('representation of the state: no %s' % k)
                o.attrs.setraw(k, v)
        G = doc.G(E.i) if E.kind not in ('start',) else z3.IntVal(0)
        s = E.start
        chunk = Sized(E, s, z3.If(s > G, s, G)) if E.kind != 'start' else Sized(E, 0, 0)
        root = R.new(DP + 'DEPStateRoot', n)
        put(root, chunk=chunk, root_seen=E.kind != 'start')
        if E.kind in ('start', 'end'): return root
        top = R.new(DP + 'DEPStateRootMap', n, root)
        put(top, chunk=chunk, groups_seen=E.gseen)
        if E.kind == 'map': return top
        gl = R.new(DP + 'DEPStateBGList', n, top)
        put(gl, chunk=chunk, curIdx=mkint(E.i if E.kind == 'groups' else E.i + 1))
        if E.kind == 'groups': return gl
        g = R.new(DP + 'DEPStateGroup', n, gl, mkint(E.i))
        f = E.flags
        put(g, chunk=chunk, cert_seen='cert' in f, cert_list_seen='list' in f, recs_seen='recs' in f)
        w = g.attrs.raw('wip') if 'wip' in [str(x) for x in g.attrs.keys()] else None
        if not isinstance(w, Obj): raise Unsupported('representation of the state: no wip')
        a = z3.simplify(z3.If(s > G, s - G, 0))
        known = 'cert' in f or E.fetched
        if E.kind == 'certs': chain = CertsIs(E, E.i, E.m)
        elif 'list' in f or E.fetched: chain = CertsIs(E, E.i, doc.certnum(E.i), True)
        else: chain = None
        put(w, cert=doc.cert(E.i) if known else None, cert_known=known, cert_chain=chain, recs=RecsIs(E, E.i, a, E.b))
        if E.kind == 'group': return g
        x = R.new(DP + ('DEPStateCertList' if E.kind == 'certs' else 'DEPStateReceiptList'), n, g, mkint(E.i))
        if x.attrs.raw('wip') is not w: raise Unsupported('representation of the state: wip')
        put(x, chunk=chunk)
        return x
    def make(self):
        if self.made is None: self.made = self.construct()
        return self.made
    def construct(self):
        memo = {}
        def mk(v):
            if id(v) in memo: return memo[id(v)][1]
            if isinstance(v, Template): r = v.make(); memo[id(v)] = (v, r); return r
            if isinstance(v, Obj):
                r = Obj(v.cls); memo[id(v)] = (v, r)
                for k, x in v.attrs.items(): r.attrs.setraw(k, mk(x))
                return r
            return v
        return mk(self.graph())
    def matches(self, I, v):
        # all variables with it share one object
        if self.one is not None and v is not self.one: return False
        self.why = None
        ids, back, conds = {}, {}, []
        def no(*x): self.why = x; return False
        def iso(a, b, path):
            b = b
            if isinstance(b, (Template, Obj)) and not (isinstance(b, Obj) and b.cls.meta == 'enum'):
                if id(b) in ids or id(a) in back: return (ids.get(id(b)) is a and back.get(id(a)) is b) or no('sharing', path)
                ids[id(b)] = a; back[id(a)] = b
            if isinstance(b, Template):
                r = b.matches(I, a); r = r.t if isinstance(r, SBool) else r
                if r is False or (not isinstance(r, bool) and not I.ctx.implied(r)): return no(path, a)
                return True
            if isinstance(b, Obj):
                if not isinstance(a, Obj) or a.cls is not b.cls: return no(path, a, b)
                ka, kb = {str(k) for k in a.attrs.keys()}, {str(k) for k in b.attrs.keys()}
                if ka != kb: return no(path, ka ^ kb)
                return all(iso(a.attrs.raw(k), b.attrs.raw(k), path + '.' + str(k)) for k in b.attrs.keys())
            r = alike(I, a, b); r = r.t if isinstance(r, SBool) else r
            if r is False or (not isinstance(r, bool) and not I.ctx.implied(r)): return no(path, a, b)
            return True
        if not iso(v, self.graph(), 'state'): return False
        self.one = v
        return True

class EventFold(FoldRule):
    """loop over the events"""
    def __init__(self, R, seq, E, inv, mode): FoldRule.__init__(self, R, seq, inv, mode); self.E = E
    def roots(self): return []
    def more_skip(self):
        """the objects of the parser's state"""
        out = []; st = [v for v in self.fr.vars.values() if isinstance(v, Obj) and v.cls.name.startswith('DEPState')]
        while st:
            v = st.pop()
            if any(v is x for x in out): continue
            if isinstance(v, (Obj, list, MSeq)): out.append(v)
            if isinstance(v, Obj): st.extend(x for _, x in v.attrs.items() if isinstance(x, (Obj, list, MSeq)))
        return out
    def escaped(self, v): return self.E.escaped(v)
    def entry(self): return self.E
    def arb(self, k):
        self.E.arb(z3.simplify(iz(k)).eq(z3.simplify(iz(self.seq.n))))
        return self.E
    def step(self, g, i):
        E = self.E
        if E.bad or E.doc.badvalue: return Rejected('C10 C16', 'malformed element')
        E.advance()
        return E
    def accepted(self, g): self.R.require(False, 'goes on after an error: ' + g.detail, g.why)
    def shape(self, g, old):
        self.E.intact()
        return [(mkbool(x), 'receipts kept back') for x in self.E.limits()]
    def finished(self, q): self.E.finished = True
    def templates(self, g, i):
        E = self.E; st = StateIs(E)
        return [('state', lambda: st), ('got', lambda: mkbool(E.start > 0)), ('not got', lambda: mkbool(E.start == 0)), ('delivered', lambda: mkint(E.start)), ('read', lambda: mkint(E.pos())),
            ('index', lambda: mkint(iz(i))), ('next', lambda: mkint(iz(i) + 1)), ('None', lambda: None), ('True', lambda: True), ('False', lambda: False), ('zero', lambda: 0)]

@libs.meth('docfd', 'tell')
def _(I, o, a, k): return o.pos
@libs.meth('docfd', 'seek')
def _(I, o, a, k):
    if len(a) != 1: raise Unsupported('seek')
    o.pos = I.models.force(I, a[0]); o.moved = True
    return o.pos
@contract(DP + 'FileDEPParser._needCerts', DP + 'FileDEPParser._needCerts')
def _(I, f, a, k):
    c = I.ctx
    E = c.data.get('reading')
    if E is None: return MISSING
    b = I.bindargs(f, a, k)
    if set(b) != {'self', 'state', 'chunksize', 'groupidx'}: return MISSING
    if c.branch(F('docnocerts', 'AI>B')(E.doc.tok, iz(b['groupidx'])), 'certificates missing or malformed'):
        E.doc.badvalue = True
        raise I.exc(I.modules['depparser'].ns['MalformedDEPElementException'], 'x')
    i = iz(b['groupidx'])
    I.call(I.getattr(b['state'], 'setCrt'), [E.doc.cert(i), CertsIs(E, i, E.doc.certnum(i), True).make()], {})
    E.fetched = True
    return None
def incremental(cls):
    @obl(IP + ': ' + cls, 'C10 C16 C08', IP + ' ' + ' '.join(DP + x + '.parse' for x in ('DEPStateRoot', 'DEPStateRootMap', 'DEPStateBGList', 'DEPStateGroup', 'DEPStateCertList', 'DEPStateReceiptList'))
        + ' ' + ' '.join(DP + x for x in ('DEPStateWithData.currentChunksize', 'DEPStateWithData.ready', 'DEPStateWithData.getChunk', 'DEPStateWithIncompleteData.ready', 'DEPStateWithIncompleteData.getChunk', 'DEPStateWithIncompleteData.mergeIntoChunk', 'DEPStateWithIncompleteData.needCrt', 'DEPStateWithIncompleteData.setCrt', 'DEPStateWithIncompleteData.__init__')),
        uses=['utils.skipBOM', 'depparser: elements of streams', 'depparser: receipts of streams', 'depparser: elements'] + ([DP + 'FileDEPParser._needCerts'] if cls == 'FileDEPParser' else []), fold=True,
        assumes=['ijson delivers the events of the document in order, with the prefixes it documents', 'no other element of the document has the prefix of a DEP element (keys with dots in them, empty keys)'])
    def _(R):
        I, c = R.I, R.ctx
        c.data['lazycomp'] = 'lazy'
        doc = c.data['doc'] = EvDoc(R); doc.badvalue = False
        size = R.int('chunksize', 0)
        E = c.data['reading'] = Reading(R, doc, size, cls)
        name = IP + ': ' + cls
        n = c.fresh('events'); c.assume(n >= 1)
        evs = Seq(SInt(n), None, 'events')
        class Once(Seq):
            def at(self, I, i):
                # the event of this iteration
                t = z3.simplify(iz(i))
                for u, v in self.memo:
                    if u.eq(t): return v
                if self.memo: raise Unsupported('several events at a time')
                v = E.event(I); self.memo.append((t, v)); return v
        evs = Once(SInt(n), None, 'events')
        f = MD.Ext('docfd', pos=0, start=None)
        def parse(I, a, k):
            if not a or a[0] is not f or len(a) > 1 or k: raise Unsupported('ijson.parse')
            R.require(R.eq(f.pos, f.start), 'reading starts elsewhere')
            r = Gen(seqmod.iterate(I, evs)); r.seq = evs
            return r
        c.data['ijson.parse'] = parse
        h = EventFold(R, evs, E, base.INV.get(name, {}), c.data.get('mode'))
        c.data['fold'] = h
        p = R.new(DP + cls, f)
        o = R.meth(p, 'parse', size)
        R.require(o.ok, 'raises at the call')
        exc = consume(R, o.v, E)
        bad = E.bad or doc.badvalue
        if exc is not None:
            R.require(exc.cls.sub(R.name(ERR)), 'raises %s' % exc.cls.name)
            if bad: R.done('malformed'); return
            if cls == 'StreamDEPParser' and E.last == 'onerec':
                n = iz(size)
                R.require(not {'cert', 'list'} <= E.flags and mkbool(z3.And(n > 0, doc.G(E.i) + E.reads - E.start >= n)), 'certificates are asked for without need')
                R.done('certificates come later'); return
            R.require(E.kind == 'end' and mkbool(doc.total == 0), 'raises %s for a well-formed document' % exc.cls.name)
            R.done('no receipts'); return
        R.require(not bad, 'passes over a malformed element')
        R.require(E.kind == 'end', 'ends before the document does')
        R.require(mkbool(E.start == doc.total), 'the last receipts are lost', case={'chunk': 'last'})
        R.require(mkbool(doc.total > 0), 'a document without receipts is accepted')
        R.done('all')
for _c in ('CertlessStreamDEPParser', 'StreamDEPParser', 'FileDEPParser'): incremental(_c)

# ---------------------------------------------------------------- certificates that come later in the document
NC = DP + 'FileDEPParser._needCerts'
@obl(NC, 'C10 C16', NC, uses=['utils.skipBOM', 'utils: PEM texts'], assumes=['ijson.items delivers the elements with a prefix in document order'])
def _(R):
    """certificate and list of the group asked for are looked up in the rest of
    the document, whether kept from an earlier search or not; the position in
    the file is restored"""
    I, c = R.I, R.ctx
    c.data['lazycomp'] = 'lazy'
    PRE = (EL['cert'], EL['list'])
    f = MD.Ext('docfd', pos=0, start=None)
    p = R.new(DP + 'FileDEPParser', f)
    state = {'broken': False}
    srcs = {}
    for x in PRE:
        n = c.fresh('items'); c.assume(n >= 0)
        items = MD.SymList(I, x, lambda nm: MD.SJson(nm), SInt(n))
        srcs[x] = items
    def seqof(x):
        q = loops.toseq(I, srcs[x])
        return q
    def items(I, a, k):
        if len(a) != 2 or k or a[0] is not f or a[1] not in PRE: raise Unsupported('ijson.items')
        R.require(R.eq(f.pos, f.start), 'certificates are looked for from another position on')
        if c.branch(F('brokenrest', 'I>B')(z3.IntVal(PRE.index(a[1]))), 'rest of the document broken'):
            state['broken'] = True
            def g():
                raise I.exc(jsonerror(I), 'broken')
                yield
            return Gen(g())
        q = seqof(a[1]); r = Gen(seqmod.iterate(I, q)); r.seq = q
        return r
    c.data['ijson.items'] = items
    try: I.getattr(p, 'cache')
    except PyRaise: pass
    d = PDict()
    for x in PRE:
        if R.pick(2, 'kept from before: ' + x.split('.')[-1]) == 1: I.models.setitem(I, d, x, seqmod.tolist(I, seqof(x)))
    I.setattr(p, 'cache', d)
    pos = R.int('position', 0); f.pos = pos
    size = R.int('chunksize', 0)
    idx = R.int('idx', 0)
    st = R.new(DP + 'DEPStateGroup', size, R.new(DP + 'DEPStateBGList', size, R.new(DP + 'DEPStateRootMap', size, R.new(DP + 'DEPStateRoot', size))), idx)
    o = R.meth(p, '_needCerts', st, size, idx)
    if not o.ok and state['broken']:
        R.require(R.cls(o, ERR) or any(o.v.cls.sub(I.pyclass(x)) for x in (libs.real('ijson').JSONError, UnicodeDecodeError)), 'raises %s' % o.v.cls.name)
        R.done('broken'); return
    R.require(not state['broken'], 'goes on although the document is broken')
    def spec():
        for x in PRE:
            if not I.test(mkbool(iz(idx) < iz(srcs[x].n))): return None
        key = str(z3.simplify(iz(idx)))
        v = I.models.force(I, srcs[PRE[0]].item(key)); l = I.models.force(I, srcs[PRE[1]].item(key))
        if not isstr(v) or not isinstance(l, MD.SymList): return None
        empty = I.test(mkbool(I.models.equal(I, v, '')))
        cert = None if empty else spec_cert(I, v)
        if not empty and cert is None: return None
        return cert, l
    w = spec()
    if not o.ok:
        parse_error(R, o, 'a malformed document')
        R.require(w is None or bad_among(R, w[1], spec_cert), 'a well-formed document is refused with %s' % o.v.cls.name)
        R.done('malformed'); return
    R.require(w is not None, 'accepts a malformed document')
    R.require(R.eq(f.pos, pos), 'the position in the file is lost', case={'needcerts': 'position'})
    n = R.meth(st, 'needCrt')
    R.require(n.ok and n.v is None, 'certificates are still missing')
    # what a chunk gets now
    wip = R.get(st, 'wip')
    R.require(alike(I, R.get(wip, 'cert'), w[0]), 'another certificate')
    a = aslist(R, R.get(wip, 'cert_chain'))
    if a is None: raise Undecided('certificate list')
    n, at = a
    R.require(mkbool(iz(n) == iz(w[1].n)), 'number of certificates in the list')
    j = anyel(R, n)
    if j is not None:
        y = at(j)
        x = spec_cert(I, w[1].item(str(j)))
        R.require(x is not None and alike(I, y, x), 'another certificate in the list')
    # what is kept are the lists found
    d = I.models.force(I, R.get(p, 'cache'))
    for k, v in d.items():
        ok = k in PRE and isinstance(v, Seq) and getattr(v, 'src', None) is not None and v.src.root is seqof(k).root and not getattr(v, 'writes', None)
        R.require(ok, 'something else is kept for later searches')
    R.done('ok')
