"""Streams of receipt groups and the exporters: C17."""
from .common import *
from . import common as CM, base
from .ob_dep import *
from pyvc import seq as seqmod
from pyvc.seq import Seq, MSeq, SeqIt, Chain, contents

DE = 'depexport.'
DS, MS = DE + 'DEPStream', DE + 'MergingDEPStream'
# ---------------------------------------------------------------- contents of iterators
def head(I, cs):
    """first element and the rest, or None"""
    cs = list(cs)
    while cs:
        s = cs.pop(0)
        if s[0] == 'item': return s[1], cs
        _, q, p = s
        if I.ctx.branch(p < iz(q.n), 'another element'):
            return q.at(I, p), [('seq', q, z3.simplify(p + 1))] + cs
    return None
def samecontents(I, a, b):
    c = I.ctx
    def norm(x): return [s for s in x if s[0] == 'item' or not c.implied(s[2] >= iz(s[1].n))]
    a, b = norm(a), norm(b)
    while a and b:
        x, y = a[0], b[0]
        if x[0] == 'seq' and y[0] == 'seq' and x[1] is y[1] and c.implied(x[2] == y[2]): a.pop(0); b.pop(0); continue
        def first(l):
            s = l[0]
            if s[0] == 'item': l.pop(0); return s[1]
            if not c.implied(s[2] < iz(s[1].n)): return None
            l[0] = ('seq', s[1], z3.simplify(s[2] + 1))
            if c.implied(l[0][2] >= iz(s[1].n)): l.pop(0)
            return s[1].at(I, s[2])
        x, y = first(a), first(b)
        if x is None or y is None or not c.implied(bt(likeval(I, x, y))): return False
    return not a and not b
def likeval(I, x, y):
    """the same group, receipts and all"""
    if x is y: return True
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
        return conj([bt(likeval(I, a, b)) for a, b in zip(x, y)])
    if isinstance(x, (Gen, Seq, list)) and isinstance(y, (Gen, Seq, list)):
        a, b = contents(I, x), contents(I, y)
        return a is not None and b is not None and samecontents(I, a, b)
    return alike(I, x, y)
def itof(I, cs):
    """iterator with given contents"""
    ps = [[s[1]] if s[0] == 'item' else SeqIt(I, s[1], s[2]) for s in cs]
    return ps[0] if len(ps) == 1 and isinstance(ps[0], Gen) else Chain(I, ps)

class Iso(object):
    """two sets of objects are the same but for the identity of their parts"""
    def __init__(self, I): self.I, self.ids, self.back, self.why = I, {}, {}, None
    def no(self, *x): self.why = x; return False
    def __call__(self, a, b, path='state'):
        I = self.I
        a, b = I.models.force(I, a), I.models.force(I, b)
        if isinstance(b, (Obj, Gen, list, PDict, PSet, MSeq)) and not (isinstance(b, Obj) and b.cls.meta == 'enum'):
            if id(b) in self.ids or id(a) in self.back:
                return (self.ids.get(id(b)) is a and self.back.get(id(a)) is b) or self.no('sharing', path)
            self.ids[id(b)] = a; self.back[id(a)] = b
        if isinstance(b, Obj) and b.cls.meta != 'enum':
            if not isinstance(a, Obj) or a.cls is not b.cls: return self.no(path, a, b)
            ka, kb = {str(k) for k in a.attrs.keys()}, {str(k) for k in b.attrs.keys()}
            if ka != kb: return self.no(path, ka ^ kb)
            return all(self(a.attrs.raw(k), b.attrs.raw(k), path + '.' + str(k)) for k in b.attrs.keys())
        if isinstance(b, Gen):
            if not isinstance(a, Gen): return self.no(path, a, b)
            x, y = contents(I, a), contents(I, b)
            if x is None or y is None or not samecontents(I, x, y): return self.no(path, x, y)
            return True
        if isinstance(b, (list, tuple)):
            if type(a) is not type(b) or len(a) != len(b): return self.no(path, a, b)
            return all(self(x, y, path + '[%d]' % i) for i, (x, y) in enumerate(zip(a, b)))
        if isinstance(a, (Obj, Gen)): return self.no(path, a, b)
        r = likeval(I, a, b)
        return r is True or I.ctx.implied(bt(r)) or self.no(path, a, b)

# ---------------------------------------------------------------- groups
class Groups(object):
    """any number of groups with any number of receipts each"""
    def __init__(self, R, name='groups', n=None):
        c = R.ctx; self.R = R
        self.tok = c.fresh(name, 'A')
        if n is None:
            n = SInt(c.fresh('n')); c.assume(n.t >= 0)
        self.n = n
        self.seq = Seq(n, lambda I, i: self.group(i), name)
    def group(self, i):
        R = self.R; c = R.ctx
        n = F('gsize', 'AI>I')(self.tok, z3.simplify(iz(i))); c.assume(n >= 0)
        t = F('gtok', 'AI>A')(self.tok, z3.simplify(iz(i)))
        return (self.receipts(t, SInt(n)), self.cert(t), Opaque('certlist', F('gchain', 'A>A')(t)))
    def receipts(self, t, n):
        q = Seq(n, lambda I, j: Opaque('rectuple', F('grec', 'AI>A')(t, z3.simplify(iz(j)))), 'receipts')
        q.gtok = t
        return q
    def cert(self, t):
        return Opaque('cert', F('gcert', 'A>A')(t)) if self.R.ctx.branch(F('gcertgiven', 'A>B')(t), 'certificate given') else None
def anygroup(R, name): return Groups(R, name, 1).group(z3.IntVal(0))
def samekey(R, g, h):
    I = R.I
    def e(x, y): return x is None and y is None or x is not None and y is not None and I.test(R.eq(x, y), 'equal')
    return e(g[1], h[1]) and e(g[2], h[2])

# ---------------------------------------------------------------- streams
class Abs(object):
    """contents of a stream: the group being read (certificate, list, receipts
    left), groups to come, and a group read before"""
    def __init__(self, G, cur=None, old=None): self.G, self.cur, self.old = G, cur, old
def build(R, cls, a):
    """the real objects for an abstract state, made by the program's own functions:
    stream, reader of the current group, reader of an earlier one"""
    I = R.I
    def fail(x): raise Unsupported('representation of the stream: ' + x)
    gs = []
    if a.old is not None: gs.append((itof(I, a.old[0]), a.old[1], a.old[2]))
    cur = a.cur
    if a.old is not None and cur is None: cur = ([], a.old[3], a.old[4])
    if cur is not None: gs.append((itof(I, cur[0]), cur[1], cur[2]))
    m = R.new(cls, itof(I, [('item', g) for g in gs] + a.G))
    rs = []
    for g in gs:
        o = R.meth(m, '__next__')
        if not o.ok or not isinstance(o.v, tuple) or len(o.v) != 3: fail('no group')
        rs.append(o.v[0])
    old = rs.pop(0) if a.old is not None else None
    x = rs.pop(0) if rs else None
    if a.old is not None and a.cur is None:
        # the current group is read to its end
        o = R.meth(x, '__next__')
        if o.ok: fail('a group does not end')
        x = None
    return m, x, old
def stop(R, o): return not o.ok and o.v.cls.sub(R.I.pyclass(StopIteration))
class WhileCut(object):
    """while loops: everything assigned in the body is unknown at the head; the
    state at the end of an iteration is handed to the specification"""
    def __init__(self, check, objs): self.check, self.on, self.objs, self.at = check, True, objs, None
    def where(self, it):
        """attribute that holds the iterator of a for loop"""
        for i, o in enumerate(self.objs):
            if isinstance(o, Obj):
                for k, v in o.attrs.items():
                    if v is it: return i, str(k)
        raise Undecided('loop over something else')
    def __call__(self, s, fr, n, it=None):
        if not self.on: return
        if it is not None:
            # the loop goes on with the iterator that a fresh call would use
            w = self.where(it)
            if n == 0: self.at = w
            elif w != self.at: raise Undecided('loop over something else')
        if n == 0:
            import ast
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store): fr.vars[x.id] = POISON
            return
        self.on = False
        self.check()
        raise PathEnd()
def stream_state(R, kind):
    c = R.ctx
    G = Groups(R); gs = [('seq', G.seq, z3.IntVal(0))]
    def part(nm):
        g = anygroup(R, nm)
        return [('seq', g[0], z3.IntVal(0))], g[1], g[2]
    cur = part('current') if kind in (1, 2) else None
    old = None
    if kind in (2, 3):
        o, x = part('earlier'), cur if kind == 2 else part('closed')
        if samekey(R, o, x): raise Infeasible()
        old = o if kind == 2 else o + (x[1], x[2])
    if kind == 3:
        # group closed because another one (or none) follows
        g = head(R.I, gs)
        if g is not None and samekey(R, (None, old[3], old[4]), g[0]): raise Infeasible()
    return Abs(gs, cur, old)
KINDS = ['nothing read', 'a group being read', 'a group being read, an earlier one kept', 'all groups read so far at their end']
def stream(cls, kind, op):
    name = '%s.%s: %s' % (cls, op, KINDS[kind])
    fns = ' '.join('%s.%s' % (cls, x) for x in {'next': ['send', '__init__'], 'read': ['_ReceiptTupleStream.send', '_ReceiptTupleStream.__init__', '_ReceiptTupleStream.extend'], 'read old': ['_ReceiptTupleStream.send']}[op]) if cls == MS and op in ('next', 'read', 'read old') else DS + '.' + {'next': 'send'}.get(op, op)
    @obl(name, 'C17', fns, fallback=cls + '/bounded')
    def _(R):
        I, c = R.I, R.ctx
        a = stream_state(R, kind)
        m, x, old = build(R, cls, a)
        merging = cls == MS
        def lands(w, objs, msg):
            """the objects are as the program's functions make them for state w"""
            m2, x2, old2 = build(R, cls, w)
            iso = Iso(I)
            want = [m2, x2, old2]
            for u, v in zip(objs, want):
                if v is None: continue
                if not iso(u, v): raise Undecided('state after %s: %s' % (op, str(iso.why)[:120]))
        def cut():
            # an iteration may have added the next group to the one being read
            g = head(I, a.G)
            if g is None or a.cur is None or not samekey(R, a.cur, g[0]): raise Undecided('loop goes on')
            lands(Abs(g[1], (a.cur[0] + contents(I, g[0][0]), a.cur[1], a.cur[2]), a.old), (m, x, old), 'merged')
            R.done('merged')
        if merging and op in ('next', 'read', 'read old'): c.data['while_rule'] = WhileCut(cut, (m, x, old))
        def off():
            if c.data.get('while_rule'): c.data['while_rule'].on = False
        if op == 'next':
            o = R.meth(m, "__next__")
            off()
            g = head(I, a.G)
            if g is None:
                R.require(stop(R, o), 'no end of the groups')
                w = Abs([], a.cur, a.old) if kind != 3 else a
                if kind == 3: R.done('end'); return
                lands(w, (m, x, old), 'end'); R.done('end'); return
            g, rest = g
            if merging and a.cur is not None and samekey(R, a.cur, g):
                raise Undecided('groups with the same certificates')
            R.require(o.ok, 'raises %s' % (o.v.cls.name if not o.ok else ''))
            v = o.v
            R.require(isinstance(v, tuple) and len(v) == 3, 'not a group')
            R.require(alike(I, v[1], g[1]), 'another certificate')
            R.require(alike(I, v[2], g[2]), 'another certificate list')
            if not merging:
                R.require(likeval(I, v[0], g[0]) is True, 'other receipts')
                lands(Abs(rest), (m, None, None), 'next'); R.done('next'); return
            w = Abs(rest, (contents(I, g[0]), g[1], g[2]), None)
            if kind in (1, 2):
                w.old = a.cur
                lands(w, (m, v[0], x), 'next')
                if kind == 2:
                    w = Abs(rest, w.cur, a.old)
                    if samekey(R, a.old, g): R.done('next'); return
                    lands(w, (m, v[0], old), 'next')
            elif kind == 3:
                lands(Abs(rest, w.cur), (m, v[0], None), 'next')
            else: lands(w, (m, v[0], None), 'next')
            R.done('next'); return
        if op in ('read', 'read old'):
            y = x if op == 'read' else old
            P = a.cur[0] if op == 'read' else a.old[0]
            o = R.meth(y, '__next__'); off()
            h = head(I, P)
            if h is not None:
                R.require(o.ok, 'a receipt is not delivered')
                R.require(alike(I, o.v, h[0]), 'another receipt is delivered')
                w = Abs(a.G, (h[1],) + a.cur[1:], a.old) if op == 'read' else Abs(a.G, a.cur, (h[1],) + a.old[1:])
                lands(w, (m, x, old), 'read'); R.done('receipt'); return
            R.require(not o.ok, 'a receipt is delivered twice or comes from another group')
            R.require(stop(R, o), 'raises %s' % o.v.cls.name)
            if op == 'read':
                g = head(I, a.G)
                if g is not None and samekey(R, a.cur, g[0]): R.require(False, 'the group ends although it goes on')
                # the group is over
                w = Abs(a.G, None, None)
                lands(w, (m, None, None), 'closed')
                if a.old is not None: lands(Abs(a.G, None, a.old + (a.cur[1], a.cur[2])), (m, None, old), 'closed')
                # nothing comes after the end
                z = R.meth(x, '__next__')
                R.require(stop(R, z), 'a group goes on after its end')
                lands(w, (m, None, None), 'closed')
            else: lands(a, (m, x, old), 'read')
            R.done('end'); return
        if op == 'append':
            g = anygroup(R, 'new')
            n = R.pick(3, 'arguments')
            args = [g, (g[0], g[1]), (g[0],)][n]
            o = R.meth(m, 'append', *args)
            R.require(o.ok, 'raises %s' % (o.v.cls.name if not o.ok else ''))
            if n == 0: new = [('item', g)]
            else: new = [('item', (g[0], g[1] if n == 1 else None, []))]
        if op == 'extend':
            H = Groups(R, 'more'); new = [('seq', H.seq, z3.IntVal(0))]
            arg = SeqIt(I, H.seq) if R.pick(2, 'iterator') == 0 else H.seq
            o = R.meth(m, 'extend', arg)
            R.require(o.ok, 'raises %s' % (o.v.cls.name if not o.ok else ''))
        if kind == 3:
            # the reader that is kept does not see them
            lands(Abs(a.G + new), (m, None, None), op)
        else: lands(Abs(a.G + new, a.cur, a.old), (m, x, old), op)
        R.done(op)
for _k in range(4):
    for _o in ('next', 'read', 'read old', 'append', 'extend'):
        if _o == 'read' and _k not in (1, 2) or _o == 'read old' and _k not in (2, 3): continue
        stream(MS, _k, _o)
for _o in ('next', 'append', 'extend'): stream(DS, 0, _o)

def drain(R, x, most=40):
    """everything an iterator delivers"""
    out = []
    for _ in range(most):
        o = R.meth(x, '__next__') if isinstance(x, Obj) else R.call(R.I.builtins['next'], x)
        if not o.ok:
            R.require(stop(R, o), 'raises %s' % o.v.cls.name)
            return out
        out.append(o.v)
    raise Undecided('an iterator goes on')
def smallgroups(R, n, name='g'):
    c = R.ctx; out = []
    for i in range(n):
        t = c.fresh('%s%d' % (name, i), 'A')
        cert = [None, Opaque('cert', F('gcert', 'A>A')(t))][R.pick(2, 'certificate')]
        rs = [Opaque('rectuple', F('grec', 'AI>A')(t, z3.IntVal(j))) for j in range(R.pick(2, 'receipts'))]
        out.append((rs, cert, [] if i == n - 1 and R.pick(2, 'chain') else [Opaque('cert', F('gchain', 'A>A')(t))]))
    return out
def key2(R, g, h):
    def e(x, y): return x is None and y is None or x is not None and y is not None and R.I.test(R.eq(x, y), 'equal')
    return e(g[1], h[1]) and len(g[2]) == len(h[2]) and all(e(x, y) for x, y in zip(g[2], h[2]))
def merged(R, gs):
    out = []
    for g in gs:
        if out and key2(R, out[-1], g): out[-1] = (out[-1][0] + g[0],) + out[-1][1:]
        else: out.append((list(g[0]),) + g[1:])
    return out
def same_groups(R, got, want, msg):
    I = R.I
    R.require(len(got) == len(want), msg + ': number of groups')
    for g, w in zip(got, want):
        R.require(alike(I, g[1], w[1]) is True or R.implied(alike(I, g[1], w[1])) is True, msg + ': certificate')
        R.require(R.eq(g[2], w[2]), msg + ': certificate list')
        R.require(len(g[0]) == len(w[0]), msg + ': receipts')
        for x, y in zip(g[0], w[0]): R.require(alike(I, x, y), msg + ': receipt')
def bounded_stream(cls, most):
    @obl(cls + '/bounded', 'C17', cls, bounded='at most %d groups of at most one receipt, read in four ways' % most, unroll={'unroll': 30}, weight=2)
    def _(R):
        I, c = R.I, R.ctx
        gs = smallgroups(R, R.pick(most + 1, 'groups'))
        model = merged(R, gs) if cls == MS else gs
        way = R.pick(4, 'read')
        given = lambda g: (ListGen(g[0]), g[1], list(g[2]))
        def ListGen(v): return list(v) if R.I.ctx.data.get('aslists') else Gen(iter(list(v)))
        if way == 3:
            # a group is added while reading
            if not gs: return
            m = R.new(cls, Gen(iter([given(g) for g in gs[:-1]])))
            when = R.pick(len(gs) + 1, 'added'); out = []
            def grp(o):
                R.require(isinstance(o.v, tuple) and len(o.v) == 3, 'not a group')
                if when == 0: pass
                return o.v
            n = 0
            for _ in range(20):
                if n == when: R.meth(m, 'append', *given(gs[-1])); when = None
                o = R.meth(m, '__next__'); n += 1
                if not o.ok:
                    R.require(stop(R, o), 'raises %s' % o.v.cls.name)
                    if when is None: break
                    when = n; continue
                v = grp(o); out.append((drain(R, v[0]) if not isinstance(v[0], list) else v[0], v[1], v[2]))
            flat = [(r, g) for g in gs for r in g[0]]
            got = [(r, g) for g in out for r in g[0]]
            R.require(len(flat) == len(got), 'receipts of an added group are lost or repeated')
            for (r, g), (r2, h) in zip(got, flat):
                R.require(alike(I, r, r2), 'receipts out of order')
                R.require(key2(R, g, h), 'receipt in another group')
            R.done('added'); return
        cut = R.pick(len(gs) + 1, 'joined')
        if cut and R.pick(2, 'how') == 0:
            m = R.new(cls, [given(g) for g in gs[:cut]])
            R.meth(m, 'extend', Gen(iter([given(g) for g in gs[cut:]])))
        else:
            o = R.call(I.getattr(R.name(cls), 'fromIterList'), [[given(g) for g in gs[:cut]], Gen(iter([given(g) for g in gs[cut:]]))])
            R.require(o.ok, 'raises %s' % (o.v.cls.name if not o.ok else '')); m = o.v
        rd = lambda v: (v[0] if isinstance(v[0], list) else drain(R, v[0]), v[1], v[2])
        if way == 0:
            out = []
            for _ in range(20):
                o = R.meth(m, '__next__')
                if not o.ok: break
                out.append(rd(o.v))
            R.require(stop(R, o), 'raises %s' % (o.v.cls.name if not o.ok else ''))
        elif way == 1: out = [rd(v) for v in drain(R, m)]
        else:
            # one group ahead
            out = []; prev = None
            for _ in range(20):
                o = R.meth(m, '__next__')
                if prev is not None: out.append(rd(prev)); prev = None
                if not o.ok: break
                prev = o.v
        same_groups(R, out, model, ['in order', 'all first', 'one ahead'][way])
        R.done(['in order', 'all first', 'one ahead'][way])
bounded_stream(DS, 2); bounded_stream(MS, 3)

@obl(DS + '.fromIterList', 'C17', DS + '.fromIterList', bounded='at most 3 lists, of any length', fallback=None)
def _(R):
    """one list after the other, whatever their lengths"""
    I = R.I
    for cls in (DS, MS):
        ls = [Groups(R, 'list%d' % i) for i in range(R.pick(4, 'lists'))]
        lists = [l.seq if R.pick(2, 'iterator') == 0 else SeqIt(I, l.seq) for l in ls]
        o = R.call(I.getattr(R.name(cls), 'fromIterList'), lists if R.pick(2, 'a list') == 0 else Gen(iter(lists)))
        R.require(o.ok, 'raises %s' % (o.v.cls.name if not o.ok else ''))
        m2 = R.new(cls, itof(I, [('seq', l.seq, z3.IntVal(0)) for l in ls]))
        iso = Iso(I)
        if not iso(o.v, m2): raise Undecided('another representation: %s' % str(iso.why)[:100])
    R.done()
