"""Sequences of arbitrary length: element i is a function of the index."""
from .core import *
from .interp import *
from . import lang as L

class Seq(object):
    pytype = list
    def __init__(self, n, elem, name='seq', root=None, off=0, step=1):
        self.n, self.elem, self.name = n, elem, name
        self.root = root if root is not None else self
        self.off, self.step = off, step     # root index of element i: off + step * i
        self.memo = []
    def __repr__(self): return '<seq %s>' % self.name
    def at(self, I, i):
        """element at a valid index (int or z3 term)"""
        c = I.ctx
        t = z3.simplify(iz(i))
        for u, v in self.memo:
            if u.eq(t): return v
        for u, v in self.memo:
            if c.implied(u == t): self.memo.append((t, v)); return v
        v = self.elem(I, t)
        self.memo.append((t, v))
        return v
    def index(self, i):
        """index into the root sequence"""
        return z3.simplify(iz(self.off) + self.step * iz(i))
    def map(self, f, name='map'):
        return Seq(self.n, lambda I, i: f(I, self.at(I, i), i), name, self.root, self.off, self.step)
    def slice(self, I, a, b):
        c = I.ctx
        n = iz(self.n)
        def clip(v, d):
            if v is None: return d
            v = iz(v)
            return z3.If(v < 0, z3.If(n + v < 0, z3.IntVal(0), n + v), z3.If(v > n, n, v))
        lo, hi = z3.simplify(clip(a, z3.IntVal(0))), z3.simplify(clip(b, n))
        def known(x, cands):
            for y in cands:
                if c.implied(x == y): return z3.simplify(iz(y))
            return x
        lo = known(lo, [x for x in (0, iz(a) if a is not None else 0)])
        m = mkint(z3.If(hi > lo, hi - lo, z3.IntVal(0)))
        for cand in ([n] if a is None else []) + [hi - lo]:
            if not isinstance(m, int) and c.implied(m.t == cand): m = mkint(cand); break
        return Seq(m, lambda I, i: self.at(I, lo + i), self.name + '[:]', self.root, z3.simplify(iz(self.off) + self.step * lo), self.step)
    def reverse(self):
        return Seq(self.n, lambda I, i: self.at(I, iz(self.n) - 1 - i), 'rev', self.root, z3.simplify(iz(self.off) + self.step * (iz(self.n) - 1)), -self.step)

def dictseq(I, d, what):
    """keys, values or items of a dictionary whose contents are a sequence"""
    from .models import SeqMap
    if not isinstance(d.base, SeqMap) or any(len(e) != 4 for e in d.order): raise Unsupported('iteration over an arbitrary dictionary')
    return d.base.seq(I, what)
def joined(I, sep, s):
    """text joined from a sequence, if that can be expressed"""
    c = I.ctx
    if getattr(s, 'joinfn', None): return s.joinfn(I, sep)
    if getattr(s, 'range', None) is not None:
        # parts of a text one after the other
        r = s.range
        i = c.fresh('part'); c.assume(z3.And(i >= 0, i < iz(s.n)))
        x = s.at(I, i)
        tg = c.tags.get(x.parts[0].get_id()) if isinstance(x, SRope) and len(x.parts) == 1 else None
        if not tg or tg[0] != 'substr': return None
        _, o, lo, hi = tg
        sp = c.conc(sep)
        if sp is None or not isinstance(r.s, int) or r.s < 1: return None
        if not (c.implied(lo == r.s * i) and c.implied(hi == lo + r.s) and c.implied(iz(r.b) == iz(c.length(o))) and c.implied(iz(r.a) == 0)): return None
        if not len(sp): return o
        if not isstr(o): return None
        t = F('wrap!%d!%s' % (r.s, sp), 'S>S')(c.term(o))
        ns = c.member(o, L.NOSURR, 'no surrogates')
        c.atom(t, L.NOSURR if ns else L.compl(L.NOSURR), ('wrap', o, r.s, sp))
        return SStr([t])
    return None
def getitem(I, s, k):
    c = I.ctx
    if isinstance(k, slice):
        if k.step is not None and I.models.force(I, k.step) == -1 and k.start is None and k.stop is None: return s.reverse()
        if k.step is not None: raise Unsupported('slice with a step')
        return s.slice(I, k.start, k.stop)
    k = I.models.index(I, k, 'list')
    n = iz(s.n)
    kk = iz(k)
    if not c.branch(z3.And(kk >= -n, kk < n), 'index'): raise I.exc(IndexError, 'list index out of range')
    if c.branch(kk < 0, 'negative index'): kk = n + kk
    return s.at(I, kk)

def iterate(I, s):
    if isinstance(s.n, int):
        for i in range(s.n): yield s.at(I, i)
        return
    lim = I.ctx.data.get('unroll_seq')
    if lim is None: raise Unsupported('loop over a sequence of unknown length')
    i = 0
    while True:
        if I.ctx.implied(iz(s.n) == i): return
        if not I.ctx.branch(iz(s.n) > i, 'another element'): return
        if i >= lim:
            I.ctx.data['bounded'] = True; raise Infeasible()
        yield s.at(I, i)
        i += 1

def tolist(I, v):
    """list(v) for a sequence or iterator of unknown length"""
    if isinstance(v, MSeq): return v.copy()
    q = v
    if isinstance(v, SeqIt):
        q = v.q if I.ctx.implied(v.pos == 0) else v.q.slice(I, SInt(v.pos), None)
        v.pos = z3.simplify(iz(v.q.n))
        v = Gen(iter([])); v.seq = q
    if isinstance(v, Gen):
        if v.seq is None or v.started or v.busy or v.done: return None
        q = v.seq
    if isinstance(q.n, int): return None
    c = I.ctx
    if isinstance(v, Gen):
        # an arbitrary element, for the exceptions computing it raises
        v.busy = True
        if c.branch(iz(q.n) > 0, 'elements'):
            j = c.fresh('el'); c.assume(z3.And(j >= 0, j < iz(q.n)))
            q.at(I, z3.simplify(j))
        v.busy = False; v.done = True
        def at(I, i):
            try: return q.at(I, i)
            except PyRaise: raise Infeasible()
    else: at = q.at
    r = MSeq(q.n, at, 'list')
    r.src = q
    return r
class MSeq(Seq):
    """list of arbitrary length that can be changed"""
    def __init__(self, n, elem, name='list'):
        Seq.__init__(self, n, elem, name)
        self.base = Seq(n, elem, name)      # contents before
        self.writes = []
    def at(self, I, i):
        c = I.ctx
        t = z3.simplify(iz(i))
        for u, v in reversed(self.writes):
            if u.eq(t): return v
            if c.branch(u == t, 'same element'): return v
        return self.base.at(I, t)
    def write(self, I, i, v): self.writes.append((z3.simplify(iz(i)), v))
    def append(self, I, v):
        self.writes.append((z3.simplify(iz(self.n)), v)); self.n = mkint(iz(self.n) + 1)
    def pop(self, I):
        n = iz(self.n)
        if not I.ctx.branch(n > 0, 'list not empty'): raise I.exc(IndexError, 'pop from empty list')
        x = self.at(I, z3.simplify(n - 1))
        for k in ('chunk', 'piece', 'certs', 'src', 'sized', 'joinfn'): self.__dict__.pop(k, None)
        self.n = mkint(n - 1)
        return x
    def extend(self, I, v):
        v = I.models.force(I, v)
        if not isinstance(v, (list, tuple)): raise Unsupported('extending a list')
        for x in list(v): self.append(I, x)
    def copy(self):
        import copy
        r = copy.copy(self); r.writes = list(self.writes); r.root = r
        return r
    def clear(self):
        for k in ('chunk', 'piece', 'certs', 'src', 'mapf', 'sized', 'joinfn'): self.__dict__.pop(k, None)
        self.n = 0; self.base = Seq(0, None, self.name); self.writes = []
    def slice(self, I, a, b):
        if a is None and b is None: return self.copy()
        raise Unsupported('slice of a list that can be changed')
    def reverse(self): raise Unsupported('reversed list that can be changed')
def setitem(I, s, k, v):
    c = I.ctx
    if not isinstance(s, MSeq): raise Unsupported('item assignment')
    k = I.models.index(I, k, 'list')
    n, kk = iz(s.n), iz(k)
    if not c.branch(z3.And(kk >= -n, kk < n), 'index'): raise I.exc(IndexError, 'list assignment index out of range')
    if c.branch(kk < 0, 'negative index'): kk = n + kk
    s.write(I, kk, v)

# ---------------------------------------------------------------- iterators whose remaining contents are known
class SeqIt(Gen):
    """iterator over a sequence of unknown length"""
    def __init__(self, I, q, pos=0):
        Gen.__init__(self, self); self.I, self.q, self.pos = I, q, z3.simplify(iz(pos))
    def __iter__(self): return self
    def __next__(self):
        if not self.I.ctx.branch(self.pos < iz(self.q.n), 'another element'): raise StopIteration
        p = self.pos; self.pos = z3.simplify(p + 1)
        return self.q.at(self.I, p)
class ListIt(Gen):
    def __init__(self, v): Gen.__init__(self, self); self.v, self.pos = v, 0
    def __iter__(self): return self
    def __next__(self):
        if self.pos >= len(self.v): raise StopIteration
        self.pos += 1
        return self.v[self.pos - 1]
class Chain(Gen):
    """itertools.chain"""
    def __init__(self, I, parts): Gen.__init__(self, self); self.I, self.parts, self.cur = I, list(parts), None
    def __iter__(self): return self
    def __next__(self):
        while True:
            if self.cur is None:
                if not self.parts: raise StopIteration
                x = self.I.models.force(self.I, self.parts.pop(0))
                if isinstance(x, (list, tuple)): x = ListIt(x)
                elif type(x) is Seq: x = SeqIt(self.I, x)
                self.cur = x if isinstance(x, Gen) else self.I.iterate(x)
            if not isinstance(self.cur, Gen):
                try: return next(self.cur)
                except StopIteration: self.cur = None
            else:
                try: return self.I.gnext(self.cur)
                except StopIteration: self.cur = None
def contents(I, v):
    """what an iterable still delivers: list of ('item', x) and ('seq', sequence, from); None if unknown"""
    c = I.ctx
    v = I.models.force(I, v)
    if isinstance(v, Gen) and v.done: return []
    if isinstance(v, SeqIt): r = [('seq', v.q, v.pos)]
    elif isinstance(v, ListIt): r = [('item', x) for x in v.v[v.pos:]]
    elif isinstance(v, Chain):
        r = []
        for x in ([v.cur] if v.cur is not None else []) + v.parts:
            y = contents(I, x)
            if y is None: return None
            r += y
    elif isinstance(v, (list, tuple)): r = [('item', x) for x in v]
    elif type(v) is Seq: r = [('seq', v, z3.IntVal(0))]
    elif isinstance(v, Gen) and v.seq is not None and not v.started and not v.busy: r = [('seq', v.seq, z3.IntVal(0))]
    else: return None
    return [x for x in r if x[0] == 'item' or not c.implied(x[2] >= iz(x[1].n))]
