"""Rules for loops over sequences of unknown length."""
import ast
from .core import *
from .interp import *
from . import models as MD
from .seq import Seq, MSeq
from . import seq as seqmod

class Unknown(Unsupported):
    """a value no invariant describes"""
class PathEnd(Exception):
    """the rest of the path is covered by another case of the loop rule"""
class Drop(Exception):
    """a guessed invariant does not hold: (loop, location, template)"""
    def __init__(self, key): self.key = key

def toseq(I, v):
    """the sequence of elements a loop over v visits, or None"""
    if isinstance(v, Gen):
        if v.busy: raise Unsupported('iterator of a loop used elsewhere')
        if isinstance(v, seqmod.SeqIt): v = v.q if not v.started and not v.done and I.ctx.implied(v.pos == 0) else None
        else: v = None if v.started or v.done else v.seq
    if isinstance(v, PSet): v = getattr(v, 'seq', None) if not v.items else None
    if isinstance(v, PDict) and isinstance(v.base, MD.SeqMap): v = seqmod.dictseq(I, v, 'keys')
    if isinstance(v, MD.Ext) and v.kind == 'dictview' and isinstance(v.d, MD.SymDict): v = v.d
    if isinstance(v, MD.Ext) and v.kind == 'dictview' and isinstance(v.d.base, MD.SeqMap): v = seqmod.dictseq(I, v.d, 'keys')
    if isinstance(v, MD.EnumList):
        if getattr(v, 'asseq', None) is None:
            q = toseq(I, v.v)
            v.asseq = q.map(lambda I, x, i: (SInt(z3.simplify(iz(i) + iz(v.st))), x), 'enumerate'); v.asseq.src = None
        v = v.asseq
    if isinstance(v, MD.SymList):
        if getattr(v, 'asseq', None) is None:
            v.asseq = Seq(v.n, lambda I, i, v=v: v.item(str(z3.simplify(iz(i)))), v.name); v.asseq.src = v
        v = v.asseq
    if isinstance(v, MD.SymDict):
        if getattr(v, 'askeys', None) is None: v.askeys = toseq(I, v.pairs(I)).map(lambda I, x, i: x[0], 'keys')
        v = v.askeys
    if isinstance(v, MD.SetList) and v.s.base is not None and not v.s.items:
        if getattr(v, 'asseq', None) is None:
            c = I.ctx
            n = c.fresh('setlen'); c.assume(n >= 0); tok = c.fresh('setlist', 'A')
            def el(I, i, v=v, tok=tok):
                x = SStr([c.atom(F('setel', 'AI>S')(tok, z3.simplify(iz(i))))])
                m = v.s.base(I, x)
                c.assume(m if isinstance(m, bool) else bt(m)); return x
            v.asseq = Seq(SInt(n), el, 'list of set'); v.asseq.src = v
        v = v.asseq
    return v if isinstance(v, Seq) else None
def loop_rule(M, I, s, itv, fr):
    h = I.ctx.data.get('fold')
    if h is None: return None
    itv = M.force(I, itv)
    sq = toseq(I, itv)
    for x in h if isinstance(h, list) else [h]:
        q = sq
        if isinstance(itv, Range) and x.seq is not None: q = x.range_seq(I, itv)
        if not isinstance(q, Seq) or isinstance(q.n, int): continue
        if isinstance(h, list) and not x.handles(q): continue
        return runloop(I, s, itv, fr, x, q)
    return None
def runloop(I, s, itv, fr, x, q):
    # the consumer of a generator would miss what the iterations skipped yield
    if fr.fn is not None and fr.fn.gen and I.ctx.data.get('topgen') is not fr: raise Unsupported('loop in a generator')
    g = itv if isinstance(itv, Gen) else None
    if g: g.busy = True
    for y in x.loop(I, s, q, fr): yield y
    if g: g.busy = False; g.done = True
def visible(exprs, fr):
    """values of the local variables that expressions and the local functions they call can look at"""
    out, seen = [], set()
    def names(es):
        r = {n.id for e in es for n in ast.walk(e) if isinstance(n, ast.Name)}
        return r
    def look(ns, f):
        while f is not None:
            for n, x in list(f.vars.items()):
                if ns and n not in ns and 'super' not in ns and 'locals' not in ns: continue
                if (id(f), n) in seen: continue
                seen.add((id(f), n)); out.append(x)
                if isinstance(x, FuncVal) and x.parent is not None:
                    look(names([x.node]) or {'locals'}, x.parent)
            f = f.parent
    look(names(exprs), fr)
    return out
def lazycomp(I, first, target, fr, cf, leaf, gen=False, reads=()):
    """[f(x) for x in sequence of unknown length]: the element expression is
    evaluated for an arbitrary element now, to find the exceptions it raises,
    and again for every element that is looked at"""
    c = I.ctx
    rng = None
    v = I.models.force(I, first)
    if isinstance(v, Range):
        if not isinstance(v.b, SInt) or not isinstance(v.s, int) or v.s < 1 or not isinstance(v.a, int): return None
        rng = v
        d = v.b.t - v.a
        q = Seq(mkint(z3.If(d > 0, (d + (v.s - 1)) / v.s, z3.IntVal(0))), lambda I, i: mkint(z3.simplify(v.a + v.s * iz(i))), 'range')
    else: q = toseq(I, v)
    if not isinstance(q, Seq) or isinstance(q.n, int): return None
    lazy = gen and c.data['lazycomp'] == 'lazy'
    base = Frame(fr.module, fr.parent, fr.fn, fr.names)
    base.vars = dict(fr.vars); base.cls, base.self0, base.globs = fr.cls, fr.self0, fr.globs
    # what the element expression can look at
    heap = Heap(I, visible(reads, fr), [])
    def at(I, x, i):
        if heap.changed(): raise Unsupported('lazy comprehension after a change')
        if lazy and any(fr.vars.get(n) is not y for n, y in base.vars.items()): raise Unsupported('lazy comprehension after an assignment')
        f = Frame(fr.module, base, fr.fn, None); f.self0 = cf.self0
        I.assign(target, x, f)
        return leaf(f)
    if lazy:
        q = q.map(at, 'genexp')
        if c.data.get('genexp') == 'iterator' and rng is None:
            if isinstance(v, Gen): v.busy = True
            return seqmod.SeqIt(I, q)
        r = Gen(seqmod.iterate(I, q)); r.seq = q; r.range = rng
        return r
    if not c.branch(iz(q.n) > 0, 'elements'): return iter([])
    j = c.fresh('el'); c.assume(z3.And(j >= 0, j < iz(q.n)))
    at(I, q.at(I, j), j)
    def elem(I, x, i):
        try: return at(I, x, i)
        except PyRaise: raise Infeasible()
    r = q.map(elem, 'comp')
    r.range = rng
    return r
def comp_rule(M, I, e, fr, kind):
    h = I.ctx.data.get('comp_rule')
    return h(M, I, e, fr, kind) if h else None

# ---------------------------------------------------------------- heap comparison
class Heap(object):
    """shallow copies of everything reachable, to find out what a loop body changed"""
    def __init__(self, I, roots, skip, stop=()):
        self.seen = {}; self.stop = {id(x) for x in stop}
        self.skip = {id(x) for x in skip}
        for r in roots: self.visit(r)
        self.I = I
    def visit(self, v):
        st = [v]
        while st:
            v = st.pop()
            if id(v) in self.seen or id(v) in self.stop: continue
            if isinstance(v, Obj):
                self.seen[id(v)] = (v, list(v.attrs.items())); st.extend(x for _, x in v.attrs.items())
            elif isinstance(v, PDict):
                self.seen[id(v)] = (v, (self.entries(v), v.base)); st.extend(x for _, x in v.items())
            elif isinstance(v, (list, tuple)):
                self.seen[id(v)] = (v, list(v)); st.extend(v)
            elif isinstance(v, PSet): self.seen[id(v)] = (v, (list(v.items), v.base))
            elif isinstance(v, MSeq): self.seen[id(v)] = (v, (v.n, list(v.writes))); st.extend(x for _, x in v.writes)
            elif isinstance(v, MD.Ext): self.seen[id(v)] = (v, dict(v.__dict__))
            elif isinstance(v, Bound): st.append(v.self) if hasattr(v, 'self') else None
    def entries(self, d):
        """entries of a dictionary other than those of its unknown part
        that were only looked at"""
        def looked(e):
            return len(e) == 4 and (e[3] is None or len(e[3]) == len(e[1].attrs.items()) and all(a is c and b is d for (a, b), (c, d) in zip(e[3], e[1].attrs.items())))
        return [(e[0], e[1]) for e in d.order if not looked(e)]
    def inside(self, x, roots):
        """x is part of some other object"""
        for v, s in self.seen.values():
            if any(v is r for r in roots): continue
            if isinstance(v, Obj): vs = [y for _, y in v.attrs.items()]
            elif isinstance(v, PDict): vs = [y for _, y in v.items()]
            elif isinstance(v, (list, tuple)): vs = list(v)
            elif isinstance(v, MSeq): vs = [y for _, y in v.writes]
            else: continue
            if any(y is x for y in vs): return True
        return False
    def changed(self):
        """objects changed that are not to be skipped"""
        def same(xs, ys): return len(xs) == len(ys) and all(a is b or isconc(a) and isconc(b) and type(a) is type(b) and a == b for a, b in zip(xs, ys))
        def flat(ps): return [x for p in ps for x in p]
        out = []
        for v, s in self.seen.values():
            if id(v) in self.skip: continue
            if isinstance(v, Obj): ok = same(flat(v.attrs.items()), flat(s))
            elif isinstance(v, PDict): ok = same(flat(self.entries(v)), flat(s[0])) and v.base is s[1]
            elif isinstance(v, (list, tuple)): ok = same(list(v), s)
            elif isinstance(v, MSeq): ok = v.n is s[0] and len(v.writes) == len(s[1])
            elif isinstance(v, PSet): ok = same(v.items, s[0]) and v.base is s[1]
            else: ok = v.__dict__.keys() == s.keys() and all(v.__dict__[k] is s[k] or v.__dict__[k] == s[k] if isconc(s[k]) else v.__dict__[k] is s[k] for k in s)
            if not ok: out.append(v)
        for v, s in self.I._snap.values():
            if v is self.I.modules.get('spec'): continue
            if isinstance(v, (ModuleVal, ClassVal)):
                # names of libraries are resolved on first use
                ok = all(v.ns.get(k, POISON) is s[k] for k in s) and (len(v.ns) == len(s) or isinstance(v, ModuleVal) and not any(v is m for m in self.I.modules.values()))
            elif isinstance(v, Obj): ok = same(flat(v.attrs.items()), flat(s.items()))
            elif isinstance(v, PDict): ok = same(flat(v.items()), flat(s.items()))
            elif isinstance(v, list): ok = same(v, s)
            elif isinstance(v, PSet): ok = same(v.items, s.items)
            else: ok = True
            if not ok and id(v) not in self.skip: out.append(v)
        return out

def alike(I, a, b):
    """condition under which two values are interchangeable"""
    if a is b: return True
    if isinstance(b, Template): return b.matches(I, a)
    a, b = I.models.force(I, a), I.models.force(I, b)
    if a is b: return True
    if a is POISON or b is POISON: raise Unknown('value of a variable after a loop is unknown')
    if isinstance(a, Obj) and isinstance(b, Obj):
        if a.cls is not b.cls: return False
        ka, kb = a.attrs.keys(), b.attrs.keys()
        if len(ka) != len(kb) or set(map(str, ka)) != set(map(str, kb)): return False
        return conj([bt(alike(I, a.attrs.raw(k), b.attrs.raw(k))) for k in ka])
    if isbool(a) != isbool(b) or isint(a) != isint(b) or isstr(a) != isstr(b) or isbytes(a) != isbytes(b): return False
    if isinstance(a, (Obj, ClassVal, FuncVal, Bound, Builtin, ModuleVal, Gen, MD.Ext, Seq)) or isinstance(b, (Obj, ClassVal, FuncVal, Bound, Builtin, ModuleVal, Gen, MD.Ext, Seq)): return False
    if isinstance(a, PDict) and isinstance(b, PDict) and a.base is None and b.base is None and not a.nsym and not b.nsym:
        if len(a.order) != len(b.order) or set(a.d) != set(b.d): return False
        return conj([bt(alike(I, v, b.raw(k))) for k, v in a.items()])
    if isinstance(a, (list, PDict, PSet)) or isinstance(b, (list, PDict, PSet)): return False
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and conj([bt(alike(I, x, y)) for x, y in zip(a, b)])
    if isinstance(a, SFloat) and isinstance(b, SFloat):
        if a.src is not None and b.src is not None: return I.ctx.eq(a.src, b.src)
        return False
    try: r = I.models.equal(I, a, b)
    except Unsupported: return False
    return r.t if isinstance(r, SBool) else r

class Template(object):
    """description of a list that a loop builds"""
class MapList(Template):
    """list of f(0), ..., f(n - 1)"""
    def __init__(self, f, n): self.f, self.n = f, n
    def make(self):
        r = MSeq(mkint(iz(self.n)), self.f, 'map'); r.mapf = self.f
        return r
    def matches(self, I, v):
        c = I.ctx
        n = z3.simplify(iz(self.n))
        if isinstance(v, list):
            if not c.implied(n == len(v)): return False
            return conj([bt(alike(I, x, self.f(I, z3.IntVal(j)))) for j, x in enumerate(v)])
        if isinstance(v, MSeq) and getattr(v, 'mapf', None) is self.f and len(v.writes) == 1:
            (j, x), = v.writes
            if not (c.implied(iz(v.n) == n) and c.implied(j == n - 1) and c.implied(iz(v.base.n) == n - 1)): return False
            return alike(I, x, self.f(I, z3.simplify(n - 1)))
        return False

class DictIs(Template):
    """dictionary with the contents of a given one"""
    def __init__(self, d): self.d = d
    def make(self): return self.d.copy()
    def matches(self, I, v):
        c = I.ctx
        if not isinstance(v, PDict) or not all(isstr(I.models.force(I, k)) for k in v.keys()): return False
        q = SStr([c.atom(c.fresh('anykey', 'S'))])
        x, y = I.models.dict_find(I, v.copy(), q), I.models.dict_find(I, self.d.copy(), q)
        if (x is None) != (y is None): return False
        return True if x is None else alike(I, x[1], y[1])
class FoldRule(object):
    """Loop over a sequence whose effect is specified by a step function on
    ghost states.  The relation between the program's state at the loop head
    and the ghost state (the loop invariant) is guessed per variable from a
    list of templates and checked to be inductive: guesses that fail are
    dropped and the exploration restarts (Houdini).
    Subclasses: entry(), arb(k), step(g, i), shape(g), templates(g, i), roots(),
    rejected(exc, g), final(g)."""
    def __init__(self, R, seq, inv, mode):
        self.R, self.I, self.seq, self.inv, self.mode = R, R.I, seq, inv, mode
    def handles(self, q): return self.seq is not None and self.seq.root is q.root
    def range_seq(self, I, r):
        n = self.seq.n
        if isinstance(r.s, int) and r.s == -1 and isinstance(r.b, int) and r.b == -1 and I.ctx.implied(iz(r.a) == iz(n) - 1):
            return Seq(n, lambda I, i: mkint(z3.simplify(iz(n) - 1 - iz(i))), 'range', self.seq.root, z3.simplify(iz(n) - 1), -1)
        if not (isinstance(r.a, int) and r.a == 0 and isinstance(r.s, int) and r.s == 1): return r
        if isinstance(r.b, SInt) and (I.ctx.implied(iz(r.b) == iz(self.seq.n))):
            return Seq(self.seq.n, lambda I, i: mkint(i), 'range', self.seq.root)
        return r
    def check(self, cond, msg):
        self.I.ctx.note('loop invariant')
        self.R.require(cond, msg)
    def loop(self, I, s, itv, fr):
        R, c = self.R, I.ctx
        if itv.root is not self.seq.root: raise Unsupported('loop over another sequence')
        if not (c.implied(itv.index(0) == self.seq.index(0)) and c.implied(iz(itv.n) == iz(self.seq.n)) and itv.step == self.seq.step):
            raise Unsupported('loop over part of the sequence')
        n = iz(itv.n)
        key = '%s:%d' % (fr.fn.qual if fr.fn else '?', s.lineno)
        if not hasattr(I, 'loops_seen'): I.loops_seen = set()
        I.loops_seen.add(key)
        if self.mode == 'infer' and not (isinstance(c.data.get('fold'), list) and (self.inv or {}).get(key) is not None): conds = [False, n >= 1, False, False]
        else: conds = [n == 0, n >= 1, n >= 2, n >= 1]
        case = c.choose(conds, 'loop %s' % key)
        if case == 0:
            self.ghost = c.data['ghost'] = self.entry(); self.finished(itv)
            for y in I.block(s.orelse, fr): yield y
            return
        self.fr = fr
        roots = self.roots(); skip = roots + self.more_skip()
        entryvals = {('v', n): v for n, v in fr.vars.items()}
        for ri, o in enumerate(roots):
            for n_, v in o.attrs.items(): entryvals[('a', ri, n_)] = v
        if case == 1:
            g, i = self.entry(), z3.IntVal(0); self.cur = g
            heap = Heap(I, list(fr.vars.values()) + ([x for x in fr.parent.vars.values()] if fr.parent else []) + self.more_roots(), skip)
            I.assign(s.target, itv.at(I, i), fr)
            for y in self.body(I, s, fr, g, i, heap, key, entryvals, roots): yield y
            return
        # arbitrary number of iterations done
        inv = self.inv.get(key)
        if inv is None: raise Unsupported('no invariant for loop %s' % key)
        if case == 2:
            k = c.fresh('k'); c.assume(z3.And(k >= 1, k < n)); done = k
        else: done = n
        g = self.cur = self.arb(done)
        heap = Heap(I, list(fr.vars.values()) + ([x for x in fr.parent.vars.values()] if fr.parent else []) + self.more_roots(), skip)
        self.havoc(I, fr, g, z3.simplify(done - 1), inv, entryvals, roots)
        if case == 3:
            self.ghost = c.data['ghost'] = g; self.finished(itv)
            for y in I.block(s.orelse, fr): yield y
            return
        I.assign(s.target, itv.at(I, k), fr)
        for y in self.body(I, s, fr, g, k, heap, key, entryvals, roots): yield y
    def escaped(self, v):
        """the object is known to the consumer of a generator"""
        return False
    def finished(self, seq):
        """the loop has run to its end"""
    def more_roots(self): return []
    def more_skip(self): return []
    def havoc_more(self, g, last):
        """gives further mutable objects the contents of the ghost state"""
    def more_shape(self, g):
        """conditions that they have these contents"""
        return []
    def havoc(self, I, fr, g, last, inv, entryvals, roots):
        T = None
        fresh = {}
        def value(loc):
            nonlocal T
            cands = inv.get(loc)
            if not cands: return POISON
            for t in cands:
                if t == 'entry': return entryvals[loc]
                if T is None: T = dict(self.templates(g, last))
                if t in T: return T[t]()
            return POISON
        for loc in inv:
            v = value(loc)
            if isinstance(v, Template): v = v.make()
            if loc[0] == 'v': fr.vars[loc[1]] = v
            else: roots[loc[1]].attrs.setraw(loc[2], v)
        self.havoc_more(g, last)
    def body(self, I, s, fr, g, i, heap, key, entryvals, roots):
        R, c = self.R, I.ctx
        exc = left = None
        key_arb = z3.is_const(i) and not z3.is_int_value(i)
        try:
            for y in I.block(s.body, fr): yield y
        except ContinueEx: pass
        except (BreakEx, ReturnEx) as x: left = x
        except PyRaise as p: exc = p.exc
        try: g2 = self.step(g, i)
        except PyRaise as p: raise Unsupported('exception in the specification: %s' % p.exc.cls.name)
        if exc is not None:
            self.ghost = c.data['ghost'] = g2
            if not isinstance(g2, Rejected) and key_arb: c.note('loop invariant')
            raise PyRaise(exc)
        if left is not None:
            # only if the specification is decided as well
            if not isinstance(g2, (Rejected, Accepted)): raise Unsupported('loop left early')
            self.ghost = c.data['ghost'] = g2
            if key_arb: c.note('loop invariant')
            if isinstance(left, ReturnEx): raise left
            return
        if isinstance(g2, Accepted): raise Unsupported('loop continues after the decision')
        if isinstance(g2, Rejected):
            c.note('loop invariant')
            self.accepted(g2)
            raise PathEnd()
        ch = heap.changed()
        # lists that are known under one name only
        names = list(fr.vars.values()) + [v for o in roots for _, v in o.attrs.items()]
        mine = [x for x in ch if isinstance(x, (list, Seq, PDict)) and (self.escaped(x) or sum(x is v for v in names) == 1 and not heap.inside(x, roots))]
        ch = [x for x in ch if not any(x is y for y in mine)]
        if ch: raise Unsupported('loop changes %s' % ', '.join(sorted({str(x)[:60] for x in ch}))[:160])
        cur = {('v', n): v for n, v in fr.vars.items()}
        for ri, o in enumerate(roots):
            for n_, v in o.attrs.items(): cur[('a', ri, n_)] = v
        T = {}
        for n_, f in self.templates(g2, i): T[n_] = f
        vals = {}
        muts = (list, MSeq, PDict, PSet)
        inner = {}
        def within(loc):
            if loc not in inner:
                h = Heap(I, [cur[loc]], [], roots); inner[loc] = set(h.seen)
            return inner[loc]
        def loose(loc):
            # known under several names, or held by someone else
            v = cur[loc]
            if not isinstance(v, muts): return False
            if self.escaped(v): return True
            return any(l != loc and id(v) in within(l) for l in cur)
        def holds(loc, t):
            if t != 'entry' and loose(loc) or t == 'entry' and self.escaped(cur[loc]): return False
            try: return holds1(loc, t)
            except Unknown: return False
        def holds1(loc, t):
            if t == 'entry':
                if loc not in entryvals or any(cur[loc] is x for x in mine): return False
                return R.implied(alike(I, cur[loc], entryvals[loc])) is True
            if t not in T: return False
            if t not in vals: vals[t] = T[t]()
            return R.implied(alike(I, cur[loc], vals[t])) is True
        if self.mode == 'infer':
            old = (self.inv or {}).get(key)
            found = {loc: [t for t in (['entry'] + list(T) if old is None or loc not in old else old[loc]) if holds(loc, t)] for loc in cur}
            raise Found(key, found)
        R.stats['queries'] += 1
        for m in self.more_shape(g2): self.check(m[0], m[1])
        for m in self.shape(g2, g): self.check(m[0], m[1])
        for loc, cands in self.inv.get(key, {}).items():
            if not cands: continue
            if loc not in cur: raise Drop((key, loc, None))
            R.stats['queries'] += 1
            if not holds(loc, cands[0]): raise Drop((key, loc, cands[0]))
        for loc in cur:
            # a location the invariant does not know
            if loc not in self.inv.get(key, {}): raise Drop((key, loc, None))
        R.done('step')
        raise PathEnd()
class ElementsFold(FoldRule):
    """loop over a list of arbitrary JSON values that lets pass exactly those
    of some kinds"""
    def __init__(self, R, kinds, inv, mode, why):
        FoldRule.__init__(self, R, None, inv, mode); self.kinds, self.why = kinds, why
    def handles(self, q):
        if self.seq is None and isinstance(getattr(q, 'src', None), (MD.SymList, MD.SetList)): self.seq = q
        return self.seq is not None and self.seq.root is q.root
    def roots(self): return []
    def entry(self): return 'pass'
    def arb(self, k): return 'pass'
    def shape(self, g, old): return []
    def finished(self, q):
        if isinstance(q.src, MD.SymList): q.src.elemkinds = self.kinds
    def step(self, g, i):
        v = self.seq.at(self.I, i)
        if isinstance(v, MD.SJson): ok = v.narrow(self.I, self.kinds)
        else: ok = isstr(v) and 'str' in self.kinds
        return g if ok else Rejected(self.why, 'element of another type')
    def accepted(self, g): self.R.require(False, 'goes on after an ' + g.detail, self.why)
    def templates(self, g, i):
        return [('elem', lambda: self.seq.at(self.I, i)), ('index', lambda: mkint(iz(i))), ('None', lambda: None), ('True', lambda: True), ('False', lambda: False)]
class Rejected(object):
    """the specification rejects; why: property"""
    def __init__(self, why, detail=''): self.why, self.detail = why, detail
class Accepted(object):
    """the specification accepts whatever follows"""
class Found(Exception):
    def __init__(self, key, found): self.key, self.found = key, found
