"""Symbolic values, path context and solver interface of the verifier.

Text and byte strings are ropes: sequences of literals and z3 terms of the
uninterpreted sort Str.  What is known about a term is a set of solver facts
plus, exactly, the regular language it is known to belong to (ctx.dom).
Library functions are uninterpreted functions with the axioms in models.py."""
import os, sys, time
for p in ('/opt/veriftools/pyvenv/lib/python3.12/site-packages',):
    if p not in sys.path: sys.path.append(p)
import z3
from . import lang as L

Str = z3.DeclareSort('Str')
Any = z3.DeclareSort('Any')
I, B = z3.IntSort(), z3.BoolSort()
SORTS = {'R': z3.RealSort(), 'S': Str, 'I': I, 'B': B, 'A': Any}

class Unsupported(Exception):
    """outside the verified subset: the obligation is undecided"""
class Infeasible(Exception): pass
class PathBudget(Exception): pass
class PyRaise(Exception):
    """a Python exception propagating through the interpreted program"""
    def __init__(self, exc): self.exc = exc
    def __str__(self): return 'PyRaise(%s)' % (self.exc,)

# ---------------------------------------------------------------- values
class Sym(object):
    __slots__ = ()
class SBool(Sym):
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def __repr__(self): return 'SBool(%s)' % self.t
class SInt(Sym):
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def __repr__(self): return 'SInt(%s)' % self.t
class SRope(Sym):
    __slots__ = ('parts',)
    def __init__(self, parts): self.parts = tuple(parts)
    def __repr__(self): return '%s%r' % (type(self).__name__, self.parts)
class SStr(SRope):
    __slots__ = ()
    lit = str
class SBytes(SRope):
    __slots__ = ()
    lit = bytes
class SFloat(Sym):
    """real: exact real value (z3 Real or number); err, mag: numbers bounding
    |machine value - real| and |machine value|; src: text it was read from"""
    __slots__ = ('real', 'err', 'mag', 'src')
    def __init__(self, real=None, err=None, mag=None, src=None):
        self.real, self.err, self.mag, self.src = real, err, mag, src
class Opaque(Sym):
    """value of an external library, identified by a term"""
    __slots__ = ('kind', 't', 'info')
    def __init__(self, kind, t, info=None): self.kind, self.t, self.info = kind, t, info
    def __repr__(self): return '<%s %s>' % (self.kind, self.t)
class Poison(object):
    def __repr__(self): return 'POISON'
POISON = Poison()

def isstr(v): return isinstance(v, (str, SStr))
def isbytes(v): return isinstance(v, (bytes, SBytes))
def isint(v): return isinstance(v, SInt) or (isinstance(v, int) and not isinstance(v, bool))
def isbool(v): return isinstance(v, (bool, SBool))
def isnum(v): return isint(v) or isbool(v)
LITS = (str, bytes)

_funcs = {}
class Fn(object):
    """uninterpreted function with its applications cached"""
    __slots__ = ('f', 'memo')
    def __init__(self, f): self.f, self.memo = f, {}
    def __call__(self, *a):
        k = tuple([('n', x) if isinstance(x, int) else x.get_id() for x in a])
        r = self.memo.get(k)
        if r is None:
            if len(self.memo) > 20000: self.memo.clear()
            r = (self.f(*a), a)
            self.memo[k] = r
        return r[0]
def F(name, sig):
    """uninterpreted function; sig like 'SS>I'"""
    k = (name, sig)
    f = _funcs.get(k)
    if f is None:
        a, r = sig.split('>')
        f = _funcs[k] = Fn(z3.Function(name, *[SORTS[c] for c in a], SORTS[r]))
    return f

_lits, _litval, _litorder = {}, {}, {}
def litkey(v):
    if isinstance(v, str):
        return ('a', v) if v.isascii() else ('t', v)
    return ('a', v.decode('ascii')) if v.isascii() else ('b', v)
def litterm(v):
    k = litkey(v)
    if k not in _lits:
        t = z3.Const('lit!%d' % len(_lits), Str)
        _lits[k] = t
        _litorder[t.get_id()] = len(_lits)
        _litval[t.get_id()] = v
    return _lits[k]
def islit(t): return t.get_id() in _litval
def litvalue(t): return _litval[t.get_id()]

LEN = F('len', 'S>I')
CAT = F('cat', 'SS>S')
LITID = F('litid', 'S>I')

class Ctx(object):
    """One path: decisions taken so far plus everything assumed."""
    def __init__(self, explorer, prefix):
        self.ex = explorer
        self.prefix = prefix
        self.pos = 0
        self.decisions = []
        self.trace = []
        self.solver = z3.SimpleSolver()
        self.solver.set('timeout', explorer.timeout_ms)
        self.dom = {}
        self.sub = {}
        self.tags = {}
        self.seen = set()
        self.keep = []
        self.eqlits = {}
        self.lits_in = set()
        self.fresh_n = 0
        self.notes = []
        self.memo = {}
        self.seps = []
        self.data = {}
    # -- facts
    def assume(self, t):
        if t is True: return
        if t is False: raise Infeasible()
        self.solver.add(t)
    def once(self, key, t):
        if key not in self.seen:
            self.seen.add(key); self.assume(t() if callable(t) else t)
    def fresh(self, name, sort='I'):
        self.fresh_n += 1
        t = z3.Const('%s!%d' % (name, self.fresh_n), SORTS[sort])
        self.keep.append(t)
        return t
    def note(self, s):
        if s not in self.notes: self.notes.append(s)
    def check(self, *extra):
        self.ex.stats['checks'] += 1
        t = time.time()
        r = self.solver.check(*extra)
        self.ex.stats['time'] += time.time() - t
        if r == z3.unknown: self.ex.stats['unknown'] += 1
        return r
    def feasible(self, t=True):
        if t is False: return False
        return (self.check() if t is True else self.check(t)) != z3.unsat
    def implied(self, t):
        if t is True or t is False: return t
        t = z3.simplify(t)
        if z3.is_true(t): return True
        return self.check(z3.Not(t)) == z3.unsat
    # -- decisions
    def choose(self, conds, label=''):
        """takes one of the alternatives (jointly exhaustive conditions)"""
        if self.pos < len(self.prefix):
            i = self.prefix[self.pos]
        else:
            if self.ex.out_of_time(): raise PathBudget('time')
            ok = [k for k, c in enumerate(conds) if c is True or (c is not False and self.feasible(c))]
            if not ok: raise Infeasible()
            i = ok[0]
            for k in reversed(ok[1:]): self.ex.push(self.decisions + [k])
        self.pos += 1
        self.decisions.append(i)
        c = conds[i]
        if c is not True: self.assume(c)
        self.trace.append((label, i, c))
        return i
    def branch(self, c, label=''):
        if isinstance(c, SBool): c = c.t
        if c is True or c is False: return c
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        r = self.choose([c, z3.Not(c)], label) == 0
        self.learn(c, r)
        return r
    def learn(self, c, val):
        while z3.is_not(c): c = c.arg(0); val = not val
        if z3.is_eq(c):
            a, b = c.arg(0), c.arg(1)
            if a.sort() == Str:
                if islit(a): a, b = b, a
                if val: self.unify(a, b)
                elif islit(b) and a.get_id() in self.dom and not islit(a):
                    self.restrict(a, L.compl(L.literal(litvalue(b))))
        elif (val and z3.is_and(c)) or (not val and z3.is_or(c)):
            for x in c.children(): self.learn(x, val)
    def unify(self, a, b):
        """a == b was assumed"""
        if islit(a) and islit(b): return
        if islit(b):
            if a.get_id() in self.dom and a.get_id() not in self.sub:
                v = litvalue(b)
                if v not in self.dom[a.get_id()]: raise Infeasible()
                self.sub[a.get_id()] = (v,); self.keep.append(a)
            return
        for x, y in ((a, b), (b, a)):
            if x.num_args() == 0 and x.get_id() in self.dom and x.get_id() not in self.sub and not islit(x):
                d = self.dom[x.get_id()]
                self.sub[x.get_id()] = (y,); self.keep.append(x)
                self.atom(y)
                if y.get_id() not in self.sub: self.restrict(y, d)
                return
    # -- ropes
    def lit(self, v):
        t = litterm(v)
        k = t.get_id()
        if k not in self.lits_in:
            self.lits_in.add(k)
            self.assume(LEN(t) == len(v))
            self.assume(LITID(t) == _litorder[k])
            if isinstance(v, bytes) or v.isascii():
                try: (v if isinstance(v, bytes) else v.encode()).decode('utf-8'); u = True
                except UnicodeDecodeError: u = False
                f = F('isutf8', 'S>B')(t)
                self.assume(f if u else z3.Not(f))
        return t
    def atom(self, t, dfa=None, tag=None):
        k = t.get_id()
        if k not in self.dom:
            self.dom[k] = L.ALL
            self.keep.append(t)
            self.assume(LEN(t) >= 0)
            self.assume((LEN(t) == 0) == (t == self.lit('')))
        if tag is not None and k not in self.tags: self.tags[k] = tag
        if dfa is not None: self.restrict(t, dfa)
        return t
    def restrict(self, t, dfa):
        k = t.get_id()
        if k in self.sub:
            return
        old = self.dom[k]
        if old is dfa: return
        new = L.inter(old, dfa)
        if new is old: return
        if new.empty(): raise Infeasible()
        self.dom[k] = new
        for v, l in self.eqlits.get(k, {}).values():
            if v not in new: self.assume(t != l)
        for c in self.lenfacts(t, new, old): self.assume(c)
        w = new.single()
        if w is not None:
            if all(c < 128 for c in w): v = ''.join(map(chr, w))
            else: return
            self.sub[k] = (v,)
            self.assume(t == self.lit(v))
    def lenfacts(self, t, new, old=None):
        out = []
        mn, mx = new.minlen(), new.maxlen()
        if mn and (old is None or mn != old.minlen()): out.append(LEN(t) >= mn)
        if mx is not None and (old is None or mx != old.maxlen()): out.append(LEN(t) <= mx)
        low, tail, m = L.lengths(new)
        if tail is not None or m:
            holes = [x for x in range(mn or 0, (m if mx is None else mx)) if x < m and x not in low]
            if old is not None and holes:
                ol, ot, om = L.lengths(old)
                holes = [x for x in holes if x in ol or x >= om]
            if len(holes) <= 12: out += [LEN(t) != x for x in holes]
        for ch in self.seps:
            if mx == 0: continue
            lo, hi = L.count_range(new, ch)
            k = F('nsep!%d' % ord(ch), 'S>I')(t)
            if old is None or (lo, hi) != L.count_range(old, ch):
                if lo: out.append(k >= lo)
                if hi is not None: out.append(k == lo if hi == lo else k <= hi)
        r = L.residues(new, 4)
        if len(r) < 4 and (old is None or r != L.residues(old, 4)):
            out.append(disj([LEN(t) % 4 == x for x in sorted(r)]))
        return out
    def charset(self, p):
        if isinstance(p, LITS): return L.mk_iv(L.codes(p))
        return self.dom_of(p).charset()
    def dom_of(self, t):
        if t.get_id() not in self.dom: self.atom(t)
        return self.dom[t.get_id()]
    def may(self, p, ch):
        """may part p contain character ch?"""
        if isinstance(p, LITS): return (L.codes(ch)[0] if isinstance(ch, LITS) else ch) in L.codes(p)
        return L.iv_has(self.charset(p), L.codes(ch)[0] if isinstance(ch, LITS) else ch)
    def parts(self, v):
        """normal form: substitutions resolved, literals merged"""
        if isinstance(v, LITS): return [v] if len(v) else []
        lit = v.lit
        out = []
        st = list(reversed(v.parts))
        n = 0
        while st:
            n += 1
            if n > 10000: raise Unsupported('cyclic substitution')
            p = st.pop()
            if not isinstance(p, LITS):
                s = self.sub.get(p.get_id())
                if s is not None:
                    st.extend(reversed(s)); continue
                tg = self.tags.get(p.get_id())
                if tg is not None and tg[0] in ('e8', 'd8') and L.subset(self.dom_of(tg[1]), L.ASCII):
                    # encoding of an ASCII text is the text itself
                    self.sub[p.get_id()] = (tg[1],); self.keep.append(p)
                    self.assume(p == tg[1])
                    if tg[1].get_id() not in self.sub: self.restrict(tg[1], self.dom_of(p))
                    st.append(tg[1]); continue
                elif tg is not None and tg[0] in REEVAL:
                    w = REEVAL[tg[0]](self, tg)
                    if w is not None:
                        # the source has become known
                        if w not in self.dom_of(p): raise Infeasible()
                        self.sub[p.get_id()] = (w,); self.keep.append(p)
                        self.assume(p == self.lit(w))
                        st.append(w); continue
                if islit(p): p = litvalue(p)
            if isinstance(p, LITS):
                if not isinstance(p, lit): p = p.encode('ascii') if lit is bytes else p.decode('ascii')
                if not len(p): continue
                if out and isinstance(out[-1], LITS): out[-1] = out[-1] + p; continue
            out.append(p)
        return out
    def norm(self, v):
        if not isinstance(v, SRope): return v
        return self.mk(type(v), self.parts(v))
    def mk(self, T, parts):
        if not parts: return T.lit()
        if len(parts) == 1 and isinstance(parts[0], LITS): return parts[0]
        return T(parts)
    def conc(self, v):
        """the concrete value if it is one, else None"""
        v = self.norm(v)
        return v if isinstance(v, LITS) else None
    def cat(self, *vs):
        T = SStr if isstr(vs[0]) else SBytes
        ps = []
        for v in vs:
            if isstr(v) != (T is SStr): raise Unsupported('mixing text and bytes')
            ps.extend(v.parts if isinstance(v, SRope) else (v,))
        return self.norm(T(ps))
    def term(self, v):
        """z3 term denoting a rope"""
        ps = self.parts(v)
        if not ps: return self.lit('')
        ts = [self.lit(p) if isinstance(p, LITS) else p for p in ps]
        t = ts[-1]
        for x in reversed(ts[:-1]):
            n = CAT(x, t)
            if n.get_id() not in self.seen:
                self.seen.add(n.get_id()); self.keep.append(n)
                self.assume(LEN(n) == LEN(x) + LEN(t))
            t = n
        return t
    def length(self, v):
        n = 0
        for p in self.parts(v):
            if isinstance(p, LITS): n = n + len(p)
            else:
                self.atom(p)
                n = n + LEN(p)
        return mkint(n)
    # -- language membership; forks until decided
    def member(self, v, dfa, label='match'):
        if isinstance(v, LITS): return v in dfa
        ps = self.parts(v)
        while ps:
            if isinstance(ps[0], LITS): dfa = L.left_quotient(dfa, ps.pop(0)); continue
            if isinstance(ps[-1], LITS): dfa = L.right_quotient(dfa, ps.pop()); continue
            break
        if not ps: return 0 in dfa.acc
        t = ps[0]
        D = self.dom_of(t)
        if len(ps) == 1:
            if L.subset(D, dfa): return True
            if L.disjoint(D, dfa): return False
            b = F('in!%d' % did(dfa), 'S>B')(t)
            r = self.choose([conj([b] + self.lenfacts(t, L.inter(D, dfa), D)),
                conj([z3.Not(b)] + self.lenfacts(t, L.minus(D, dfa), D))], label) == 0
            self.restrict(t, dfa if r else L.compl(dfa))
            return r
        cand = [q for q in range(len(dfa.trans)) if not L.disjoint(L.arrive(dfa, q), D)]
        live = dfa.info()[0]
        if len(cand) == 1: q = cand[0]
        else:
            bs = [F('at!%d!%d' % (did(dfa), q), 'S>B')(t) for q in cand]
            i = self.choose([conj([b] + self.lenfacts(t, L.inter(D, L.arrive(dfa, q)), D)) for b, q in zip(bs, cand)], label)
            q = cand[i]
            self.restrict(t, L.arrive(dfa, q))
        if q not in live: return False
        return self.member(SStr(ps[1:]) if isinstance(v, SStr) else SBytes(ps[1:]), L.depart(dfa, q), label)
    def may_member(self, v, dfa):
        """without forking: True / False / None"""
        ps = self.parts(v)
        while ps:
            if isinstance(ps[0], LITS): dfa = L.left_quotient(dfa, ps.pop(0)); continue
            if isinstance(ps[-1], LITS): dfa = L.right_quotient(dfa, ps.pop()); continue
            break
        if not ps: return 0 in dfa.acc
        if len(ps) == 1:
            D = self.dom_of(ps[0])
            if L.subset(D, dfa): return True
            if L.disjoint(D, dfa): return False
            return None
        d = self.lang(v)
        if d is not None:
            if L.subset(d, dfa): return True
            if L.disjoint(d, dfa): return False
        return None
    def lang(self, v): return None
    def eq(self, a, b):
        """equality of two ropes of the same type -> bool or z3 Bool"""
        pa, pb = self.parts(a), self.parts(b)
        T = SStr if isstr(a) else SBytes
        def strip(i):
            while pa and pb:
                p, q = pa[i], pb[i]
                pl, ql = isinstance(p, LITS), isinstance(q, LITS)
                if pl and ql:
                    n = min(len(p), len(q))
                    if i == 0:
                        if p[:n] != q[:n]: return False
                        p, q = p[n:], q[n:]
                    else:
                        if p[len(p) - n:] != q[len(q) - n:]: return False
                        p, q = p[:len(p) - n], q[:len(q) - n]
                    for x, l in ((p, pa), (q, pb)):
                        if len(x): l[i] = x
                        else: l.pop(i)
                elif not pl and not ql and p.eq(q):
                    pa.pop(i); pb.pop(i)
                else: break
            return True
        if not strip(0) or not strip(-1): return False
        if not pa and not pb: return True
        if not pa or not pb:
            r = pa or pb
            if any(isinstance(p, LITS) for p in r): return False
            return conj([self.atom_eq_lit(p, '') for p in r])
        if len(pa) == 1 and len(pb) == 1:
            x, y = pa[0], pb[0]
            if isinstance(x, LITS): x, y = y, x
            if isinstance(y, LITS): return self.atom_eq_lit(x, y)
            self.atom(x); self.atom(y)
            if L.disjoint(self.dom_of(x), self.dom_of(y)): return False
            h = self.ex.eq_hook
            if h:
                r = h(self, x, y)
                if r is not None: return r
            return x == y
        # align at separators no atom can contain
        seps = []
        for p in pa + pb:
            if isinstance(p, LITS): seps += [c for c in L.codes(p) if c not in seps]
        for c in seps:
            if all(isinstance(p, LITS) or not self.may(p, c) for p in pa + pb):
                fa, fb = self.fields(pa, c), self.fields(pb, c)
                if len(fa) != len(fb): return False
                return conj([self.eq(self.mk(T, x), self.mk(T, y)) for x, y in zip(fa, fb)])
        # fixed-length alignment
        la, lb = self.fixed(pa), self.fixed(pb)
        if la and lb:
            r = self.align(T, pa, pb)
            if r is not None: return r
        if len(pa) == 1 or len(pb) == 1:
            one, many = (pa, pb) if len(pa) == 1 else (pb, pa)
            if isinstance(one[0], LITS):
                r = self.may_member(self.mk(T, many), L.literal(one[0]))
                if r is not None: return r
        self.note('approximate comparison of concatenations')
        return self.term(self.mk(T, pa)) == self.term(self.mk(T, pb))
    def fixed(self, ps): return False
    def align(self, T, pa, pb): return None
    def atom_eq_lit(self, t, v):
        D = self.dom_of(t)
        if v not in D: return False
        tg = self.tags.get(t.get_id())
        if tg and tg[0] == 'e8' and isinstance(v, bytes):
            try: return self.atom_eq_lit(tg[1], v.decode('utf-8'))
            except UnicodeDecodeError: return False
        h = self.ex.lit_hook
        if h:
            r = h(self, t, v)
            if r is not None: return r
        l = self.lit(v)
        self.eqlits.setdefault(t.get_id(), {})[l.get_id()] = (v, l)
        return t == l
    def fields(self, parts, c):
        out = [[]]
        for p in parts:
            if isinstance(p, LITS):
                segs = p.split(L.char(c) if isinstance(p, str) else bytes([c]))
                if len(segs[0]): out[-1].append(segs[0])
                for s in segs[1:]: out.append([s] if len(s) else [])
            else: out[-1].append(p)
        return out
    # -- substitutions that look inside a text
    def split_at(self, t, k):
        """t := head (k characters) + tail; LEN(t) >= k must hold"""
        key = ('cut', t.get_id(), k)
        h, r = F('head%d' % k, 'S>S')(t), F('tail%d' % k, 'S>S')(t)
        D = self.dom_of(t)
        hd, tl = L.cut(D, k)
        self.atom(h, hd); self.atom(r, tl)
        self.assume(LEN(h) == k); self.assume(LEN(r) == LEN(t) - k)
        self.sub[t.get_id()] = (h, r)
        self.assume(t == self.term(SStr((h, r))))
        return h, r
    def split_end(self, t, k):
        h, r = F('init%d' % k, 'S>S')(t), F('last%d' % k, 'S>S')(t)
        hd, tl = L.cut_end(self.dom_of(t), k)
        self.atom(h, hd); self.atom(r, tl)
        self.assume(LEN(r) == k); self.assume(LEN(h) == LEN(t) - k)
        self.sub[t.get_id()] = (h, r)
        self.assume(t == self.term(SStr((h, r))))
        return h, r
    def split_sep(self, t, sep):
        """t := before + sep + rest; t must contain sep"""
        c = ord(sep)
        n = F('nsep!%d' % c, 'S>I')
        a, r = F('before!%d' % c, 'S>S')(t), F('after!%d' % c, 'S>S')(t)
        w, rest = L.prefixes_before(self.dom_of(t), sep if isinstance(sep, str) else sep.decode('latin-1'))
        self.atom(a, w); self.atom(r, rest)
        self.assume(n(r) >= 0)
        self.assume(n(t) == n(r) + 1); self.assume(n(a) == 0)
        self.assume(LEN(t) == LEN(a) + LEN(r) + 1)
        self.sub[t.get_id()] = (a, sep, r)
        self.assume(t == self.term((SStr if isinstance(sep, str) else SBytes)((a, sep, r))))
        return a, r

REEVAL = {}
_dids = {}
def did(d):
    if d not in _dids: _dids[d] = len(_dids)
    return _dids[d]

def conj(cs):
    cs = [c for c in cs if c is not True]
    if any(c is False for c in cs): return False
    if not cs: return True
    return z3.And(*cs) if len(cs) > 1 else cs[0]
def disj(cs):
    cs = [c for c in cs if c is not False]
    if any(c is True for c in cs): return True
    if not cs: return False
    return z3.Or(*cs) if len(cs) > 1 else cs[0]
def neg(c):
    if c is True: return False
    if c is False: return True
    return z3.Not(c)
def implies(a, b): return disj([neg(a), b])
def mkbool(t):
    if t is True or t is False: return t
    t = z3.simplify(t)
    if z3.is_true(t): return True
    if z3.is_false(t): return False
    return SBool(t)
def mkint(t):
    if isinstance(t, int): return int(t)
    t = z3.simplify(t)
    if z3.is_int_value(t): return t.as_long()
    return SInt(t)
def it(v):
    """number -> operand for z3 arithmetic"""
    if isinstance(v, SInt): return v.t
    if isinstance(v, SBool): return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, bool): return int(v)
    return v
def iz(v):
    v = it(v)
    return z3.IntVal(v) if isinstance(v, int) else v
def bt(v):
    """truth value -> z3 Bool"""
    if isinstance(v, SBool): return v.t
    if v is True or v is False: return z3.BoolVal(v)
    return v

class Explorer(object):
    """depth-first exploration by re-execution"""
    def __init__(self, timeout_ms=5000, deadline=None, max_paths=20000):
        self.timeout_ms = timeout_ms
        self.deadline = deadline
        self.max_paths = max_paths
        self.stats = {'checks': 0, 'time': 0.0, 'unknown': 0, 'paths': 0}
        self.lit_hook = None
        self.eq_hook = None
        self.work = []
    def out_of_time(self):
        return self.deadline is not None and time.time() > self.deadline
    def push(self, prefix): self.work.append(prefix)
    def run(self, fn):
        """fn(ctx) executed once per path"""
        self.work = [[]]
        n = 0
        while self.work:
            if self.out_of_time() or n >= self.max_paths:
                raise PathBudget('%d paths explored, %d pending' % (n, len(self.work)))
            ctx = Ctx(self, self.work.pop())
            n += 1
            self.stats['paths'] += 1
            try: fn(ctx)
            except Infeasible: pass
        return n
