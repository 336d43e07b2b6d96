"""Regular languages over Unicode code points as minimal DFAs.  They are the
verifier's exact knowledge about the shape of a text: a regular-expression
match, a character test, a prefix or suffix test are all membership questions
decided here, independent of how the expression is spelled."""
import functools
try:
    from re import _parser as sp, _constants as sc
except ImportError:
    import sre_parse as sp, sre_constants as sc
import re
MAX = 0x110000

def mk_iv(pts):
    """set of code points -> sorted disjoint half-open intervals"""
    out = []
    for p in sorted(pts):
        if out and out[-1][1] == p: out[-1][1] = p + 1
        else: out.append([p, p + 1])
    return tuple(map(tuple, out))
def iv_norm(iv):
    out = []
    for a, b in sorted(iv):
        if a >= b: continue
        if out and a <= out[-1][1]: out[-1][1] = max(out[-1][1], b)
        else: out.append([a, b])
    return tuple(map(tuple, out))
def iv_inv(iv):
    out, p = [], 0
    for a, b in iv_norm(iv):
        if p < a: out.append((p, a))
        p = b
    if p < MAX: out.append((p, MAX))
    return tuple(out)
def iv_and(x, y):
    return iv_norm([(max(a, c), min(b, d)) for a, b in x for c, d in y if max(a, c) < min(b, d)])
def iv_or(x, y): return iv_norm(tuple(x) + tuple(y))
def iv_has(iv, c): return any(a <= c < b for a, b in iv)
ALLC = ((0, MAX),)

# Code points from 256 on are renumbered so that characters with the same
# properties are adjacent: character classes become few intervals.
_PREDS = ('isdecimal', 'isdigit', 'isnumeric', 'isalnum', 'isalpha', 'isspace', 'isprintable')
_FIX = ('upper', 'lower', 'casefold')
def _perm():
    import unicodedata
    groups = {}
    cat, dec = unicodedata.category, unicodedata.decimal
    for c in range(256, MAX):
        ch = chr(c)
        k = cat(ch)
        if k in ('Cn', 'Co', 'Cs'): sig = (0 if k != 'Cs' else 1,)
        else:
            sig = (2, dec(ch, -1)) + tuple(getattr(ch, p)() for p in _PREDS) + tuple(getattr(ch, p)() == ch for p in _FIX)
        groups.setdefault(sig, []).append(c)
    fwd, inv = list(range(256)) + [0] * (MAX - 256), list(range(256))
    cls = {}
    for sig in sorted(groups):
        a = len(inv)
        for c in groups[sig]: fwd[c] = len(inv); inv.append(c)
        cls[a] = len(inv)
    return fwd, inv, cls
FWD, INV, CLASSES = _perm()
def code(ch): return FWD[ord(ch)]
def char(c): return chr(INV[c])
@functools.lru_cache(None)
def pred_set(f):
    """characters satisfying f; f must be a function of the properties above"""
    return iv_norm(mk_iv([c for c in range(256) if f(chr(c))]) + tuple((a, b) for a, b in CLASSES.items() if f(char(a))))
@functools.lru_cache(None)
def pred_iv(name):
    f = getattr(str, name)
    if name in _PREDS: return pred_set(f)
    return mk_iv([FWD[c] for c in range(MAX) if f(chr(c))])
@functools.lru_cache(None)
def fix_iv(name):
    """characters a case conversion leaves alone"""
    return pred_set(lambda ch: getattr(ch, name)() == ch)
def range_iv(lo, hi):
    """characters with code points lo..hi (inclusive)"""
    if hi < 256: return ((lo, hi + 1),)
    return mk_iv(FWD[lo:hi + 1])

class DFA(object):
    """complete; trans[q] = tuple of (lo, hi, target); start is state 0"""
    __slots__ = ('trans', 'acc', '_k', '_info')
    def __init__(self, trans, acc):
        self.trans, self.acc = trans, acc
        self._k = None; self._info = None
    def step(self, q, c):
        for lo, hi, t in self.trans[q]:
            if lo <= c < hi: return t
    def run(self, s, q=0):
        for c in codes(s): q = self.step(q, c)
        return q
    def __contains__(self, s): return self.run(s) in self.acc
    def key(self):
        if self._k is None: self._k = (self.trans, self.acc)
        return self._k
    def info(self):
        """(live states, min length or None, max length or None, charset)"""
        if self._info is None:
            n = len(self.trans)
            live = set(self.acc); ch = True
            while ch:
                ch = False
                for q in range(n):
                    if q not in live and any(t in live for _, _, t in self.trans[q]):
                        live.add(q); ch = True
            cs = []
            dist = {0: 0}; fr = [0]; mn = None
            while fr:
                nx = []
                for q in fr:
                    if q in self.acc and mn is None: mn = dist[q]
                    for a, b, t in self.trans[q]:
                        if t in live and q in live:
                            cs.append((a, b))
                            if t not in dist: dist[t] = dist[q] + 1; nx.append(t)
                fr = nx
            # longest: cyclic?
            color = {}; mx = 0
            def dfs(q):
                if color.get(q) == 1: raise OverflowError
                if isinstance(color.get(q), tuple): return color[q][0]
                color[q] = 1
                best = 0 if q in self.acc else -1
                for _, _, t in self.trans[q]:
                    if t in live:
                        d = dfs(t)
                        if d >= 0: best = max(best, d + 1)
                color[q] = (best,)
                return best
            try: mx = dfs(0) if 0 in live else None
            except OverflowError: mx = None
            self._info = (frozenset(live), mn, mx, iv_norm(cs), 0 not in live)
        return self._info
    def empty(self): return self.info()[4]
    def minlen(self): return self.info()[1]
    def maxlen(self): return self.info()[2]
    def charset(self): return self.info()[3]
    def single(self):
        """the only word, if there is exactly one"""
        live, mn, mx, _, e = self.info()
        if e or mx is None or mn != mx: return None
        q = 0; out = []
        for _ in range(mn):
            nx = [(a, b, t) for a, b, t in self.trans[q] if t in live]
            if len(nx) != 1 or nx[0][1] - nx[0][0] != 1: return None
            out.append(nx[0][0]); q = nx[0][2]
        return out
    def word(self, minlen=0):
        """a shortest word (printable characters preferred), as code points"""
        live = self.info()[0]
        if self.info()[4]: return None
        from collections import deque
        dq = deque([(0, ())]); seen = {(0, 0)}
        while dq:
            q, w = dq.popleft()
            if q in self.acc and len(w) >= minlen: return list(w)
            for a, b, t in self.trans[q]:
                if t in live:
                    k = (t, min(len(w) + 1, minlen))
                    if k not in seen:
                        seen.add(k)
                        c = a
                        for p in (48, 65, 97, 33):
                            if a <= p < b: c = p; break
                        dq.append((t, w + (c,)))
        return None

def codes(s):
    if isinstance(s, str): return [FWD[ord(c)] for c in s]
    return list(s)

def minimize(trans, acc, start=0):
    # reachable
    order = [start]; idx = {start: 0}
    for q in order:
        for _, _, t in trans[q]:
            if t not in idx: idx[t] = len(order); order.append(t)
    cuts = sorted({p for q in order for lo, hi, _ in trans[q] for p in (lo, hi)})
    segs = list(zip(cuts[:-1], cuts[1:]))
    table = []
    for q in order:
        row = []; it = iter(sorted(trans[q])); cur = next(it)
        for lo, hi in segs:
            while cur[1] <= lo: cur = next(it)
            row.append(idx[cur[2]])
        table.append(row)
    n = len(order)
    cls = [1 if order[i] in acc else 0 for i in range(n)]
    k = len(set(cls))
    while True:
        sig = {}; new = []
        for i in range(n):
            s = (cls[i],) + tuple(cls[t] for t in table[i])
            new.append(sig.setdefault(s, len(sig)))
        cls = new
        if len(sig) == k: break
        k = len(sig)
    # canonical numbering by BFS
    rep = {}
    for i in range(n): rep.setdefault(cls[i], i)
    num = {cls[0]: 0}; o = [cls[0]]
    for c in o:
        for t in table[rep[c]]:
            if cls[t] not in num: num[cls[t]] = len(o); o.append(cls[t])
    tr = []
    for c in o:
        row = []
        for (lo, hi), t in zip(segs, table[rep[c]]):
            t = num[cls[t]]
            if row and row[-1][2] == t and row[-1][1] == lo: row[-1] = (row[-1][0], hi, t)
            else: row.append((lo, hi, t))
        tr.append(tuple(row))
    return intern(DFA(tuple(tr), frozenset(num[c] for c in o if order[rep[c]] in acc)))

_intern = {}
def intern(d):
    return _intern.setdefault(d.key(), d)

class NFA(object):
    def __init__(self): self.eps = []; self.tr = []
    def new(self):
        self.eps.append([]); self.tr.append([])
        return len(self.eps) - 1
    def det(self, starts, accs):
        def clos(s):
            st = list(s); out = set(s)
            while st:
                for t in self.eps[st.pop()]:
                    if t not in out: out.add(t); st.append(t)
            return frozenset(out)
        s0 = clos(frozenset(starts)); idx = {s0: 0}; order = [s0]; trans = []
        accs = set(accs)
        for S in order:
            if len(order) > 3000: raise OverflowError('automaton too large')
            cuts = {0, MAX}
            edges = [(a, b, t) for q in S for iv, t in self.tr[q] for a, b in iv]
            for a, b, _ in edges: cuts.add(a); cuts.add(b)
            cuts = sorted(cuts); row = []
            for lo, hi in zip(cuts[:-1], cuts[1:]):
                T = clos(frozenset(t for a, b, t in edges if a <= lo and hi <= b))
                if T not in idx: idx[T] = len(order); order.append(T)
                row.append((lo, hi, idx[T]))
            trans.append(row)
        return minimize(trans, {idx[S] for S in order if S & accs})

def product(a, b, f):
    if a is b and f in (AND, OR): return a
    k = (a.key(), b.key(), f)
    r = _prod.get(k)
    if r is None:
        idx = {(0, 0): 0}; order = [(0, 0)]; trans = []
        for p, q in order:
            if len(order) > 20000: raise OverflowError('automaton too large')
            row = []
            i = j = 0
            A, B = a.trans[p], b.trans[q]
            pos = 0
            while pos < MAX:
                while A[i][1] <= pos: i += 1
                while B[j][1] <= pos: j += 1
                hi = min(A[i][1], B[j][1])
                t = (A[i][2], B[j][2])
                if t not in idx: idx[t] = len(order); order.append(t)
                row.append((pos, hi, idx[t])); pos = hi
            trans.append(row)
        r = _prod[k] = minimize(trans, {idx[s] for s in order if f(s[0] in a.acc, s[1] in b.acc)})
    return r
_prod = {}
def AND(x, y): return x and y
def OR(x, y): return x or y
def SUB(x, y): return x and not y
def inter(a, b): return product(a, b, AND)
def union(a, b): return product(a, b, OR)
def minus(a, b): return product(a, b, SUB)
def compl(a): return minus(ALL, a)
def subset(a, b): return minus(a, b).empty()
def disjoint(a, b): return inter(a, b).empty()

def restart(d, q): return minimize(d.trans, d.acc, q)
def reaccept(d, acc): return minimize(d.trans, set(acc))
@functools.lru_cache(None)
def arrive(d, q):
    """words leading from the start to state q"""
    return reaccept(d, [q])
@functools.lru_cache(None)
def depart(d, q): return restart(d, q)
@functools.lru_cache(None)
def left_quotient(d, s): return restart(d, d.run(s))
@functools.lru_cache(None)
def right_quotient(d, s):
    return reaccept(d, [q for q in range(len(d.trans)) if d.run(s, q) in d.acc])

def chars(iv, lo=0, hi=None):
    """words over a character set with length in [lo, hi]"""
    n = NFA(); s = [n.new()]
    for _ in range(hi if hi is not None else lo):
        t = n.new(); n.tr[s[-1]].append((iv, t)); s.append(t)
    if hi is None:
        n.tr[s[-1]].append((iv, s[-1]))
        return n.det([s[0]], [s[-1]])
    return n.det([s[0]], s[lo:])
ALL = intern(DFA((((0, MAX, 0),),), frozenset([0])))
NONE = intern(DFA((((0, MAX, 0),),), frozenset()))
@functools.lru_cache(None)
def literal(s):
    n = NFA(); q = n.new(); q0 = q
    for c in codes(s):
        t = n.new(); n.tr[q].append((((c, c + 1),), t)); q = t
    return n.det([q0], [q])
@functools.lru_cache(None)
def star_of(iv): return chars(iv)
@functools.lru_cache(None)
def cat(a, b):
    """concatenation of two languages"""
    n = NFA()
    for d in (a, b):
        o = len(n.eps)
        for q in range(len(d.trans)): n.new()
        for q, row in enumerate(d.trans):
            for x, y, t in row: n.tr[o + q].append((((x, y),), o + t))
    k = len(a.trans)
    for q in a.acc: n.eps[q].append(k)
    return n.det([0], [k + q for q in b.acc])
@functools.lru_cache(None)
def without(chs): return chars(iv_inv(mk_iv(codes(chs))))
@functools.lru_cache(None)
def containing(s): return from_regex('(?s:.*)' + re.escape(s) + '(?s:.*)')
@functools.lru_cache(None)
def starting(s): return from_regex(re.escape(s) + '(?s:.*)')
@functools.lru_cache(None)
def ending(s): return from_regex('(?s:.*)' + re.escape(s))
def anylen(lo, hi=None): return chars(ALLC, lo, hi)
@functools.lru_cache(None)
def all_pred(name): return chars(pred_iv(name), 1)

@functools.lru_cache(None)
def prefixes_before(d, sep):
    """words w without sep such that w + sep + something is in d, and the
    language of what can follow"""
    c = code(sep) if isinstance(sep, str) else sep
    live = d.info()[0]
    # states reachable without sep
    reach = {0}; st = [0]
    while st:
        q = st.pop()
        for a, b, t in d.trans[q]:
            if t in live and not (b - a == 1 and a == c) and t not in reach:
                reach.add(t); st.append(t)
    acc = [q for q in range(len(d.trans)) if d.step(q, c) in live]
    w = inter(reaccept(d, acc), without(sep if isinstance(sep, str) else chr(sep)))
    n = NFA()
    for _ in d.trans: n.new()
    for q, row in enumerate(d.trans):
        for a, b, t in row: n.tr[q].append((((a, b),), t))
    return w, n.det([d.step(q, c) for q in reach if d.step(q, c) in live], d.acc)

@functools.lru_cache(None)
def cut(d, k):
    """languages of the first k characters and of the rest (words of length
    >= k)"""
    live = d.info()[0]
    layer = {0}
    n = NFA()
    for _ in d.trans: n.new()
    for q, row in enumerate(d.trans):
        for a, b, t in row: n.tr[q].append((((a, b),), t))
    for _ in range(k):
        layer = {t for q in layer for _, _, t in d.trans[q] if t in live}
    tail = n.det(layer, d.acc)
    head = inter(reaccept(d, live), anylen(k, k))
    return head, tail
@functools.lru_cache(None)
def cut_end(d, k):
    """languages of everything but the last k characters, and the last k"""
    n = len(d.trans)
    ok = set(d.acc)
    for _ in range(k):
        ok = {q for q in range(n) if any(t in ok for _, _, t in d.trans[q])}
    head = reaccept(d, ok)
    nf = NFA()
    for _ in d.trans: nf.new()
    for q, row in enumerate(d.trans):
        for a, b, t in row: nf.tr[q].append((((a, b),), t))
    tail = inter(nf.det(list(range(n)), d.acc), anylen(k, k))
    return head, tail

def map_chars(d, f):
    """image under a character-wise map; f(interval) -> list of
    (interval-set or None for deletion)"""
    n = NFA()
    for _ in d.trans: n.new()
    for q, row in enumerate(d.trans):
        for a, b, t in row:
            for iv in f(a, b):
                if iv is None: n.eps[q].append(t)
                else: n.tr[q].append((iv, t))
    return n.det([0], d.acc)
@functools.lru_cache(None)
def replace_image(d, a, b):
    """image under str.replace(a, b) with single-character a, len(b) <= 1"""
    c = code(a)
    def f(lo, hi):
        out = []
        rest = iv_and(((lo, hi),), iv_inv(((c, c + 1),)))
        if rest: out.append(rest)
        if lo <= c < hi: out.append(((code(b), code(b) + 1),) if b else None)
        return out
    return map_chars(d, f)
@functools.lru_cache(None)
def replace_preimage(w, a, b):
    """all words x with x.replace(a, b) == w"""
    if b == '':
        if a in w: return NONE
        e = re.escape(a)
        return from_regex(e + '*' + ''.join(re.escape(x) + e + '*' for x in w))
    if a in w and a != b: return NONE
    return from_regex(''.join('[%s%s]' % (re.escape(a), re.escape(b)) if x == b else re.escape(x) for x in w))

# ---------------------------------------------------------------- regex
class NotRegular(Exception): pass
def _cat_iv(c, flags):
    asc = flags & re.ASCII
    name = str(c)
    neg = '_NOT_' in name
    if 'DIGIT' in name: iv = ((48, 58),) if asc else pred_iv('isdecimal')
    elif 'SPACE' in name: iv = mk_iv(codes(' \t\n\r\f\v')) if asc else pred_iv('isspace')
    elif 'WORD' in name:
        iv = mk_iv([x for x in range(128) if chr(x).isalnum() or x == 95]) if asc else iv_or(pred_iv('isalnum'), ((95, 96),))
    else: raise NotRegular(name)
    return iv_inv(iv) if neg else iv
def _in_iv(items, flags):
    neg = False; iv = ()
    for op, av in items:
        if op is sc.NEGATE: neg = True
        elif op is sc.LITERAL: iv = iv_or(iv, range_iv(av, av))
        elif op is sc.RANGE: iv = iv_or(iv, range_iv(av[0], av[1]))
        elif op is sc.CATEGORY: iv = iv_or(iv, _cat_iv(av, flags))
        else: raise NotRegular(str(op))
    return iv_inv(iv) if neg else iv

@functools.lru_cache(None)
def from_regex(pattern, flags=0, mode='full'):
    """language of texts for which re.fullmatch / match / search succeeds"""
    if isinstance(pattern, bytes): pattern = pattern.decode('latin-1'); flags |= re.ASCII
    tree = sp.parse(pattern, flags)
    fl = tree.state.flags | flags
    if fl & re.IGNORECASE: raise NotRegular('ignorecase')
    if fl & re.MULTILINE: raise NotRegular('multiline')
    n = NFA()
    # markers for position assertions are handled structurally: an assertion
    # is only supported at the very beginning or the very end of a branch
    START, END = n.new(), n.new()
    final_nl = []
    def build(items, s, atstart, last):
        """returns end state; atstart: nothing consumed before (definitely)"""
        items = list(items)
        for i, (op, av) in enumerate(items):
            end = last and i == len(items) - 1
            if op is sc.LITERAL:
                t = n.new(); n.tr[s].append((range_iv(av, av), t)); s = t; atstart = False
            elif op is sc.NOT_LITERAL:
                t = n.new(); n.tr[s].append((iv_inv(range_iv(av, av)), t)); s = t; atstart = False
            elif op is sc.ANY:
                t = n.new(); n.tr[s].append((ALLC if fl & re.DOTALL else iv_inv(((10, 11),)), t)); s = t; atstart = False
            elif op is sc.IN:
                t = n.new(); n.tr[s].append((_in_iv(av, fl), t)); s = t; atstart = False
            elif op is sc.SUBPATTERN:
                if av[1] or av[2]:
                    if av[1] & ~re.DOTALL or av[2]: raise NotRegular('flags')
                    s = dotall(av[-1], s, end, atstart)
                else: s = build(av[-1], s, atstart, end)
                atstart = False
            elif op is sc.BRANCH:
                t = n.new()
                for br in av[1]:
                    e = build(br, s, atstart, end); n.eps[e].append(t)
                s = t; atstart = False
            elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT) or str(op) == 'POSSESSIVE_REPEAT' and False:
                lo, hi, sub = av
                for _ in range(lo): s = build(sub, s, False, False)
                if hi is sc.MAXREPEAT:
                    h = n.new(); n.eps[s].append(h)
                    e = build(sub, h, False, False); n.eps[e].append(h)
                    s = n.new(); n.eps[h].append(s)
                else:
                    t = n.new(); n.eps[s].append(t)
                    for _ in range(hi - lo):
                        s = build(sub, s, False, False); n.eps[s].append(t)
                    s = t
                atstart = False
            elif op is sc.AT:
                if av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
                    if not atstart: raise NotRegular('^ inside')
                    if mode == 'search': raise NotRegular('search with ^')
                elif av is sc.AT_END_STRING:
                    if not end: raise NotRegular('\\Z inside')
                    t = n.new(); n.eps[s].append(t); ends.add(t); s = n.new()
                elif av is sc.AT_END:
                    if not end: raise NotRegular('$ inside')
                    t = n.new(); u = n.new(); n.eps[s].append(t); n.tr[s].append((((10, 11),), u))
                    ends.add(t)
                    if mode != 'full': ends.add(u)
                    s = n.new()
                else: raise NotRegular(str(av))
            else: raise NotRegular(str(op))
        return s
    def dotall(sub, s, end, atstart):
        nonlocal fl
        old = fl; fl |= re.DOTALL
        try: return build(sub, s, atstart, end)
        finally: fl = old
    ends = set()
    if mode == 'search':
        n.tr[START].append((ALLC, START))
    e = build(tree, START, True, True)
    n.eps[e].append(END)
    if mode != 'full': n.tr[END].append((ALLC, END))
    return n.det([START], [END] + list(ends))

# languages used by models and specifications
SURR = range_iv(0xd800, 0xdfff)
NOSURR = chars(iv_inv(SURR))
ASCII = chars(((0, 128),))
BYTES = chars(((0, 256),))
@functools.lru_cache(None)
def b64(alpha, maxpad=3):
    """texts over the alphabet plus up to maxpad '=' that binascii decodes"""
    q = '[%s]' % alpha
    return from_regex('(%s{4})*(={0,%d}|%s%s={2,%d}|%s%s%s={1,%d})' % (q, maxpad, q, q, maxpad, q, q, q, maxpad))
STD, URL = 'A-Za-z0-9+/', 'A-Za-z0-9_-'
@functools.lru_cache(None)
def b32():
    q = '[A-Z2-7]'
    return from_regex('(%s{8})*(%s{2}={6}|%s{4}={4}|%s{5}={3}|%s{7}=)?' % ((q,) * 5))
@functools.lru_cache(None)
def residues(d, m):
    """possible word lengths modulo m"""
    live = d.info()[0]
    seen = {(0, 0)} if 0 in live else set(); st = list(seen); out = set()
    while st:
        q, r = st.pop()
        if q in d.acc: out.add(r)
        for _, _, t in d.trans[q]:
            if t in live and (t, (r + 1) % m) not in seen:
                seen.add((t, (r + 1) % m)); st.append((t, (r + 1) % m))
    return frozenset(out)

@functools.lru_cache(200000)
def lengths(d):
    """(set of word lengths below m, whether every length >= m is one, or None
    if neither all nor none are)"""
    live = d.info()[0]
    cur = frozenset([0]) if 0 in live else frozenset()
    seen, seq = {}, []
    while cur not in seen and len(seq) < 400:
        seen[cur] = len(seq); seq.append(bool(cur & d.acc) if isinstance(d.acc, (set, frozenset)) else any(q in d.acc for q in cur))
        cur = frozenset(t for q in cur for _, _, t in d.trans[q] if t in live)
    if cur not in seen: return (frozenset(), None, 0)
    mu = seen[cur]
    tail = set(seq[mu:])
    return (frozenset(i for i in range(mu) if seq[i]), tail.pop() if len(tail) == 1 else None, mu)

@functools.lru_cache(200000)
def count_range(d, ch):
    """least and greatest (None: unbounded) number of occurrences of ch in a word"""
    live = d.info()[0]
    if 0 not in live: return (0, 0)
    import heapq
    o = code(ch)
    adj = {q: [(b - a > 1 or a != o, a <= o < b, t) for a, b, t in d.trans[q] if t in live] for q in live}
    # edges: weight 0 possible if the interval holds another character
    dist = {0: 0}; h = [(0, 0)]
    mn = None
    while h:
        w, q = heapq.heappop(h)
        if w > dist[q]: continue
        if q in d.acc and mn is None: mn = w
        for other, has, t in adj[q]:
            nw = w + (0 if other else 1)
            if nw < dist.get(t, 1 << 60): dist[t] = nw; heapq.heappush(h, (nw, t))
    # greatest: longest path; unbounded if a live reachable cycle has ch
    reach = set(); st = [0]
    while st:
        q = st.pop()
        if q in reach: continue
        reach.add(q); st += [t for _, _, t in adj[q]]
    # strongly connected components (iterative Tarjan)
    idx, low, comp, stack, on = {}, {}, {}, [], set(); n = 0
    for root in reach:
        if root in idx: continue
        work = [(root, iter(adj[root]))]; idx[root] = low[root] = n; n += 1; stack.append(root); on.add(root)
        while work:
            q, itr = work[-1]
            for _, _, t in itr:
                if t not in idx:
                    idx[t] = low[t] = n; n += 1; stack.append(t); on.add(t); work.append((t, iter(adj[t]))); break
                elif t in on: low[q] = min(low[q], idx[t])
            else:
                work.pop()
                if work: low[work[-1][0]] = min(low[work[-1][0]], low[q])
                if low[q] == idx[q]:
                    while True:
                        x = stack.pop(); on.discard(x); comp[x] = q
                        if x == q: break
    for q in reach:
        for _, has, t in adj[q]:
            if has and comp[q] == comp[t]: return (mn, None)
    import sys as _s
    memo = {}
    order = sorted(reach, key=lambda q: low[q])
    def best(cq):
        st = [cq]
        while st:
            x = st[-1]
            if x in memo: st.pop(); continue
            nxt = [(1 if has else 0, comp[t]) for q in reach if comp[q] == x for _, has, t in adj[q] if comp[t] != x]
            todo = [t for _, t in nxt if t not in memo]
            if todo: st += todo; continue
            memo[x] = max([w + memo[t] for w, t in nxt] + [0])
            st.pop()
        return memo[cq]
    return (mn, best(comp[0]))
