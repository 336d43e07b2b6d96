#!/opt/venv/bin/python
"""Differential test of the verifier's interpreter against CPython.

    difftest.py SEED PROGRAMS

Random functions over numbers, texts, lists, dictionaries, exceptions,
closures, generators and classes are executed
(a) by the interpreter on concrete arguments: same result or exception class
    as CPython;
(b) by the interpreter on *symbolic* integers and texts, every path: for each
    test vector some path admits the vector as its arguments and gives
    CPython's result (no behaviour is lost).  Paths that admit the vector and
    give another result without a note are counted as imprecise.
Programs using constructs outside the subset are skipped and counted."""
import sys, os, random, time, ast, traceback, copy
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import env
from pyvc import verifier as V, models as MD, lang as L
from pyvc.core import *
from pyvc.interp import *
import z3

PRE = '''
import copy, itertools
class A(Exception):
    def __init__(self, x): super(A, self).__init__(str(x)); self.x = x
class B(A): pass
class P(object):
    z = 3
    def __init__(self, n, l): self.n = n; self.l = l
    def inc(self, k=1): self.n += k; return self.n
    @property
    def dbl(self): return self.n * 2
    @staticmethod
    def st(x): return [x]
    @classmethod
    def mk(cls, x): return cls(x, [])
    def __eq__(self, o): return isinstance(o, P) and self.n == o.n
    def __hash__(self): return hash(self.n)
class Q(P):
    def inc(self, k=2): return super(Q, self).inc(k) + 1
    def __len__(self): return len(self.l)
    def __iter__(self):
        for x in self.l: yield x
        yield self.n
'''

class G(object):
    """generator of programs; scope: name -> type in i s b L(list of int) S(list of str) D(str->int)"""
    def __init__(self, r): self.r, self.n = r, 0
    def fresh(self, t): self.n += 1; return '%s%d' % (t.lower() + ('x' if t.isupper() else ''), self.n)
    def var(self, sc, t):
        c = [k for k, v in sc.items() if v == t]
        return self.r.choice(c) if c else None
    def e(self, sc, t, d):
        r = self.r
        v = self.var(sc, t)
        if v and (d <= 0 or r.random() < .35): return v
        if d <= 0: return {'i': str(r.choice([0, 1, 2, 3, -1, 10])), 's': repr(r.choice(['', 'a', 'b', 'ab', '1', '-', 'a-b', 'Z', ' ', 'ä', '01', '1,2'])),
            'b': r.choice(['True', 'False']), 'L': r.choice(['[]', '[1, 2]', '[3]']), 'S': r.choice(["['a']", '[]', "['b', '1']"]), 'D': r.choice(['{}', "{'a': 1}"])}[t]
        x = lambda u: self.e(sc, u, d - 1)
        if t == 'i':
            return r.choice([
                lambda: '(%s %s %s)' % (x('i'), r.choice('+-*'), x('i')), lambda: '(%s // %s)' % (x('i'), r.choice(['2', '3', '7'])),
                lambda: '(%s %% %s)' % (x('i'), r.choice(['2', '5', '10'])), lambda: 'len(%s)' % x(r.choice('sLSD')),
                lambda: 'int(%s)' % x('s'), lambda: 'abs(%s)' % x('i'), lambda: 'max(%s, %s)' % (x('i'), x('i')), lambda: 'min(%s, %s)' % (x('i'), x('i')),
                lambda: '(%s if %s else %s)' % (x('i'), x('b'), x('i')), lambda: 'sum(%s)' % x('L'), lambda: '%s[%s]' % (x('L'), x('i')),
                lambda: '%s.get(%s, %s)' % (x('D'), x('s'), x('i')), lambda: '%s[%s]' % (x('D'), x('s')), lambda: '%s.index(%s)' % (x('L'), x('i')),
                lambda: '-%s' % x('i'),
                lambda: '(%s and %s)' % (x('i'), x('i')), lambda: '(%s or %s)' % (x('i'), x('i')), lambda: '%s.pop()' % x('L'), 
                lambda: 'int(%s, 16)' % x('s'), lambda: '(%s ** 2)' % x('i'), lambda: 'P(%s, [])%s' % (x('i'), r.choice(['.n', '.dbl', '.z', '.inc()', '.inc(5)'])),
                lambda: 'len(list(Q(%s, %s)))' % (x('i'), x('L')), lambda: 'Q.mk(%s).inc()' % x('i'), lambda: '(lambda q: q + %s)(%s)' % (x('i'), x('i')),
                lambda: 'next(iter(%s))' % x('L'), lambda: 'next(iter(%s), %s)' % (x('L'), x('i')),
                ])()
        if t == 's':
            return r.choice([
                lambda: '(%s + %s)' % (x('s'), x('s')), lambda: 'str(%s)' % x('i'), lambda: '%s[%s:]' % (x('s'), r.choice(['1', '2', '-1', '0'])),
                lambda: '%s[:%s]' % (x('s'), r.choice(['1', '3', '-1', '-2'])), lambda: '%s.replace(%r, %r)' % (x('s'), r.choice('ab-1'), r.choice(['', 'x', 'yy'])),
                lambda: '%s.strip()' % x('s'), lambda: '%s.rstrip(%r)' % (x('s'), r.choice(['a', '=', 'ab'])), lambda: '%s.lower()' % x('s'), lambda: '%s.upper()' % x('s'),
                lambda: '%r.join(%s)' % (r.choice(['', '-', ',']), x('S')), lambda: "('%%s:%%d' %% (%s, %s))" % (x('s'), x('i')), lambda: "'{} {}'.format(%s, %s)" % (x('s'), x('i')),
                lambda: '(%s if %s else %s)' % (x('s'), x('b'), x('s')), lambda: '%s[%s]' % (x('S'), x('i')), lambda: '%s.split(%r)[%s]' % (x('s'), r.choice('-,a'), r.choice(['0', '1', '-1'])),
                lambda: '%s[0]' % x('s'), lambda: '%s[-1]' % x('s'), lambda: '%s[1:-1]' % x('s'), lambda: '(%s or %s)' % (x('s'), x('s')), lambda: '%s.lstrip(%r)' % (x('s'), r.choice(['0', '-'])),
                lambda: "'%%x' %% abs(%s)" % x('i'), lambda: '%s.pop(0)' % x('S'), lambda: '%s.partition(%r)[%s]' % (x('s'), r.choice('-a'), r.choice('012')), 
                lambda: '(%s * 2)' % x('s'),
                ])()
        if t == 'b':
            u = r.choice('is')
            return r.choice([
                lambda: '(%s %s %s)' % (x('i'), r.choice(['==', '!=', '<', '<=', '>', '>=']), x('i')), lambda: '(%s %s %s)' % (x('s'), r.choice(['==', '!=']), x('s')),
                lambda: '(%s in %s)' % (x('s'), x(r.choice('SDs'))), lambda: '(%s not in %s)' % (x('i'), x('L')), lambda: '%s.startswith(%s)' % (x('s'), x('s')), lambda: '%s.endswith(%r)' % (x('s'), r.choice(['a', '-', '1', ''])),
                lambda: '(not %s)' % x(r.choice('bisL')), lambda: '(%s and %s)' % (x('b'), x('b')), lambda: '(%s or %s)' % (x('b'), x('b')), lambda: 'bool(%s)' % x(r.choice('isLSD')),
                lambda: 'any(%s > 1 for %s in %s)' % ('q', 'q', x('L')), lambda: 'all(q for q in %s)' % x('S'), lambda: '(%s == %s)' % (x('L'), x('L')), lambda: '%s.isdigit()' % x('s'),
                lambda: '(%s < %s < %s)' % (x('i'), x('i'), x('i')), lambda: 'isinstance(%s, %s)' % (x(r.choice('isL')), r.choice(['int', 'str', 'list', '(int, str)'])),
                lambda: '(P(%s, []) == P(%s, []))' % (x('i'), x('i')), lambda: '(%s is None)' % r.choice([x('i'), 'None']), lambda: '(%s == %s)' % (x('i'), x('s')), lambda: '(%s < %s)' % (x('s'), repr(r.choice(['b', 'a', '']))),
                ])()
        if t == 'L':
            return r.choice([
                lambda: '[%s, %s]' % (x('i'), x('i')), lambda: '(%s + %s)' % (x('L'), x('L')), lambda: '[q * 2 for q in %s if q %s %s]' % (x('L'), r.choice(['>', '==', '!=']), x('i')),
                lambda: 'list(range(%s))' % r.choice(['3', '1, 4', '5, 0, -2']), lambda: 'sorted(%s)' % x('L'), lambda: '%s[1:]' % x('L'), lambda: '%s[:%s]' % (x('L'), r.choice(['1', '-1', '2'])), lambda: 'list(reversed(%s))' % x('L'),
                lambda: '[len(q) for q in %s]' % x('S'), lambda: 'list(map(lambda q: q - 1, %s))' % x('L'), lambda: 'list(filter(None, %s))' % x('L'), lambda: 'list(%s.values())' % x('D'), lambda: '[u * v for u, v in zip(%s, %s)]' % (x('L'), x('L')),
                lambda: '[u + v for u, v in enumerate(%s)]' % x('L'), lambda: 'copy.copy(%s)' % x('L'), lambda: 'list(Q(%s, %s))' % (x('i'), x('L')), lambda: '[q for w in (%s, %s) for q in w]' % (x('L'), x('L')), lambda: '(%s * 2)' % x('L'),
                lambda: 'sorted(%s, key=lambda q: -q)' % x('L'), lambda: 'P.st(%s)' % x('i'),
                ])()
        if t == 'S':
            return r.choice([
                lambda: '[%s, %s]' % (x('s'), x('s')), lambda: '%s.split(%r)' % (x('s'), r.choice('-,a')), lambda: 'list(%s.keys())' % x('D'), lambda: 'sorted(%s)' % x('D'), lambda: '[str(q) for q in %s]' % x('L'),
                lambda: '(%s + %s)' % (x('S'), x('S')), lambda: 'sorted(%s)' % x('S'), lambda: '[q for q in %s if q]' % x('S'), lambda: '%s[1:]' % x('S'), lambda: 'sorted({q for q in %s})' % x('S'), lambda: '%s.split(%r, 1)' % (x('s'), r.choice('-,')),
                lambda: 'sorted(set(%s) | {%s})' % (x('S'), x('s')),
                ])()
        return r.choice([
            lambda: '{%s: %s}' % (x('s'), x('i')), lambda: '{q: len(q) for q in %s}' % x('S'), lambda: 'dict(%s)' % x('D'), lambda: 'dict(zip(%s, %s))' % (x('S'), x('L')), lambda: 'copy.deepcopy(%s)' % x('D'), lambda: '{%s: %s, %s: %s}' % (x('s'), x('i'), x('s'), x('i')),
            ])()
    def block(self, sc, d, ind, loop=False):
        out = []
        sc = dict(sc)
        for _ in range(self.r.randrange(1, 4)): out += self.st(sc, d, ind, loop)
        return out
    def st(self, sc, d, ind, loop=False):
        r = self.r; p = '    ' * ind
        x = lambda u: self.e(sc, u, r.choice([1, 2, 2, 3]))
        def assign():
            t = r.choice('iisssbLLSSD')
            if r.random() < .5 and self.var(sc, t): n = self.var(sc, t)
            else: n = self.fresh(t)
            o = [p + '%s = %s' % (n, x(t))]; sc[n] = t; return o
        def aug():
            n = self.var(sc, 'i')
            if r.random() < .3 and self.var(sc, 's'): return [p + '%s += %s' % (self.var(sc, 's'), x('s'))]
            if r.random() < .3 and self.var(sc, 'L'): return [p + '%s += %s' % (self.var(sc, 'L'), x('L'))]
            return [p + '%s %s= %s' % (n, r.choice('+-*'), x('i'))] if n else assign()
        def mut():
            n = self.var(sc, 'L'); m = self.var(sc, 'D'); k = self.var(sc, 'S')
            c = []
            if n: c += ['%s.append(%s)' % (n, x('i')), '%s.extend(%s)' % (n, x('L')), '%s.insert(%s, %s)' % (n, r.choice('012'), x('i')), '%s[%s] = %s' % (n, x('i'), x('i')), 'del %s[%s]' % (n, r.choice(['0', '-1', '1'])), '%s.reverse()' % n, '%s.pop(%s)' % (n, r.choice(['0', '-1', '1']))]
            if m: c += ['%s[%s] = %s' % (m, x('s'), x('i')), 'del %s[%s]' % (m, x('s')), '%s.update(%s)' % (m, x('D')), '%s.pop(%s, None)' % (m, x('s')), '%s.setdefault(%s, %s)' % (m, x('s'), x('i'))]
            if k: c += ['%s.append(%s)' % (k, x('s'))]
            return [p + r.choice(c)] if c else assign()
        if d <= 0: return r.choice([assign, aug, mut])()
        def if_():
            o = [p + 'if %s:' % x('b')] + self.block(sc, d - 1, ind + 1, loop)
            if r.random() < .4: o += [p + 'elif %s:' % x('b')] + self.block(sc, d - 1, ind + 1, loop)
            if r.random() < .5: o += [p + 'else:'] + self.block(sc, d - 1, ind + 1, loop)
            return o
        def for_():
            t = r.choice('LS'); n = self.fresh('i' if t == 'L' else 's'); s2 = dict(sc); s2[n] = 'i' if t == 'L' else 's'
            it = x(t); it = r.choice(['%s', '%s[:3]', 'list(%s)[:2]']) % it
            o = [p + 'for %s in list(%s)[:4]:' % (n, it)] + self.block(s2, d - 1, ind + 1, True)
            if r.random() < .25: o += [p + 'else:'] + self.block(sc, d - 1, ind + 1, loop)
            return o
        def while_():
            n = self.fresh('i'); s2 = dict(sc)
            return [p + '%s = 0' % n, p + 'while %s < %d:' % (n, r.choice([1, 2, 3])), p + '    %s += 1' % n] + self.block(s2, d - 1, ind + 1, True)
        def try_():
            o = [p + 'try:'] + self.block(sc, d - 1, ind + 1, loop)
            k = r.randrange(5)
            if k != 4:
                o += [p + 'except %s:' % r.choice(['ValueError', '(IndexError, KeyError)', 'A as e', 'B', 'Exception as e', 'KeyError'])] + self.block(sc, d - 1, ind + 1, loop)
                if r.random() < .3: o += [p + 'except Exception:'] + self.block(sc, d - 1, ind + 1, loop)
                if r.random() < .3: o += [p + 'else:'] + self.block(sc, d - 1, ind + 1, loop)
            if k >= 3: o += [p + 'finally:'] + self.block(sc, d - 1, ind + 1, False)
            return o
        def raise_(): return [p + 'raise %s' % r.choice(['A(%s)' % x('i'), 'B(%s)' % x('s'), 'ValueError(%s)' % x('s'), 'KeyError(1)'])]
        def ret(): return [p + 'return %s' % x(r.choice('isbLSD'))]
        def brk(): return [p + 'if %s: %s' % (x('b'), r.choice(['break', 'continue']))] if loop else assign()
        def fn():
            self.n += 1; f = 'g%d' % self.n; s2 = {k: v for k, v in sc.items() if v in 'isLSD' and r.random() < .6}; a = self.fresh('i'); s3 = dict(s2); s3[a] = 'i'
            body = []
            for k in list(s2): pass
            q = self.fresh('i')
            gen = r.random() < .5
            o = [p + 'def %s(%s, k=%s):' % (f, a, r.choice(['1', '0'])), p + '    %s = %s + k' % (q, a)]
            s3 = {a: 'i', q: 'i'}; s3.update({k: v for k, v in s2.items()})
            ro = dict(s3)
            G2 = [l for l in []]
            if gen:
                o += [p + '    yield %s' % self.e(ro, 'i', 2), p + '    if %s: return' % self.e(ro, 'b', 2), p + '    yield %s' % self.e(ro, 'i', 2)]
                n = self.fresh('L'); sc[n] = 'L'
                return o + [p + '%s = list(%s(%s))' % (n, f, x('i'))]
            o += [p + '    if %s: raise A(%s)' % (self.e(ro, 'b', 2), q), p + '    return %s' % self.e(ro, 'i', 2)]
            n = self.fresh('i'); sc[n] = 'i'
            return o + [p + '%s = %s(%s)' % (n, f, x('i'))]
        def obj():
            n = self.fresh('o'); m = self.fresh('i'); l = self.var(sc, 'L') or '[1]'
            sc[m] = 'i'
            return [p + '%s = %s(%s, %s)' % (n, r.choice('PQ'), x('i'), l), p + '%s.inc()' % n, p + '%s.l.append(%s)' % (n, x('i')), p + '%s = %s.%s' % (m, n, r.choice(['n', 'dbl', 'inc(3)']))]
        return r.choice([assign, assign, assign, aug, mut, mut, if_, if_, for_, while_, try_, try_, raise_, ret, brk, fn, obj])()
    def le(self, sc, t, d):
        """expressions over lists of unknown length"""
        r = self.r
        v = self.var(sc, t)
        if v and (d <= 0 or r.random() < .4): return v
        if d <= 0: return {'i': r.choice(['0', '1', '2', '-1']), 'b': 'True', 'L': '[1]'}[t]
        x = lambda u: self.le(sc, u, d - 1)
        if t == 'i': return r.choice([lambda: 'len(%s)' % x('L'), lambda: '%s[%s]' % (x('L'), r.choice(['0', '1', '-1', '-2', x('i')])), lambda: '(%s + %s)' % (x('i'), x('i')), lambda: 'next(iter(%s), %s)' % (x('L'), x('i')),
            lambda: 'sum(q for q in %s)' % x('L'), lambda: '%s.pop()' % x('L'), lambda: 'max(%s, %s)' % (x('i'), x('i')), lambda: '(%s if %s else %s)' % (x('i'), x('b'), x('i'))])()
        if t == 'b': return r.choice([lambda: '(%s %s %s)' % (x('i'), r.choice(['==', '<', '>=', '!=']), x('i')), lambda: '(not %s)' % x('L'), lambda: 'bool(%s)' % x('L'), lambda: '(%s in %s)' % (x('i'), x('L')), lambda: '(%s is %s)' % (x('L'), x('L')),
            lambda: 'any(q > %s for q in %s)' % (x('i'), x('L')), lambda: 'all(q != %s for q in %s)' % (x('i'), x('L')), lambda: '(%s == %s)' % (x('L'), x('L')), lambda: '(%s and %s)' % (x('b'), x('b')), lambda: 'isinstance(%s, list)' % x('L')])()
        return r.choice([lambda: '%s[1:]' % x('L'), lambda: '%s[:%s]' % (x('L'), r.choice(['1', '2', '-1', x('i')])), lambda: '%s[%s:%s]' % (x('L'), x('i'), x('i')), lambda: 'list(%s)' % x('L'), lambda: '[q + %s for q in %s]' % (x('i'), x('L')), lambda: '[q for q in %s if q > %s]' % (x('L'), x('i')),
            lambda: '(%s + %s)' % (x('L'), x('L')), lambda: 'list(reversed(%s))' % x('L'), lambda: '[p + q for p, q in zip(%s, %s)]' % (x('L'), x('L')), lambda: '[p * q for p, q in enumerate(%s)]' % x('L'), lambda: 'copy.copy(%s)' % x('L'), lambda: 'list(map(lambda q: -q, %s))' % x('L'),
            lambda: '[%s]' % x('i'), lambda: '%s[::-1]' % x('L'), lambda: 'list(itertools.chain(%s, %s))' % (x('L'), x('L'))])()
    def lst(self, sc, d, ind, loop=False):
        r = self.r; p = '    ' * ind
        x = lambda u: self.le(sc, u, r.choice([0, 1, 1, 2]))
        def assign():
            t = r.choice('iLLb'); n = self.var(sc, t) if r.random() < .3 and self.var(sc, t) else self.fresh(t)
            o = [p + '%s = %s' % (n, x(t))]; sc[n] = t; return o
        def mut():
            n = self.var(sc, 'L')
            return [p + r.choice(['%s.append(%s)' % (n, x('i')), '%s.append(%s)' % (n, x('i')), '%s.extend(%s)' % (n, x('L')), '%s[%s] = %s' % (n, r.choice(['0', '-1', '1', x('i')]), x('i')), 'del %s[%s]' % (n, r.choice(['0', '-1'])), '%s.pop()' % n, '%s += %s' % (n, x('L')), '%s.insert(0, %s)' % (n, x('i'))])]
        if d <= 0: return r.choice([assign, mut])()
        def sub(extra=(), loop=loop):
            s2 = dict(sc); s2.update(extra); o = []
            for _ in range(r.randrange(1, 3)): o += self.lst(s2, d - 1, ind + 1, loop)
            return o
        def if_(): return [p + 'if %s:' % x('b')] + sub() + ([p + 'else:'] + sub() if r.random() < .5 else [])
        def for_():
            n = self.fresh('i')
            return [p + 'for %s in %s:' % (n, r.choice(['list(%s)', '%s[:]', 'tuple(%s)']) % x('L'))] + sub({n: 'i'}, True) + ([p + 'else:'] + sub() if r.random() < .2 else [])
        def while_():
            n = self.fresh('i'); m = self.var(sc, 'L')
            return [p + '%s = 0' % n, p + 'while %s < len(%s) and %s < 3:' % (n, m, n), p + '    %s += 1' % n] + sub({}, True)
        def try_(): return [p + 'try:'] + sub() + [p + 'except IndexError:'] + sub() + ([p + 'finally:'] + sub((), False) if r.random() < .2 else [])
        def brk(): return [p + 'if %s: %s' % (x('b'), r.choice(['break', 'continue']))] if loop else assign()
        def gen():
            self.n += 1; f = 'g%d' % self.n; n = self.fresh('L'); sc[n] = 'L'
            return [p + 'def %s(v):' % f, p + '    for q in v:', p + '        if q > %s: yield q' % x('i'), p + '        else: %s' % r.choice(['return', 'continue', 'yield -q', 'break']), p + '%s = list(%s(%s))' % (n, f, x('L'))]
        return r.choice([assign, assign, mut, mut, mut, if_, for_, for_, while_, try_, brk, gen])()
    def program(self, lists=False):
        self.n = 0
        sc = {'a': 'i', 'b': 'i', 's': 's', 't': 's'}
        if lists:
            self.n = 0; sc = {'a': 'i', 'b': 'i', 'l': 'L', 'm': 'L'}
            body = []
            for _ in range(self.r.randrange(1, 4)): body += self.lst(sc, self.r.choice([0, 1, 2]), 1)
            return 'def f(a, b, l, m):\n' + '\n'.join(body) + '\n    return (%s,)\n' % ', '.join(sc)
        body = []
        for _ in range(self.r.randrange(2, 6)): body += self.st(sc, 2, 1)
        vs = [k for k, v in sc.items()]
        return 'def f(a, b, s, t):\n' + '\n'.join(body) + '\n    return (%s,)\n' % ', '.join(vs)

def canon(I, v, depth=0):
    if isinstance(v, MD.Seq):
        k = v.n if isinstance(v.n, int) else canon(I, v.n)
        return ['L'] + [canon(I, v.at(I, i)) for i in range(k)]
    if isinstance(v, (list,)): return ['L'] + [canon(I, x) for x in v]
    if isinstance(v, tuple): return ['T'] + [canon(I, x) for x in v]
    if isinstance(v, PDict): return ['D'] + [[canon(I, k), canon(I, x)] for k, x in v.items()]
    if isinstance(v, PSet): return ['S'] + sorted(map(repr, (canon(I, x) for x in v.items)))
    if isinstance(v, Obj): return ['O', v.cls.name]
    if isinstance(v, SRope):
        c = I.ctx.conc(v)
        if c is None: raise Unsupported('not concrete: %r' % (v,))
        return c
    if isinstance(v, (SInt, SBool)):
        t = z3.simplify(v.t)
        if z3.is_int_value(t): return t.as_long()
        if z3.is_true(t) or z3.is_false(t): return z3.is_true(t)
        if I.ctx.check() != z3.sat: raise Unsupported('model')
        x = I.ctx.solver.model().eval(v.t, model_completion=True)
        if I.ctx.check(v.t != x) != z3.unsat: raise Unsupported('value not determined')
        return x.as_long() if z3.is_int_value(x) else z3.is_true(x)
    if v is None or isinstance(v, (int, str, bytes, bool, float)): return v
    raise Unsupported('value %r' % (type(v),))
def pc(v):
    if isinstance(v, list): return ['L'] + [pc(x) for x in v]
    if isinstance(v, tuple): return ['T'] + [pc(x) for x in v]
    if isinstance(v, dict): return ['D'] + [[pc(k), pc(x)] for k, x in v.items()]
    if isinstance(v, set): return ['S'] + sorted(map(repr, map(pc, v)))
    if v is None or isinstance(v, (int, str, bytes, bool, float)): return v
    return ['O', type(v).__name__]

def main():
    import signal
    seed, N = int(sys.argv[1]), int(sys.argv[2]); only = sys.argv[3:] 
    rng = random.Random(seed)
    I = V.load(env.REPO, ['utils'], specs=False)
    tmp = '/tmp/difftest%d.py' % os.getpid()
    st = dict(concrete=0, symbolic=0, vectors=0, unsupported=0, budget=0, noted=0, imprecise=0, crash=0, bad=0)
    why = {}
    def tick(e):
        k = str(e)[:40]; why[k] = why.get(k, 0) + 1
    g = G(rng)
    class TO(Exception): pass
    def alarm(*a): raise TO()
    signal.signal(signal.SIGALRM, alarm)
    for n in range(N):
        lists = n % 2
        src = PRE + g.program(lists)
        try: ns = {}; exec(compile(src, 'p', 'exec'), ns)
        except SyntaxError as e: print(e, src); continue
        vecs = [(rng.choice([0, 1, -1, 2, 5, 16, -7]), rng.choice([0, 1, 2, 3, -2, 100]), rng.choice(['', 'a', 'a-b', '12', '1,2', 'xay', '-', 'Z z']), rng.choice(['', 'a', 'b', '-1', 'ab', '00'])) for _ in range(4)]
        if lists: vecs = [v[:2] + ([rng.choice([0, 1, 2, -1, 5]) for _ in range(rng.choice([0, 1, 1, 2, 3]))], [rng.choice([0, 1, 3]) for _ in range(rng.choice([0, 1, 2]))]) for v in vecs]
        exp = []
        for v in vecs:
            signal.alarm(5)
            try: exp.append(('ok', pc(ns['f'](*copy.deepcopy(v)))))
            except TO: exp.append(None)
            except RecursionError: exp.append(None)
            except Exception as e: exp.append(('exc', type(e).__name__))
            finally: signal.alarm(0)
        with open(tmp, 'w') as h: h.write(src)
        def fun(ctx):
            I.begin(ctx)
            return I.load_source('p', tmp)
        def call(args):
            try: r = ('ok', I.call(I.modules['p'].ns['f'], args, {}))
            except PyRaise as e: r = ('exc', e.exc.cls.name)
            return r
        def report(kind, v, w, got):
            st['bad'] += 1
            if st['bad'] <= 6: print('MISMATCH %s seed %d program %d\n%s\nargs %r\nCPython %s\npyvc    %s\n' % (kind, seed, n, src[len(PRE):], v, str(w)[:300], str(got)[:300]))
        for v, w in zip(vecs, exp):
            if w is None: continue
            ex = Explorer(); ex.lit_hook = MD.lit_hook; ex.eq_hook = MD.eq_hook
            ctx = Ctx(ex, [])
            signal.alarm(10)
            try:
                fun(ctx)
                r = call(list(copy.deepcopy(v)))
                if r[0] == 'ok': r = ('ok', canon(I, r[1]))
                st['concrete'] += 1
                if r != w: report('concrete', v, w, r)
            except Unsupported as e: st['unsupported'] += 1; tick(e)
            except TO: st['budget'] += 1
            except Exception as e:
                if type(e).__name__ in ('PathEnd', 'Drop'): st['unsupported'] += 1; continue
                st['crash'] += 1; tick('crash ' + str(e))
            finally: signal.alarm(0)
        # symbolic: one exploration per vector
        for v, w in list(zip(vecs, exp))[:2]:
            if w is None: continue
            ex = Explorer(timeout_ms=1000, max_paths=400); ex.lit_hook = MD.lit_hook; ex.eq_hook = MD.eq_hook
            ex.deadline = time.time() + 6
            res = []
            def path(ctx):
                fun(ctx)
                A = [SInt(ctx.fresh('a', 'I')), SInt(ctx.fresh('b', 'I')), SStr([ctx.atom(ctx.fresh('s', 'S'))]), SStr([ctx.atom(ctx.fresh('t', 'S'))])]
                if lists:
                    ctx.data['unroll_seq'] = 6; ctx.data['longlists'] = True
                    def mk(name, c):
                        k = ctx.fresh(name, 'I'); ctx.assume(z3.And(k >= 0, k <= 3))
                        fn = F('el!' + name, 'I>I')
                        at = lambda I, i: SInt(fn(z3.simplify(iz(i))))
                        return (c(SInt(k), at), k, fn)
                    from pyvc.seq import Seq, MSeq
                    L1, L2 = mk('l', Seq if n % 4 == 1 else MSeq), mk('m', MSeq)
                    r = call(A[:2] + [L1[0], L2[0]])
                    for (q, k, fn), y in ((L1, v[2]), (L2, v[3])):
                        if not I.test(mkbool(z3.And([k == len(y)] + [fn(z3.IntVal(i)) == e for i, e in enumerate(y)]))): return
                    A = A[:2]
                else: r = call(list(A))
                for x, y in zip(A, v):
                    e = I.models.equal(I, x, y)
                    if not I.test(e if isinstance(e, (bool, SBool)) else mkbool(e)): return
                if r[0] == 'ok':
                    r = ('ok', canon(I, r[1]))
                res.append((r, bool(ctx.notes)))
            signal.alarm(20)
            try:
                ex.run(path)
                st['symbolic'] += 1; st['vectors'] += 1
                if not res: report('symbolic, no path', v, w, None)
                if any(nt for _, nt in res): st['noted'] += 1
                if any(r != w and not nt for r, nt in res): st['imprecise'] += 1
                if res and not any(r == w for r, nt in res): report('symbolic, result missing', v, w, res)
            except Unsupported as e: st['unsupported'] += 1; tick(e)
            except (PathBudget, TO): st['budget'] += 1
            except Exception as e:
                if type(e).__name__ in ('PathEnd', 'Drop'): st['unsupported'] += 1; continue
                st['crash'] += 1; tick('crash ' + str(e))
            finally: signal.alarm(0)
    try: os.unlink(tmp)
    except OSError: pass
    print(st)
    print(sorted(why.items(), key=lambda kv: -kv[1])[:12])
    return 1 if st['bad'] else 0
if __name__ == '__main__': sys.exit(main())
