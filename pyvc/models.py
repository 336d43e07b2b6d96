"""Models of Python's builtins and of the libraries /repo calls.  Everything
in this file is part of the trusted base; each library model is listed in
TRUSTED with the assumption it makes."""
import functools, ast, base64, binascii, builtins as pyb, datetime, enum, functools, io, itertools, math, os, re, types, collections, collections.abc, codecs
from .core import *
from .interp import *
from . import lang as L

TRUSTED = {
 'utf8': 'UTF-8 encoding is injective, fails exactly on surrogates, and keeps ASCII unchanged',
 'base64': 'base64/base32 of the standard library: decode(encode(x)) == x, encoded alphabets and lengths, decodable texts are exactly the languages in lang.b64/b32',
 'sha256': 'cryptography SHA-256 is a function of its input with 32-byte results',
 'aesctr': 'AES-CTR is an involution for fixed key and IV and keeps the length; keys of 16, 24, 32 bytes only',
 'intbytes': 'int.from_bytes inverts int.to_bytes for values in range; to_bytes raises OverflowError outside the signed range',
 'jws': 'PyJWS.decode returns the payload exactly when the ES256 signature over header.payload verifies under the key, and raises DecodeError otherwise',
 'x509': 'certificate attributes and PEM conversion are functions of the certificate; loading accepts exactly the texts CERTOK, and loading header, Base64 lines of at most 64 characters and footer of a written certificate or key gives an equal one',
 'strptime': 'datetime.strptime is a function of its text; datetimes are totally ordered',
 'intparse': 'int(text, base) is a function of its text; text of the amount language is always parsed, to its number of cents',
 'floatparse': 'float(text) of an amount is zero exactly if the cents are zero, and infinite only for extremely long texts',
 'euro': "printing with '%.2f' a float that differs from a whole number of cents by less than 0.004 gives these cents (magnitudes up to 10**11 euros; error of float sums and products bounded by the analysis in float_op)",
 're': 'regular expressions denote the languages computed in lang.py',
 'str': 'str.isdigit/isalnum/strip/lower/upper as implemented by this Python',
 'copy': 'copy.copy copies one level, copy.deepcopy everything (or calls __deepcopy__)',
 'json': 'json encoding followed by decoding reproduces the data',
}

from . import seq as seqmod
from .seq import Seq, MSeq
# ---------------------------------------------------------------- strings
def B64E(c, v, alpha):
    """standard or url-safe Base64 with padding"""
    cv = c.conc(v)
    fn = base64.b64encode if alpha == 'std' else base64.urlsafe_b64encode
    if cv is not None: return fn(cv)
    ps = c.parts(v)
    if len(ps) == 1:
        tg = c.tags.get(ps[0].get_id())
        if tg and tg[0] == 'b64d' and (tg[1], 'canon') in c.data.get('canon', {}).get(tg[2].get_id(), ()):
            src = SBytes([tg[2]])
            if tg[1] == alpha and alpha == 'std': return src
            if tg[1] == alpha == 'url': return c.cat(src, pad_of(c, tg[2]))
    x = c.term(v)
    t = F('b64%s' % alpha, 'S>S')(x)
    c.atom(t, L.inter(L.b64(L.STD if alpha == 'std' else L.URL), L.from_regex('(?s:.{4})*')), ('b64e', alpha, v))
    c.once(('b64len', t.get_id()), lambda: LEN(t) == 4 * ((iz(c.length(v)) + 2) / 3))
    return SBytes([t])
def pad_of(c, t):
    """the '=' characters that complete an unpadded text"""
    p = F('padof', 'S>S')(t)
    c.atom(p, L.from_regex('={0,3}'), ('pad', t))
    return SBytes([p])
def B64UN(c, v):
    """url-safe Base64 without padding"""
    cv = c.conc(v)
    if cv is not None: return base64.urlsafe_b64encode(cv).replace(b'=', b'')
    ps = c.parts(v)
    if len(ps) == 1:
        tg = c.tags.get(ps[0].get_id())
        if tg and tg[0] == 'b64d' and tg[1] == 'url' and ('url', 'canon') in c.data.get('canon', {}).get(tg[2].get_id(), ()):
            return SBytes([tg[2]])
    t = F('b64un', 'S>S')(c.term(v))
    q = '[%s]' % L.URL
    c.atom(t, L.from_regex('(%s{4})*(%s{2}|%s{3})?' % (q, q, q)), ('b64un', v))
    n = iz(c.length(v))
    c.once(('unlen', t.get_id()), lambda: LEN(t) == (4 * n + 2) / 3)
    c.once(('unempty', t.get_id()), lambda: (t == c.lit('')) == (n == 0))
    return SBytes([t])
def strip_pads(c, ps):
    """parts without trailing '=' literals and padding atoms"""
    ps = list(ps)
    while ps:
        p = ps[-1]
        if isinstance(p, LITS):
            q = p.rstrip('=' if isinstance(p, str) else b'=')
            if len(q) == len(p): break
            if len(q): ps[-1] = q; break
            ps.pop()
        elif c.tags.get(p.get_id(), ('',))[0] == 'pad': ps.pop()
        else: break
    return ps
def B64D(I, v, alpha):
    c = I.ctx
    fn = base64.b64decode if alpha == 'std' else base64.urlsafe_b64decode
    cv = c.conc(v)
    if cv is not None:
        try: r = fn(cv)
        except (ValueError, binascii.Error) as e: raise I.exc(type(e), str(e))
        return r
    if isinstance(v, SStr):
        if not c.member(v, L.ASCII, 'ascii'): raise I.exc(ValueError, 'string argument should contain only ASCII characters')
        v = SBytes(v.parts)
    ps = c.parts(v)
    if len(ps) == 1:
        tg = c.tags.get(ps[0].get_id())
        if tg and tg[0] == 'b64e' and tg[1] == alpha: return tg[2]
    core = strip_pads(c, ps)
    if len(core) == 1 and not isinstance(core[0], LITS):
        tg = c.tags.get(core[0].get_id())
        padt = len(ps) > len(core) and not isinstance(ps[-1], LITS)
        if tg and tg[0] == 'b64un' and alpha == 'url':
            if padt or c.member(SBytes(ps), L.b64(L.URL), 'base64'): return tg[1]
            raise I.exc(binascii.Error, 'Incorrect padding')
        if padt:
            # text completed by restoreb64padding
            if not c.member(SBytes(core), b64core(alpha), 'base64'): raise I.exc(binascii.Error, 'Incorrect padding')
            return b64atom(c, core, alpha)
    clean = L.from_regex('[%s]*={0,3}' % (L.STD if alpha == 'std' else L.URL))
    if not c.member(v, clean, 'base64 alphabet'):
        c.note('lenient Base64 decoding')
        x = c.term(v)
        if not c.branch(F('b64lenient', 'S>B')(x), 'lenient'): raise I.exc(binascii.Error, 'x')
        return SBytes([c.atom(F('b64x', 'S>S')(x), L.BYTES)])
    if not c.member(v, L.b64(L.STD if alpha == 'std' else L.URL), 'base64'):
        raise I.exc(binascii.Error, 'Incorrect padding')
    return b64atom(c, strip_pads(c, c.parts(v)), alpha)
@functools.lru_cache(None)
def b64core(alpha):
    q = '[%s]' % (L.STD if alpha == 'std' else L.URL)
    return L.from_regex('(%s{4})*(%s{2}|%s{3})?' % (q, q, q))
def b64atom(c, core, alpha):
    core = SBytes(core)
    cv = c.conc(core)
    if cv is not None:
        return (base64.b64decode if alpha == 'std' else base64.urlsafe_b64decode)(cv + b'=' * (-len(cv) % 4))
    x = c.term(core)
    t = F('b64d%s' % alpha, 'S>S')(x)
    c.atom(t, L.BYTES, ('b64d', alpha, x))
    # a text without padding characters determines the length
    if not c.may_eq_sign(core): c.once(('dlen', t.get_id()), lambda: LEN(t) == (LEN(x) * 3) / 4)
    else: c.once(('dlen', t.get_id()), lambda: LEN(t) <= LEN(x))
    return SBytes([t])
def may_eq_sign(self, core): return any(self.may(p, '=') for p in self.parts(core))
Ctx.may_eq_sign = may_eq_sign
def lang_charset(self, ps):
    cs = ()
    for p in ps: cs = L.iv_or(cs, self.charset(p))
    return cs
Ctx.lang_charset = lang_charset
def B32E(c, v):
    cv = c.conc(v)
    if cv is not None: return base64.b32encode(cv)
    t = F('b32', 'S>S')(c.term(v))
    c.atom(t, L.b32(), ('b32e', v))
    return SBytes([t])
def B32D(I, v):
    c = I.ctx
    cv = c.conc(v)
    if cv is not None:
        try: return base64.b32decode(cv)
        except (ValueError, binascii.Error) as e: raise I.exc(type(e), str(e))
    if isinstance(v, SStr):
        if not c.member(v, L.ASCII, 'ascii'): raise I.exc(ValueError, 'x')
        v = SBytes(v.parts)
    ps = c.parts(v)
    if len(ps) == 1:
        tg = c.tags.get(ps[0].get_id())
        if tg and tg[0] == 'b32e': return tg[1]
    if not c.member(v, L.b32(), 'base32'): raise I.exc(binascii.Error, 'Incorrect padding')
    t = F('b32d', 'S>S')(c.term(v))
    c.atom(t, L.BYTES, ('b32d', c.term(v)))
    return SBytes([t])

def encode(I, v, enc='utf-8', errors='strict'):
    c = I.ctx
    if isinstance(v, str):
        try: return v.encode(enc, errors)
        except UnicodeError as e: raise I.exc(type(e), str(e))
    if str(enc).lower().replace('-', '') not in ('utf8', 'ascii') or errors != 'strict': raise Unsupported('codec')
    asc = 'ascii' in str(enc).lower()
    out = []
    for p in c.parts(v):
        if isinstance(p, str):
            try: out.append(p.encode(enc)); continue
            except UnicodeError as e: raise I.exc(type(e), str(e))
        if asc:
            if not c.member(SStr([p]), L.ASCII, 'ascii'): raise I.exc(UnicodeEncodeError, 'ascii')
        elif not c.member(SStr([p]), L.NOSURR, 'no surrogates'): raise I.exc(UnicodeEncodeError, 'utf-8')
        for q in c.parts(SStr([p])):
            if isinstance(q, str): out.append(q.encode(enc)); continue
            if L.subset(c.dom_of(q), L.ASCII): out.append(q); continue
            tg = c.tags.get(q.get_id())
            if tg and tg[0] == 'd8': out.append(tg[1]); continue
            e = F('utf8', 'S>S')(q)
            cs = c.charset(q)
            c.atom(e, L.star_of(L.iv_or(L.iv_and(cs, ((0, 128),)), ((128, 256),))), ('e8', q))
            c.once(('e8', e.get_id()), lambda: z3.And(LEN(e) >= LEN(q), LEN(e) <= 4 * LEN(q)))
            out.append(e)
    return c.norm(SBytes(out))
def decode(I, v, enc='utf-8', errors='strict'):
    c = I.ctx
    if isinstance(v, bytes):
        try: return v.decode(enc, errors)
        except UnicodeError as e: raise I.exc(type(e), str(e))
    if str(enc).lower().replace('-', '') not in ('utf8', 'ascii') or errors != 'strict': raise Unsupported('codec')
    ps = c.parts(v)
    out = []
    for p in ps:
        if isinstance(p, bytes):
            try: out.append(p.decode(enc)); continue
            except UnicodeError as e:
                if len(ps) == 1: raise I.exc(type(e), str(e))
                raise Unsupported('split multi-byte character')
        if L.subset(c.dom_of(p), L.ASCII): out.append(p); continue
        tg = c.tags.get(p.get_id())
        if tg and tg[0] == 'e8': out.append(tg[1]); continue
        if len(ps) > 1 and not all(isinstance(q, bytes) and q.isascii() or q is p for q in ps): raise Unsupported('decoding a concatenation')
        if not c.branch(F('isutf8', 'S>B')(p), 'valid utf-8'): raise I.exc(UnicodeDecodeError, 'utf-8')
        d = F('dec8', 'S>S')(p)
        c.atom(d, L.NOSURR, ('d8', p))
        c.once(('d8', d.get_id()), lambda: z3.And(LEN(d) <= LEN(p), (LEN(d) == 0) == (LEN(p) == 0)))
        out.append(d)
    return c.norm(SStr(out))

def uf_str(c, name, v, dfa, tag=None):
    t = F(name, 'S>S')(c.term(v))
    c.atom(t, dfa, tag)
    return t
def replace(I, v, a, b):
    c = I.ctx
    T = SStr if isstr(v) else SBytes
    if c.conc(a) is None or c.conc(b) is None: raise Unsupported('replace')
    a, b = c.conc(a), c.conc(b)
    cv = c.conc(v)
    if cv is not None: return cv.replace(a, b)
    if len(a) != 1:
        # multi-character pattern: unchanged where it cannot occur
        if all(not isinstance(p, LITS) and L.disjoint(c.dom_of(p), L.containing(a if isinstance(a, str) else a.decode('latin-1'))) for p in c.parts(v)) and len(c.parts(v)) == 1: return v
        cs = a if isinstance(a, str) else a.decode('latin-1')
        if any(not any(c.may(p, ch) for p in c.parts(v)) for ch in cs): return v
        t = F('replace!%r!%r' % (a, b), 'S>S')(c.term(v))
        c.atom(t, None, ('replm', c.term(v), a, b))
        return T([t])
    out = []
    for p in c.parts(v):
        if isinstance(p, LITS): out.append(p.replace(a, b)); continue
        if not c.may(p, a): out.append(p); continue
        tg = c.tags.get(p.get_id())
        if tg and tg[0] == 'b64e' and a in ('=', b'=') and len(b) == 0:
            if tg[1] == 'url': out.extend(B64UN(c, tg[2]).parts); continue
            t = F('b64n', 'S>S')(c.term(tg[2]))
            c.once(('b64nempty', t.get_id()), lambda tg=tg, t=t: (t == c.lit('')) == (iz(c.length(tg[2])) == 0))
            out.append(c.atom(t, L.from_regex('[%s]*' % L.STD), ('b64n', tg[2]))); continue
        if tg and tg[0] == 'pad' and a in ('=', b'=') and len(b) == 0: continue
        if tg and tg[0] == 'euro' and a == '.' and b == ',':
            t = F('eurotext', 'I>S')(tg[1])
            out.append(c.atom(t, L.from_regex('-?(0|[1-9][0-9]*),[0-9]{2}'), ('eurotext', tg[1])))
            c.once(('eurotext', t.get_id()), lambda t=t, tg=tg: z3.And(F('cents', 'S>I')(t) == tg[1], z3.Not(F('hugefloat', 'S>B')(t)))); continue
        if len(b) > 1: raise Unsupported('replace')
        sa, sb = (a, b) if isinstance(a, str) else (a.decode('latin-1'), b.decode('latin-1'))
        t = F('replace!%r!%r' % (sa, sb), 'S>S')(p)
        out.append(c.atom(t, L.replace_image(c.dom_of(p), sa, sb), ('repl', p, sa, sb)))
        if len(b) == 1: c.once(('repl', t.get_id()), lambda t=t, p=p: LEN(t) == LEN(p))
    return c.norm(T(out))

def lit_hook(c, t, v):
    """equality of a derived text with a literal, expressed on its source"""
    tg = c.tags.get(t.get_id())
    if tg is None: return None
    if tg[0] == 'repl':
        sv = v if isinstance(v, str) else v.decode('latin-1')
        return c.member(SStr([tg[1]]), L.replace_preimage(sv, tg[2], tg[3]), 'replace')
    if tg[0] == 'strip':
        d, st = L.literal(v), L.star_of(tg[2])
        if tg[3]: d = L.cat(st, d)
        if tg[4]: d = L.cat(d, st)
        r = c.member(SStr([tg[1]]), d, 'strip')
        c.assume((t == c.lit(v)) if r else (t != c.lit(v)))
        return r
    if tg[0] == 'char':
        return c.member(SStr([tg[1]]), L.inter(L.starting(v), L.anylen(1)), 'first character')
    if tg[0] == 'b64d' and isinstance(v, LITS):
        b = v.encode('latin-1') if isinstance(v, str) else v
        if len(b) % 3 == 0 and len(b):
            # exactly one text (up to superfluous padding) decodes to v
            e = (base64.b64encode if tg[1] == 'std' else base64.urlsafe_b64encode)(b).decode()
            sub = c.sub.get(tg[2].get_id())
            src = SBytes(sub if sub is not None else [tg[2]])
            r = c.member(src, L.from_regex(re.escape(e) + '={0,3}'), 'decodes to %r' % v)
            c.assume((t == c.lit(v)) if r else (t != c.lit(v)))
            return r
        return None
    if tg[0] in ('d8', 'e8') and isinstance(v, LITS) and v.isascii() and len(v):
        src = tg[1]
        return c.atom_eq_lit(src, v.encode() if tg[0] == 'd8' else v.decode())
    if tg[0] == 'd8' and v == '':
        return LEN(tg[1]) == 0
    return None

@functools.lru_cache(None)
def casefix(name):
    """characters the case conversion leaves alone; a text equals its
    conversion iff it has no others (no character is converted to nothing)"""
    return L.chars(L.fix_iv(name), 0, None)
def eq_hook(c, x, y):
    for a, b in ((x, y), (y, x)):
        tg = c.tags.get(a.get_id())
        if tg and tg[0] == 'case' and tg[2].eq(b):
            return c.member(SStr([b]), casefix(tg[1]), tg[1])
    return None

class SplitVal(object):
    """result of text.split(sep): fields found so far plus the remainder"""
    pytype = list
    def __init__(self, T, sep, rest):
        self.T, self.sep, self.items, self.rest = T, sep, [], rest
    def peel(self, I):
        """moves one more field to items; False when all are known"""
        c = I.ctx
        if self.rest is None: return False
        ps = c.parts(self.rest)
        cur = []
        while ps:
            p = ps.pop(0)
            if isinstance(p, LITS):
                i = p.find(self.sep)
                if i < 0: cur.append(p); continue
                cur.append(p[:i]); ps.insert(0, p[i + 1:])
                self.items.append(c.mk(self.T, [x for x in cur if not isinstance(x, LITS) or len(x)])); self.rest = self.T(ps)
                return True
            if not c.may(p, self.sep): cur.append(p); continue
            n = F('nsep!%d' % ord(self.sep), 'S>I')(p)
            c.assume(n >= 0)
            ch = self.sep if isinstance(self.sep, str) else self.sep.decode('latin-1')
            if L.disjoint(c.dom_of(p), L.without(ch)): has = True; c.assume(n >= 1)
            else: has = c.choose([conj([n == 0] + c.lenfacts(p, L.inter(c.dom_of(p), L.without(ch)), c.dom_of(p))), n >= 1], 'contains %r' % self.sep) == 1
            if not has:
                c.restrict(p, L.without(ch))
                ps = c.parts(self.T([p])) + ps if False else ps
                cur.extend(c.parts(self.T([p]))); continue
            a, r = c.split_sep(p, self.sep)
            self.items.append(c.norm(self.T(cur + [a]))); self.rest = self.T([r] + ps)
            return True
        self.items.append(c.mk(self.T, [x for x in cur if not isinstance(x, LITS) or len(x)])); self.rest = None
        return True
    def count(self, I):
        c = I.ctx
        if self.rest is None: return len(self.items)
        n = len(self.items) + 1
        for p in c.parts(self.rest):
            if isinstance(p, LITS): n = n + p.count(self.sep)
            elif c.may(p, self.sep):
                k = F('nsep!%d' % ord(self.sep), 'S>I')(p)
                c.assume(k >= 0)
                ch = self.sep if isinstance(self.sep, str) else self.sep.decode('latin-1')
                if ch not in c.seps: c.seps.append(ch)
                c.once(('nsep', k.get_id(), did(c.dom_of(p))), lambda k=k, p=p: z3.And(*([k >= 0] + c.lenfacts(p, c.dom_of(p)))))
                n = n + k
        return mkint(n)
    def all(self, I, limit=40):
        while self.rest is not None:
            if len(self.items) > limit: raise Unsupported('unbounded split')
            self.peel(I)
        return self.items
    def get(self, I, i):
        if i < 0:
            self.all(I)
            if -i > len(self.items): raise I.exc(IndexError, 'list index out of range')
            return self.items[i]
        while len(self.items) <= i:
            if not self.peel(I): raise I.exc(IndexError, 'list index out of range')
        return self.items[i]
def materialize(I, sv):
    return sv.all(I)

# ---------------------------------------------------------------- JSON-like input
KINDS = ('null', 'bool', 'int', 'float', 'str', 'list', 'dict')
KTYPE = {'bytes': bytes, 'null': type(None), 'bool': bool, 'int': int, 'float': float, 'str': str, 'list': list, 'dict': dict}
class SJson(object):
    """arbitrary value parsed from JSON, typed lazily"""
    def __init__(self, name, kinds=KINDS): self.name = name; self.kinds = list(kinds); self.val = MISSING
    tv = None
    def decide_truth(self, I):
        """None or text: forks on the truth value only"""
        if self.val is not MISSING or set(self.kinds) != {'null', 'str'}: return None
        if self.tv is None:
            self.tv = I.ctx.choose([True, True], 'given: %s' % self.name) == 0
            if self.tv:
                self.kinds = ['str']
                I.ctx.restrict(self.force(I).parts[0], L.anylen(1))
        return self.tv
    def narrow(self, I, kinds, label='json type'):
        """forks: True if the value is of one of kinds"""
        yes = [k for k in self.kinds if k in kinds]; no = [k for k in self.kinds if k not in kinds]
        if not yes: return False
        if not no: return True
        r = I.ctx.choose([True, True], '%s: %s is %s' % (label, self.name, '/'.join(yes))) == 0
        self.kinds = yes if r else no
        return r
    def force(self, I):
        if self.val is not MISSING: return self.val
        if len(self.kinds) > 1:
            i = I.ctx.choose([True] * len(self.kinds), 'json value %s' % self.name)
            self.kinds = [self.kinds[i]]
        k = self.kinds[0]
        c = I.ctx
        if k == 'null': self.val = None
        elif k == 'bool': self.val = SBool(c.fresh(self.name, 'B'))
        elif k == 'int': self.val = SInt(c.fresh(self.name, 'I'))
        elif k == 'float': self.val = SFloat(real=None)
        elif k == 'str':
            self.val = SStr([c.atom(c.fresh(self.name, 'S'))]) if self.tv is not False else ''
        elif k == 'bytes': self.val = SBytes([c.atom(c.fresh(self.name, 'S'), L.BYTES)])
        elif k == 'list': self.val = SymList(I, self.name, lambda nm: SJson(nm))
        else: self.val = SymDict(I, self.name)
        return self.val
class SymList(object):
    """list of unknown length with elements produced on demand"""
    pytype = list
    def __init__(self, I, name, elem, n=None):
        self.name, self.elem = name, elem
        if n is None:
            n = I.ctx.fresh('len_' + name); I.ctx.assume(n >= 0); n = SInt(n)
        self.n = n
        self.memo = {}
        self.dirty = False
    def item(self, key):
        if isinstance(key, str) and key.isdigit(): key = int(key)
        if key not in self.memo: self.memo[key] = self.elem('%s[%s]' % (self.name, key))
        return self.memo[key]
    def clone(self, I): return SymList(I, self.name, self.elem, self.n)
class EnumList(SymList):
    """enumerate() of such a list"""
    def __init__(self, I, v, st):
        SymList.__init__(self, I, 'enum(%s)' % v.name, None, v.n)
        self.I, self.v, self.st = I, v, st
    def clone(self, I): return EnumList(I, self.v, self.st)
    def item(self, key):
        if key not in self.memo:
            if isinstance(key, int): i = key
            else:
                i = self.I.ctx.fresh('idx'); self.I.ctx.assume(z3.And(i >= 0, i < iz(self.n))); i = SInt(i)
            self.memo[key] = (i if isinstance(self.st, int) and self.st == 0 else self.I.binop(ast.Add(), i, self.st), self.v.item(key))
        return self.memo[key]
class SymDict(object):
    pytype = dict
    def __init__(self, I, name, valfn=None):
        self.name = name; self.valfn = valfn or (lambda nm: SJson(nm)); self.known = []   # [key, present, value]
        n = I.ctx.fresh('len_' + name); I.ctx.assume(n >= 0); self.n = SInt(n)
        self.extra = []   # items written later
    def has(self, I, k):
        for e in self.known:
            if I.test(I.compare('Eq', e[0], k)): return e
        p = I.ctx.choose([True, True], '%r in %s' % (k, self.name)) == 0
        e = [k, p, None]
        if p:
            e[2] = self.valfn('%s[%s]' % (self.name, k if isinstance(k, str) else '?'))
            I.ctx.assume(self.n.t > 0)
        self.known.append(e)
        return e
    pairlist = None
    def pairs(self, I):
        """its items in some order"""
        if self.pairlist is None: self.pairlist = SymList(I, 'items(%s)' % self.name, lambda nm: self.pair(I, nm), self.n)
        return self.pairlist
    def pair(self, I, nm):
        k = SStr([I.ctx.atom(I.ctx.fresh('key', 'S'))])
        for e in self.known:
            q = I.compare('Eq', e[0], k)
            if e[1] and len(e) == 3:
                if I.test(q): return k, e[2]
            elif q is True: raise Infeasible()
            elif q is not False: I.ctx.assume(neg(bt(q)))
        e = [k, True, self.valfn(nm), 'pair']
        self.known.append(e)
        return k, e[2]

class SymMap(object):
    """arbitrary finite map used as the unknown part of a PDict: presence and
    value of a key are functions of the key"""
    def __init__(self, has, get): self.has, self.get = has, get
class SeqMap(SymMap):
    """arbitrary finite map with n text keys key(0), ..., key(n - 1), all different"""
    def __init__(self, c, tok, n, val, upto=None):
        self.c, self.tok, self.n, self.val = c, tok, iz(n), val
        self.upto = self.n if upto is None else iz(upto)
        self.vals = Seq(SInt(self.n), val, 'values')
        self.root = self
    def prefix(self, m):
        p = SeqMap(self.c, self.tok, self.n, self.val, m); p.vals = self.vals; p.root = self.root; return p
    def withvals(self, val):
        return SeqMap(self.c, self.tok, self.n, val, self.upto)
    def pos(self, t): return F('keypos', 'AS>I')(self.tok, t)
    def key(self, I, i):
        i = z3.simplify(iz(i))
        t = F('keyat', 'AI>S')(self.tok, i)
        self.c.atom(t)
        self.c.assume(z3.And(F('iskey', 'AS>B')(self.tok, t), self.pos(t) == i))
        return SStr([t])
    def has(self, I, k):
        if not isstr(k): return False
        t = I.ctx.term(k)
        p = self.pos(t)
        I.ctx.assume(z3.Implies(F('iskey', 'AS>B')(self.tok, t), z3.And(p >= 0, p < self.n, F('keyat', 'AI>S')(self.tok, p) == t)))
        return z3.And(F('iskey', 'AS>B')(self.tok, t), p < self.upto)
    def get(self, I, k): return self.vals.at(I, self.pos(I.ctx.term(k)))
    def seq(self, I, what):
        if not hasattr(self, 'base'): self.base = Seq(mkint(self.upto), lambda I, i: i, 'entries'); self.base.src = self
        if what == 'keys': return self.base.map(lambda I, _, i: self.key(I, i), 'keys')
        if what == 'values': return self.base.map(lambda I, _, i: self.vals.at(I, i), 'values')
        return self.base.map(lambda I, _, i: (self.key(I, i), self.vals.at(I, i)), 'items')

# ---------------------------------------------------------------- Models
class Ext(object):
    """stateful library object"""
    def __init__(self, kind, **kw): self.kind = kind; self.__dict__.update(kw)
    def __repr__(self): return '<ext %s>' % self.kind

class Models(object):
    def setup(self, I):
        b = I.builtins
        for n in dir(self):
            if n.startswith('b_'): b[n[2:]] = Builtin(n[2:], getattr(self, n))
        b['_'] = Builtin('_', lambda I, a, k: a[0])
        b['NotImplemented'] = NotImplemented
        b['__name__'] = '?'
        self.mods = {}
        self.libs = {}
        self.havoc = {}
        self.havoc_changed = False
        oe = I.pyclass(object)
        oe.ns['__init__'] = Builtin('object.__init__', self.object_init)
        be = I.pyclass(BaseException)
        be.ns['__init__'] = Builtin('BaseException.__init__', self.exc_init)
        be.ns['__str__'] = Builtin('BaseException.__str__', self.exc_str)
        be.ns['__reduce__'] = Builtin('BaseException.__reduce__', lambda I, a, k: (a[0].cls, a[0].attrs.raw('args'), a[0].attrs))
        g = I.pyclass(collections.abc.Generator)
        g.ns['__iter__'] = Builtin('iter', lambda I, a, k: a[0])
        g.ns['__next__'] = Builtin('next', lambda I, a, k: I.call(I.getattr(a[0], 'send'), [None], {}))
        en = I.pyclass(enum.Enum); en.meta = 'enum'; en.ns.clear()
    def object_init(self, I, a, k):
        if len(a) > 1 or k:
            raise I.exc(TypeError, 'object.__init__() takes exactly one argument')
    def exc_init(self, I, a, k):
        a[0].attrs.setraw('args', tuple(a[1:]))
    def exc_str(self, I, a, k):
        ar = a[0].attrs.raw('args', ())
        if len(ar) == 0: return ''
        if len(ar) == 1: return self.to_str(I, ar[0])
        raise Unsupported('str of exception')

    # -------------------------------------------- modules
    def gettext(self, I, n):
        if n == '_': return I.builtins['_']
        raise Unsupported('gettext ' + n)
    def import_module(self, I, name, leaf=False):
        from . import libs
        if leaf: return libs.module(self, I, name)
        top = libs.module(self, I, name.split('.')[0])
        m = top
        parts = name.split('.')
        for i in range(1, len(parts)):
            s = libs.module(self, I, '.'.join(parts[:i + 1]))
            m.ns.setdefault(parts[i], s); m = s
        return top
    def import_from(self, I, mod, name):
        from . import libs
        return libs.member(self, I, mod, name)
    def as_class(self, I, v): raise Unsupported('base class %r' % (v,))

    # -------------------------------------------- basics
    def force(self, I, v):
        return v.force(I) if isinstance(v, SJson) else v
    def opaque_class(self, I, v):
        from . import libs
        return libs.opaque_class(self, I, v)
    def truth(self, I, v):
        if isinstance(v, SJson):
            r = v.decide_truth(I)
            return r if r is not None else I.truth(v.force(I))
        if isinstance(v, (SymList, Seq)): return v.n.t != 0 if isinstance(v.n, SInt) else v.n != 0
        if isinstance(v, SymDict): return v.n.t != 0
        if isinstance(v, SplitVal): return True
        if isinstance(v, PSet):
            if v.items: return True
            if v.base is None: return False
            raise Unsupported('truth of symbolic set')
        if isinstance(v, SFloat):
            t = self.float_cmp(I, 'Eq', v, 0.0)
            return neg(t)
        if isinstance(v, Opaque):
            from . import libs
            if v.kind in libs.OBJECTS: return True
            if v.kind in ('timedelta', 'halg'): raise Unsupported('truth of ' + v.kind)
            if v.t.sort() != SORTS['A']: raise Unsupported('truth of ' + v.kind)
            return F('truth!' + v.kind, 'A>B')(v.t)
        if isinstance(v, Ext): return True
        if isinstance(v, (Range,)): raise Unsupported('truth of range')
        if v is POISON:
            if I.ctx.data.get('poison_branch'): return I.ctx.fresh('poison', 'B')
            raise Unsupported('decision on unconstrained loop state')
        if v is NotImplemented: return True
        raise Unsupported('truth of %r' % (v,))

    # -------------------------------------------- text conversion
    def to_str(self, I, v):
        c = I.ctx
        v = self.force(I, v)
        if isstr(v): return v
        if v is POISON: return SStr([c.atom(c.fresh('text', 'S'))])
        if isinstance(v, bool) or v is None or isinstance(v, (int, float, bytes)):
            return str(v)
        if isinstance(v, SInt):
            t = F('dec', 'I>S')(v.t)
            c.atom(t, L.from_regex('0|-?[1-9][0-9]*'), ('dec', v))
            return SStr([t])
        if isinstance(v, Obj):
            f = v.cls.find('__str__')
            if f is not MISSING: return I.call(Bound(v, f), [], {})
        if isinstance(v, (SBool, SBytes, SFloat, Opaque, SymList, SymDict, tuple, list, PDict, PSet, ClassVal, Obj, Ext, SplitVal)):
            # representation is not specified further
            return SStr([c.atom(c.fresh('text', 'S'))])
        raise Unsupported('str of %r' % (v,))
    def fmt(self, I, s, args, kw):
        """str.format with plain fields"""
        import string
        if I.ctx.conc(s) is None: raise Unsupported('symbolic format string')
        out = ['']; auto = 0
        for litt, field, spec, conv in string.Formatter().parse(I.ctx.conc(s)):
            if litt: out.append(litt)
            if field is None: continue
            if field == '': v = args[auto] if auto < len(args) else MISSING; auto += 1
            elif field.isdigit(): v = args[int(field)] if int(field) < len(args) else MISSING
            else: v = kw.get(field, MISSING)
            if v is MISSING: raise I.exc(IndexError, 'Replacement index out of range')
            out.append(self.fmt_one(I, v, spec, conv))
        return I.ctx.cat(*out)
    def fmt_one(self, I, v, spec='', conv=None):
        if conv == 's': v = self.to_str(I, v)
        elif conv: v = SStr([I.ctx.atom(I.ctx.fresh('repr', 'S'))])
        if not spec: return self.to_str(I, v)
        v = self.force(I, v)
        if v is POISON: return self.to_str(I, v)
        if isinstance(v, (int, str, float)):
            try: return format(v, spec)
            except ValueError as e: raise I.exc(ValueError, str(e))
        if isinstance(v, SInt):
            if spec == 'd': return self.to_str(I, v)
            if spec == 'x': return self.hexstr(I, v)
            if spec == '02x': return self.hex2(I, v)
        if isinstance(v, SStr) and spec == 's': return v
        if isinstance(v, (SFloat, SInt)) and spec == '.2f': return self.fmt2f(I, v)
        raise Unsupported('format spec')
    def hexstr(self, I, v):
        c = I.ctx
        if isinstance(v, (int, bool)): return '%x' % v
        t = F('hex', 'I>S')(v.t)
        c.atom(t, L.from_regex('0|-?[1-9a-f][0-9a-f]*'), ('hex', v))
        c.once(('hex', t.get_id()), F('unhex', 'S>I')(t) == v.t)
        return SStr([t])
    def hex2(self, I, v):
        c = I.ctx
        if isinstance(v, (int, bool)): return '%02x' % v
        if not c.implied(z3.And(v.t >= 0, v.t < 256)): raise Unsupported('%02x')
        t = F('hex2', 'I>S')(v.t)
        c.atom(t, L.from_regex('[0-9a-f][0-9a-f]'))
        c.once(('hex2', t.get_id()), F('unhex', 'S>I')(t) == v.t)
        return SStr([t])
    def percent(self, I, s, a):
        """text % arguments"""
        c = I.ctx
        s = c.conc(s)
        if s is None: raise Unsupported('symbolic format string')
        args = list(a) if isinstance(a, tuple) else [a]
        out = ['']; pos = 0
        for m in re.finditer(r'%(%|s|d|x|02x|r|\.2f|i)', s):
            out.append(s[pos:m.start()]); pos = m.end()
            k = m.group(1)
            if k == '%': out.append('%'); continue
            if not args: raise I.exc(TypeError, 'not enough arguments for format string')
            v = self.force(I, args.pop(0))
            if k == 's': out.append(self.to_str(I, v))
            elif k in ('d', 'i'):
                if isnum(v): out.append(self.to_str(I, v if not isinstance(v, bool) else int(v)))
                elif isinstance(v, float): out.append('%d' % v)
                elif isstr(v) or isbytes(v) or v is None: raise I.exc(TypeError, '%d format')
                else: raise Unsupported('%d')
            elif k in ('x', '02x'):
                if isnum(v): out.append(self.hexstr(I, v) if k == 'x' else self.hex2(I, v))
                elif v is POISON: out.append(self.to_str(I, v))
                else: raise I.exc(TypeError, '%x format: an integer is required')
            elif k == '.2f':
                if isinstance(v, (int, float)): out.append('%.2f' % v)
                else: out.append(self.fmt2f(I, v))
            else: out.append(SStr([c.atom(c.fresh('repr', 'S'))]))
        rest = s[pos:]
        if '%' in rest: raise Unsupported('format ' + s)
        out.append(rest)
        if args: raise I.exc(TypeError, 'not all arguments converted during string formatting')
        return c.cat(*out)
    def fmt2f(self, I, v):
        """'%.2f' of an amount known to be a whole number of cents"""
        cs = None
        if isinstance(v, SFloat) and v.err is not None and v.err < .004:
            if isinstance(v.src, tuple) and v.src[0] == 'cents': cs = v.src[1]
            elif v.real is not None and I.ctx.implied(z3.IsInt(v.real * 100)): cs = z3.simplify(z3.ToInt(v.real * 100))
        elif isinstance(v, SInt): cs = z3.simplify(v.t * 100)
        if cs is None: raise Unsupported('%.2f')
        # (zero is printed as 0.00 or -0.00: the function of the cents is left open)
        t = F('euro', 'I>S')(cs)
        I.ctx.atom(t, L.from_regex(r'-?(0|[1-9][0-9]*)\.[0-9][0-9]'), ('euro', cs))
        return SStr([t])

    # -------------------------------------------- operators
    def binop(self, I, op, a, b):
        a, b = self.force(I, a), self.force(I, b)
        if a is POISON or b is POISON: return POISON
        if isinstance(a, Obj):
            m = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__', 'Mod': '__mod__', 'BitOr': '__or__'}.get(op)
            f = a.cls.find(m) if m else MISSING
            if f is not MISSING: return I.call(Bound(a, f), [b], {})
        if isinstance(a, SplitVal): a = a.all(I)
        if isinstance(b, SplitVal): b = b.all(I)
        if isstr(a) or isbytes(a):
            if op == 'Add':
                if isstr(a) and isstr(b) or isbytes(a) and isbytes(b): return I.ctx.cat(a, b)
                raise I.exc(TypeError, 'can only concatenate')
            if op == 'Mod' and isstr(a): return self.percent(I, a, b)
            if op == 'Mult' and isnum(b): return self.repeat(I, a, b)
            raise I.exc(TypeError, 'unsupported operand')
        if (isstr(b) or isbytes(b)) and op == 'Mult' and isnum(a): return self.repeat(I, b, a)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            import operator as o
            f = {'Add': o.add, 'Sub': o.sub, 'Mult': o.mul, 'Div': o.truediv, 'FloorDiv': o.floordiv, 'Mod': o.mod, 'Pow': o.pow,
                'LShift': o.lshift, 'RShift': o.rshift, 'BitAnd': o.and_, 'BitOr': o.or_, 'BitXor': o.xor}.get(op)
            if op == 'Pow' and isinstance(b, int) and abs(b) > 10000: raise Unsupported('power')
            try: return f(a, b)
            except ArithmeticError as e: raise I.exc(type(e), str(e))
            except TypeError as e: raise I.exc(TypeError, str(e))
        if isnum(a) and isnum(b):
            x, y = iz(a), iz(b)
            if op == 'Add': return mkint(x + y)
            if op == 'Sub': return mkint(x - y)
            if op == 'Mult': return mkint(x * y)
            if op in ('FloorDiv', 'Mod'):
                if I.ctx.branch(y == 0, 'zero divisor'): raise I.exc(ZeroDivisionError, 'x')
                if isinstance(b, int) and b > 0: return mkint(x / y if op == 'FloorDiv' else x % y)
                q = z3.If(y > 0, x / y, (-x) / (-y)); return mkint(q if op == 'FloorDiv' else x - y * q)
            if op == 'Div': return self.quotient(I, z3.ToReal(x), z3.ToReal(y))
            if op == 'LShift' and isinstance(b, int): return mkint(x * (1 << b))
            if op == 'RShift' and isinstance(b, int): return mkint(x / (1 << b))
            if op == 'BitAnd' and isinstance(b, int) and b >= 0 and (b & (b + 1)) == 0: return mkint(x % (b + 1))
            if op in ('BitAnd', 'BitOr') and isbool(a) and isbool(b):
                return mkbool((z3.And if op == 'BitAnd' else z3.Or)(bt(a), bt(b)))
            raise Unsupported('integer operator ' + op)
        if isinstance(a, (SFloat, float, SInt, int)) and isinstance(b, (SFloat, float, SInt, int)):
            return self.float_op(I, op, a, b)
        if isinstance(a, list) and op == 'Add' and isinstance(b, list): return a + b
        if isinstance(a, tuple) and op == 'Add' and isinstance(b, tuple): return a + b
        if isinstance(a, (list, tuple)) and op == 'Mult' and isinstance(b, int): return a * b
        if isinstance(b, (list, tuple)) and op == 'Mult' and isinstance(a, int): return b * a
        if isinstance(a, (list, tuple)) and op == 'Mult' and isinstance(b, SInt):
            if I.ctx.data.get('longlists') and len(a) == 1:
                n = b if I.ctx.implied(b.t >= 0) else mkint(z3.If(b.t >= 0, b.t, z3.IntVal(0)))
                return MSeq(n, lambda I, i: a[0], 'repeated')
            return a * self.concretize(I, b, 0, 8)
        if isinstance(a, list) and op == 'Add' and isinstance(b, SymList) or isinstance(a, SymList): raise Unsupported('symbolic list operation')
        if isinstance(a, PSet) and isinstance(b, PSet) and op in ('BitOr', 'Sub', 'BitAnd'):
            return self.set_op(I, op, a, b)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            from . import libs
            r = libs.opaque_binop(self, I, op, a, b)
            if r is not None: return r
        simple = (type(None), bool, int, float, SInt, SBool, SFloat, str, bytes, SRope, list, tuple, PDict, PSet, SymDict, SymList)
        if isinstance(a, simple) and isinstance(b, simple): raise I.exc(TypeError, 'unsupported operand type(s)')
        raise Unsupported('operator %s on %r, %r' % (op, a, b))
    def concretize(self, I, v, lo, hi):
        if isinstance(v, (int, bool)): return int(v)
        t = v.t
        conds = [t == k for k in range(lo, hi + 1)] + [z3.Or(t < lo, t > hi)]
        i = I.ctx.choose(conds, 'value')
        if i == len(conds) - 1: raise Unsupported('unbounded count')
        return lo + i
    def repeat(self, I, s, n):
        if isinstance(n, (int, bool)):
            c = I.ctx.conc(s)
            if c is not None:
                if n * len(c) > 10**6: raise Unsupported('huge text')
                return c * n
            return I.ctx.cat(*([s] * n)) if n > 0 else s.lit()
        cs = I.ctx.conc(s)
        if I.ctx.implied(z3.And(n.t >= 0, n.t <= 8)): return self.repeat(I, s, self.concretize(I, n, 0, 8))
        if cs is not None and len(cs) == 1:
            if I.ctx.branch(n.t <= 0, 'count'): return cs[:0]
            t = F('rep!%d' % ord(cs), 'I>S')(n.t)
            I.ctx.atom(t, L.star_of(L.mk_iv(L.codes(cs))))
            I.ctx.once(('rep', t.get_id()), LEN(t) == n.t)
            return (SStr if isstr(s) else SBytes)([t])
        raise Unsupported('repetition')
    # -- floats
    def float_of(self, v):
        if isinstance(v, SFloat): return v
        if isinstance(v, bool): v = int(v)
        if isinstance(v, int): return SFloat(real=z3.RealVal(v), err=0, mag=abs(v)) if abs(v) < 2**53 else SFloat()
        if isinstance(v, float):
            from fractions import Fraction
            if v != v or v in (float('inf'), float('-inf')): return SFloat()
            fr = Fraction(v); return SFloat(real=z3.RealVal('%d/%d' % (fr.numerator, fr.denominator)), err=0, mag=abs(fr))
        if isinstance(v, SInt): return SFloat(real=z3.ToReal(v.t), err=None, mag=None)
    def quotient(self, I, x, y):
        """the machine quotient: rounding is monotone and keeps 0, 1 and -1"""
        c = I.ctx
        q = c.fresh('quot', 'R')
        for lo in (0, 1):
            for pos in (True, False):
                g = y > 0 if pos else y < 0
                u, v = (x, y) if pos else (-x, -y)
                c.assume(z3.Implies(g, z3.And(z3.Implies(u >= lo * v, q >= lo), z3.Implies(u <= lo * v, q <= lo))))
        c.assume(z3.Implies(x != 0, q != 0))
        return SFloat(real=q, err=0)
    def float_op(self, I, op, a, b):
        x, y = self.float_of(a), self.float_of(b)
        if op == 'Div' and isinstance(b, SInt) and x.real is not None and not isinstance(a, float):
            if I.ctx.branch(b.t == 0, 'zero divisor'): raise I.exc(ZeroDivisionError, 'x')
            return self.quotient(I, x.real, y.real)
        if x.real is None or y.real is None: return SFloat()
        u = 2.0 ** -53
        if op in ('Add', 'Sub'):
            r = x.real + y.real if op == 'Add' else x.real - y.real
            if x.mag is None or y.mag is None: return SFloat(real=r)
            m = x.mag + y.mag
            return SFloat(real=r, err=x.err + y.err + m * 2 * u, mag=m * (1 + 2 * u))
        if op == 'Mult':
            r = x.real * y.real
            if x.mag is None or y.mag is None: return SFloat(real=r)
            m = x.mag * y.mag
            return SFloat(real=r, err=x.err * y.mag + y.err * x.mag + x.err * y.err + m * 2 * u, mag=m * (1 + 2 * u))
        if op == 'Div' and isinstance(b, (int, float)) and b:
            r = x.real / y.real
            if x.mag is None: return SFloat(real=r)
            m = x.mag / abs(b)
            return SFloat(real=r, err=x.err / abs(b) + m * 2 * u, mag=m * (1 + 2 * u))
        return SFloat()
    def float_cmp(self, I, op, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, SFloat) and isinstance(y, (int, float)) and not isinstance(y, bool):
                if isinstance(x.src, SRope) or isinstance(x.src, str):
                    if op in ('Eq', 'NotEq'):
                        if y == 0:
                            t = cents_term(I, x.src) == 0
                            return t if op == 'Eq' else neg(t)
                        if y in (float('inf'), float('-inf')):
                            t = F('hugefloat', 'S>B')(I.ctx.term(x.src))
                            t = z3.And(t, (cents_term(I, x.src) > 0) if y > 0 else (cents_term(I, x.src) < 0))
                            I.ctx.assume(z3.Implies(F('hugefloat', 'S>B')(I.ctx.term(x.src)), I_len(I, x.src) > 300))
                            return t if op == 'Eq' else neg(t)
        x, y = self.float_of(a), self.float_of(b)
        if x is not None and y is not None and x.real is not None and y.real is not None and x.err == 0 and y.err == 0:
            return real_cmp(op, x.real, y.real)
        if x is None or y is None:
            if op == 'Eq': return False
            if op == 'NotEq': return True
            raise I.exc(TypeError, 'unorderable')
        I.ctx.note('floating point comparison')
        return I.ctx.fresh('fcmp', 'B')
    # -- comparisons
    def compare(self, I, op, a, b):
        if op in ('Is', 'IsNot'):
            r = self.identical(I, a, b)
            return neg(r) if op == 'IsNot' else r
        if op in ('In', 'NotIn'):
            r = self.contains(I, b, a)
            return neg(r) if op == 'NotIn' else r
        if op == 'NotEq':
            a2, b2 = self.force(I, a), self.force(I, b)
            if isinstance(a2, Obj):
                f = a2.cls.find('__ne__')
                if f is not MISSING and not isinstance(f, Builtin):
                    r = I.call(Bound(a2, f), [b2], {})
                    if r is not NotImplemented: return I.truth(r)
            return neg(self.equal(I, a2, b2))
        if op == 'Eq': return self.equal(I, a, b)
        a, b = self.force(I, a), self.force(I, b)
        if a is POISON or b is POISON: return POISON
        if isnum(a) and isnum(b):
            x, y = it(a), it(b)
            return real_cmp(op, x, y)
        if isinstance(a, (float, SFloat, int, SInt)) and isinstance(b, (float, SFloat, int, SInt)):
            if isinstance(a, (int, float)) and isinstance(b, (int, float)): return real_cmp(op, a, b)
            return self.float_cmp(I, op, a, b)
        if isinstance(a, LITS) and isinstance(b, type(a)): return real_cmp(op, a, b)
        if isstr(a) and isstr(b) or isbytes(a) and isbytes(b):
            lt = F('lexlt', 'SS>B')
            x, y = I.ctx.term(a), I.ctx.term(b)
            e = bt(I.ctx.eq(a, b))
            I.ctx.assume(z3.And(z3.Not(z3.And(lt(x, y), lt(y, x))), z3.Implies(e, z3.Not(lt(x, y))), z3.Or(e, lt(x, y), lt(y, x))))
            return {'Lt': lt(x, y), 'Gt': lt(y, x), 'LtE': z3.Or(lt(x, y), e), 'GtE': z3.Or(lt(y, x), e)}[op]
        if isinstance(a, Opaque) and isinstance(b, Opaque) and a.kind == b.kind == 'datetime':
            ts = F('ts', 'A>I')
            return real_cmp(op, ts(a.t), ts(b.t))
        if isinstance(a, Opaque) and isinstance(b, Opaque) and a.kind == b.kind == 'natkey':
            return natcmp(I, op, a.t, b.t)
        if isinstance(a, Opaque) and isinstance(b, Opaque) and a.kind == b.kind == 'timedelta':
            return real_cmp(op, a.t, b.t)
        if isinstance(a, (list, tuple)) and type(a) is type(b): return self.seq_cmp(I, op, list(a), list(b))
        if isinstance(a, Obj):
            m = {'Lt': '__lt__', 'LtE': '__le__', 'Gt': '__gt__', 'GtE': '__ge__'}[op]
            f = a.cls.find(m)
            if f is not MISSING: return I.truth(I.call(Bound(a, f), [b], {}))
        simple = (type(None), bool, int, float, SInt, SBool, SFloat, str, bytes, SRope, list, tuple, PDict, SymDict, SymList)
        if isinstance(a, simple) and isinstance(b, simple): raise I.exc(TypeError, 'not supported between instances')
        raise Unsupported('comparison %s of %r and %r' % (op, a, b))
    def seq_cmp(self, I, op, a, b):
        for x, y in zip(a, b):
            if not I.test(self.equal(I, x, y)): return self.compare(I, op, x, y)
        return real_cmp(op, len(a), len(b))
    def identical(self, I, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, SJson):
                if y is None: return x.narrow(I, ('null',))
                if y is True or y is False: return I.ctx.branch(bt(self.equal(I, x, y))) if x.narrow(I, ('bool',)) else False
                return x is y
        if a is POISON or b is POISON: return I.ctx.fresh('poison', 'B') if I.ctx.data.get('poison_branch') else self._up()
        for x, y in ((a, b), (b, a)):
            if y is None or isinstance(y, (ClassVal, bool)) or y is NotImplemented:
                if isinstance(x, SBool) and isinstance(y, bool): return x.t if y else z3.Not(x.t)
                if isinstance(y, bool): return x is y
                return x is y
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            if a.kind != b.kind or a.t.sort() != b.t.sort(): return False
            # different objects may be equal
            r = I.ctx.fresh('same', 'B'); I.ctx.assume(z3.Implies(r, a.t == b.t))
            I.ctx.note('identity of equal objects')
            return r
        if isinstance(a, (Obj, list, PDict, PSet, FuncVal, SymList, SymDict)) or isinstance(b, (Obj, list, PDict, PSet, FuncVal, SymList, SymDict)): return a is b
        raise Unsupported('identity of values')
    def _up(self): raise Unsupported('decision on unconstrained loop state')
    def equal(self, I, a, b):
        """bool or z3 Bool"""
        a, b = self.force(I, a), self.force(I, b)
        if a is b and not isinstance(a, (SFloat, float)): return True
        if a is POISON or b is POISON:
            return I.ctx.fresh('poison', 'B') if I.ctx.data.get('poison_branch') else self._up()
        if isinstance(a, SplitVal): a = a.all(I)
        if isinstance(b, SplitVal): b = b.all(I)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Obj):
                f = x.cls.find('__eq__')
                if f is not MISSING and not isinstance(f, Builtin):
                    r = I.call(Bound(x, f), [y], {})
                    if r is NotImplemented: continue
                    return I.truth(r)
        if isinstance(a, Obj) or isinstance(b, Obj): return a is b
        if isstr(a) and isstr(b) or isbytes(a) and isbytes(b): return I.ctx.eq(a, b)
        if isnum(a) and isnum(b):
            if isbool(a) and isbool(b): return a == b if isinstance(a, bool) and isinstance(b, bool) else bt(a) == bt(b)
            r = it(a) == it(b)
            return r
        if isinstance(a, (float, SFloat)) and (isnum(b) or isinstance(b, (float, SFloat))) or isinstance(b, (float, SFloat)) and isnum(a):
            if isinstance(a, (int, float)) and isinstance(b, (int, float)): return a == b
            return self.float_cmp(I, 'Eq', a, b)
        if a is None or b is None: return False
        if isinstance(a, (list, tuple)) and type(a) is type(b):
            if len(a) != len(b): return False
            return conj([bt(self.equal(I, x, y)) if not isinstance(self.equal(I, x, y), bool) else self.equal(I, x, y) for x, y in zip(a, b)])
        if isinstance(a, PDict) and isinstance(b, PDict): return self.dict_eq(I, a, b)
        if isinstance(a, PSet) and isinstance(b, PSet): return self.set_eq(I, a, b)
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            if a.kind == b.kind == 'natkey': return natcmp(I, 'Eq', a.t, b.t)
            return a.t == b.t if a.kind == b.kind and a.t.sort() == b.t.sort() else False
        if isinstance(a, ClassVal) or isinstance(b, ClassVal): return a is b
        ta, tb = I.typeof(a), I.typeof(b)
        if ta is not tb: return False
        if isinstance(a, (SymList, SymDict)) or isinstance(b, (SymList, SymDict)):
            return I.ctx.fresh('jsoneq', 'B')
        raise Unsupported('equality of %r and %r' % (a, b))
    def dict_eq(self, I, a, b):
        if a.base is not None or b.base is not None:
            if a.base is b.base and len(a.order) == len(b.order) == 0: return True
            raise Unsupported('comparison of symbolic dictionaries')
        if len(a.order) != len(b.order): return False
        if a.nsym or b.nsym:
            if all(x[0] is y[0] or (isstr(x[0]) and isstr(y[0]) and I.ctx.eq(x[0], y[0]) is True) for x, y in zip(a.order, b.order)):
                return conj([self.equal(I, x[1], y[1]) for x, y in zip(a.order, b.order)])
            raise Unsupported('comparison of dictionaries with symbolic keys')
        cs = []
        for k, v in a.order:
            w = b.raw(k)
            if w is MISSING: return False
            cs.append(self.equal(I, v, w))
        return conj(cs)
    # -- containers
    def contains(self, I, c, x):
        c = self.force(I, c)
        if c is POISON: return I.ctx.fresh('poison', 'B') if I.ctx.data.get('poison_branch') else self._up()
        if isstr(c) or isbytes(c):
            x = self.force(I, x)
            if isstr(c) != isstr(x) and not (isbytes(c) and isnum(x)): raise I.exc(TypeError, "'in <string>' requires string as left operand")
            sub = I.ctx.conc(x)
            if sub is None: raise Unsupported('substring test')
            if not len(sub): return True
            s = sub if isinstance(sub, str) else sub.decode('latin-1')
            return I.ctx.member(c, L.containing(s), 'contains %r' % s)
        if isinstance(c, SplitVal): c = c.all(I)
        if isinstance(c, (list, tuple)):
            return disj([self.equal(I, x, y) if y is not x else True for y in c])
        if isinstance(c, PDict):
            self.hashable(I, x)
            return self.dict_find(I, c, x) is not None
        if isinstance(c, PSet):
            self.hashable(I, x)
            cs = [self.equal(I, x, y) for y in c.items]
            if c.base is not None: cs.append(c.base(I, x))
            return disj(cs)
        if isinstance(c, SymDict):
            x = self.force(I, x)
            self.hashable(I, x)
            return c.has(I, x)[1]
        if isinstance(c, Range):
            if isinstance(c.s, int) and c.s == 1 and isnum(x): return conj([real_cmp('LtE', it(c.a), it(x)), real_cmp('Lt', it(x), it(c.b))])
        if isinstance(c, Obj):
            f = c.cls.find('__contains__')
            if f is not MISSING: return I.truth(I.call(Bound(c, f), [x], {}))
            if c.cls.find('__iter__') is not MISSING: return disj([self.equal(I, x, y) for y in I.iterate(c)])
        if isinstance(c, Gen): return disj([self.equal(I, x, y) for y in I.iterate(c)])
        if isinstance(c, (type(None), int, float, bool, SInt, SBool, SFloat)): raise I.exc(TypeError, 'argument of type is not iterable')
        if isinstance(c, SymList): return I.ctx.fresh('inlist', 'B')
        if isinstance(c, Ext) and c.kind == 'dictview': return self.contains(I, c.d, x)
        raise Unsupported('containment in %r' % (c,))
    def hashable(self, I, k):
        k = self.force(I, k)
        if isinstance(k, (list, PDict, PSet, SymList, SymDict)): raise I.exc(TypeError, 'unhashable type')
        if isinstance(k, tuple):
            for x in k: self.hashable(I, x)
        return k
    def dict_find(self, I, d, k):
        """entry list [k, v] or None; forks on symbolic equality"""
        k = self.force(I, k)
        if isconc(k) and not d.nsym:
            e = d.d.get(ckey(k))
            if e is not None: return e
        else:
            for e in reversed(d.order):
                t = self.equal(I, e[0], k)
                if t is True: return e
                if t is False: continue
                if I.ctx.branch(t, 'same key'): return e
        if d.base is not None:
            h = d.base.has(I, k)
            if I.test(mkbool(h) if not isinstance(h, bool) else h, 'key present'):
                e = [k, d.base.get(I, k)]
                # remember so that identity is stable
                d.order.append(e)
                if isconc(k): d.d[ckey(k)] = e
                else: d.nsym += 1
                e.append('base'); e.append(list(e[1].attrs.items()) if isinstance(e[1], Obj) else None)
                return e
        return None
    def dict_items(self, I, d):
        d = self.force(I, d)
        if isinstance(d, PDict):
            if d.base is not None: return seqmod.dictseq(I, d, 'items')
            return d.items()
        if isinstance(d, SymDict): return d.pairs(I)
        raise Unsupported('items of %r' % (d,))
    def set_add(self, I, s, x):
        self.hashable(I, x)
        if any(y is x or self.equal(I, x, y) is True for y in s.items): return
        s.items.append(x)
    def set_eq(self, I, a, b):
        """same set: decided when bases agree and the added elements do"""
        if a.base is not b.base:
            raise Unsupported('comparison of symbolic sets')
        def inc(x, s):
            cs = [self.equal(I, x, y) for y in s.items]
            if s.base is not None: cs.append(s.base(I, x))
            return disj(cs)
        return conj([inc(x, b) for x in a.items] + [inc(x, a) for x in b.items])
    def set_op(self, I, op, a, b):
        if op == 'BitOr' and b.base is None:
            n = a.copy()
            for x in b.items: self.set_add(I, n, x)
            return n
        raise Unsupported('set operation')
    def unpack(self, I, v, n):
        v = self.force(I, v)
        if v is POISON: return [POISON] * n
        if isinstance(v, SplitVal):
            cnt = v.count(I)
            if not I.test(I.compare('Eq', cnt, n), 'unpack'): raise I.exc(ValueError, 'unpack')
            return list(v.all(I))
        if isinstance(v, (type(None), int, float, SInt, SBool, SFloat, bool)): raise I.exc(TypeError, 'cannot unpack')
        if isinstance(v, SymList):
            if not I.test(I.compare('Eq', v.n, n), 'unpack'): raise I.exc(ValueError, 'unpack')
            return [v.item(i) for i in range(n)]
        vs = list(itertools.islice(I.iterate(v), n + 1))
        if len(vs) != n: raise I.exc(ValueError, 'not enough/too many values to unpack')
        return vs
    def byteat(self, I, x, i):
        t = F('byteat', 'SI>I')(x, z3.IntVal(i))
        I.ctx.once(('byteat', t.get_id()), z3.And(t >= 0, t < 256))
        return SInt(t)
    def iterate(self, I, v):
        v = self.force(I, v)
        if isinstance(v, SplitVal): return iter(v.all(I))
        if isinstance(v, (list, tuple, Gen)): return I.iterate(v)
        if isinstance(v, Range):
            if all(isinstance(x, int) for x in (v.a, v.b, v.s)): return iter(range(v.a, v.b, v.s))
            if isinstance(v.a, int) and isinstance(v.s, int): return self.symrange(I, v)
            raise Unsupported('range')
        if isinstance(v, PDict): return iter(v.keys()) if v.base is None else seqmod.iterate(I, seqmod.dictseq(I, v, 'keys'))
        if isinstance(v, PSet): return iter(list(v.items)) if v.base is None else self._un('arbitrary set')
        if isinstance(v, str): return iter(v)
        if isinstance(v, bytes): return iter(v)
        if isinstance(v, SRope): return self.iter_rope(I, v)
        if isinstance(v, SymList): return self.iter_symlist(I, v)
        if isinstance(v, SymDict): return self.iter_symlist(I, SymList(I, 'keys', lambda nm: v.pairs(I).item(nm[5:-1])[0], v.n))
        if isinstance(v, Seq): return seqmod.iterate(I, v)
        if isinstance(v, Ext) and hasattr(v, 'iter'): return v.iter(I)
        if isinstance(v, (type(None), int, float, bool, SInt, SBool, SFloat)): raise I.exc(TypeError, 'object is not iterable')
        if v is POISON: raise Unsupported('iteration over unconstrained loop state')
        raise Unsupported('iteration over %r' % (v,))
    def _un(self, m): raise Unsupported('iteration over ' + m)
    def symrange(self, I, v):
        i = v.a; n = 0
        while I.test(I.compare('Lt' if v.s > 0 else 'Gt', i, v.b), 'range'):
            yield i
            i = i + v.s; n += 1
            if 'unroll' in I.ctx.data and n > I.ctx.data['unroll']: I.ctx.data['bounded'] = True; raise Infeasible()
            if n > 40: raise Unsupported('loop bound')
    def iter_rope(self, I, v):
        """fixed-length byte strings only"""
        n = I.ctx.length(v)
        if not isinstance(n, int):
            m = I.ctx.solver
            for k in (32, 8, 16, 64):
                if I.ctx.implied(n.t == k): n = k; break
            else: raise Unsupported('iteration over symbolic text')
        x = I.ctx.term(v)
        for i in range(n):
            if isbytes(v): yield self.byteat(I, x, i)
            else: yield SStr([I.ctx.atom(F('charat', 'SI>S')(x, z3.IntVal(i)), L.anylen(1, 1))])
    def iter_symlist(self, I, v):
        lim = I.ctx.data.get('unroll_list')
        if lim is None: raise Unsupported('iteration over a list of unknown length')
        i = 0
        while I.test(I.compare('Lt', i, v.n), 'list length'):
            if i >= lim: I.ctx.data['bounded'] = True; raise Infeasible()
            yield v.item(i); i += 1

    # -------------------------------------------- subscripts
    def index(self, I, k, what):
        k = self.force(I, k)
        if not isnum(k): raise I.exc(TypeError, what + ' indices must be integers')
        return k
    def getitem(self, I, o, k):
        o = self.force(I, o)
        c = I.ctx
        if o is POISON: return POISON
        if isinstance(o, PDict):
            self.hashable(I, k)
            e = self.dict_find(I, o, k)
            if e is None: raise I.exc(KeyError, k)
            return e[1]
        if isinstance(o, SymDict):
            k = self.hashable(I, k)
            e = o.has(I, k)
            if not e[1]: raise I.exc(KeyError, k)
            return e[2]
        if isinstance(o, Seq): return seqmod.getitem(I, o, k)
        if isinstance(o, Ext) and hasattr(o, 'getitem'): return o.getitem(I, k)
        if isinstance(k, slice): return self.getslice(I, o, k)
        if isinstance(o, SplitVal):
            k = self.index(I, k, 'list')
            if not isinstance(k, int): raise Unsupported('symbolic index')
            return o.get(I, k)
        if isinstance(o, (list, tuple)):
            k = self.index(I, k, 'list')
            if isinstance(k, (SInt, SBool)):
                i = c.choose([it(k) == j for j in range(-len(o), len(o))] + [z3.Or(iz(k) < -len(o), iz(k) >= len(o))], 'index') - len(o)
                if i == len(o): raise I.exc(IndexError, 'list index out of range')
                return o[i]
            if not -len(o) <= k < len(o): raise I.exc(IndexError, 'list index out of range')
            return o[k]
        if isinstance(o, SymList):
            k = self.index(I, k, 'list')
            inb = z3.And(iz(k) >= -iz(o.n), iz(k) < iz(o.n))
            if not c.branch(inb, 'index'): raise I.exc(IndexError, 'list index out of range')
            if isinstance(k, int) and k < 0: return o.item('n%d' % k)
            return o.item(k if isinstance(k, int) else 'at' + str(z3.simplify(k.t)))
        if isstr(o) or isbytes(o):
            k = self.index(I, k, 'string')
            v = c.conc(o)
            if v is not None and isinstance(k, int):
                if not -len(v) <= k < len(v): raise I.exc(IndexError, 'string index out of range')
                return v[k]
            if not isinstance(k, int): raise Unsupported('symbolic index')
            n = iz(c.length(o))
            if not c.branch(n > k if k >= 0 else n >= -k, 'index'): raise I.exc(IndexError, 'string index out of range')
            ps = c.parts(o)
            if k == 0 and isinstance(ps[0], LITS): return ps[0][0]
            if k == -1 and isinstance(ps[-1], LITS): return ps[-1][-1]
            if k == 0 and len(ps) == 1 and isstr(o):
                t = F('charat', 'SI>S')(ps[0], z3.IntVal(0))
                hd = L.cut(c.dom_of(ps[0]), 1)[0]
                c.atom(t, hd, ('char', ps[0]))
                return SStr([t])
            if isstr(o):
                s = self.getslice(I, o, slice(k, k + 1 if k != -1 else None, None))
                return s
            return self.byteat(I, c.term(o), k)
        if isinstance(o, Ext) and hasattr(o, 'getitem'): return o.getitem(I, k)
        if isinstance(o, (type(None), int, float, bool, SInt, SBool, SFloat)): raise I.exc(TypeError, 'object is not subscriptable')
        raise Unsupported('subscript of %r' % (o,))
    def getslice(self, I, o, s):
        c = I.ctx
        if isinstance(o, SplitVal): o = o.all(I)
        lo, hi, st = [self.force(I, x) for x in (s.start, s.stop, s.step)]
        if isinstance(o, SymList):
            if hi is None and st is None and isinstance(lo, int) and lo >= 0:
                return SymList(I, o.name + '[%d:]' % lo, o.elem, mkint(z3.If(iz(o.n) > lo, iz(o.n) - lo, 0)))
            raise Unsupported('slice of symbolic list')
        if any(not (x is None or isinstance(x, int)) for x in (lo, hi, st)):
            if (isstr(o) or isbytes(o)) and st is None and isinstance(lo, SInt) and isinstance(hi, SInt) and c.implied(z3.And(lo.t >= 0, hi.t >= 0)):
                # the part of a text between two positions
                t = F('substr', 'SII>S')(c.term(o), z3.simplify(lo.t), z3.simplify(hi.t))
                c.atom(t, L.NOSURR if isstr(o) and c.parts(o) and all(not isinstance(p, str) and L.subset(c.dom_of(p), L.NOSURR) for p in c.parts(o)) else None, ('substr', o, lo.t, hi.t))
                return (SStr if isstr(o) else SBytes)([t])
            raise Unsupported('symbolic slice')
        if isinstance(o, (list, tuple)): return o[lo:hi:st]
        v = c.conc(o)
        if v is not None: return v[lo:hi:st]
        if st not in (None, 1): raise Unsupported('slice step')
        T = type(o)
        # resolve front
        def front(v, k):
            """(first k characters, rest); forks on shorter texts"""
            ps = c.parts(v); head = []
            while k > 0:
                if not ps: return T(head), T(ps), False
                p = ps[0]
                if isinstance(p, LITS):
                    n = min(k, len(p)); head.append(p[:n]); k -= n
                    ps[0] = p[n:]
                    if not len(ps[0]): ps.pop(0)
                    continue
                if c.dom_of(p).maxlen() is not None and c.dom_of(p).minlen() == c.dom_of(p).maxlen() and c.dom_of(p).minlen() <= k:
                    head.append(p); k -= c.dom_of(p).minlen(); ps.pop(0); continue
                if not c.branch(LEN(p) >= k, 'length'):
                    if len(ps) == 1: return T(head + ps), T([]), False
                    j = c.choose([LEN(p) == x for x in range(k)], 'length')
                    c.restrict(p, L.anylen(j, j))
                    head += c.parts(T([p])); ps.pop(0); k -= j; continue
                c.restrict(p, L.anylen(k))
                q = c.parts(T([p]))
                if len(q) != 1 or q[0] is not p and not (hasattr(q[0], 'eq') and q[0].eq(p)): ps[:1] = q; continue
                h, r = c.split_at(p, k)
                head.append(h); ps[0] = r; k = 0
            return T(head), T(ps), True
        def back(v, k):
            ps = c.parts(v); tail = []
            while k > 0:
                if not ps: return T(ps), T(tail), False
                p = ps[-1]
                if isinstance(p, LITS):
                    n = min(k, len(p)); tail.insert(0, p[len(p) - n:]); k -= n
                    ps[-1] = p[:len(p) - n]
                    if not len(ps[-1]): ps.pop()
                    continue
                if not c.branch(LEN(p) >= k, 'length'):
                    if len(ps) == 1: return T([]), T(ps + tail), False
                    raise Unsupported('slice over short text')
                c.restrict(p, L.anylen(k))
                q = c.parts(T([p]))
                if len(q) != 1 or not (hasattr(q[0], 'eq') and q[0].eq(p)): ps[-1:] = q; continue
                h, r = c.split_end(p, k)
                ps[-1] = h; tail.insert(0, r); k = 0
            return T(ps), T(tail), True
        cur = o
        if hi is not None and hi >= 0 and (lo is None or lo >= 0):
            cur = front(cur, hi)[0]
            if lo: cur = front(cur, lo)[1]
        else:
            if lo is not None and lo > 0: cur = front(cur, lo)[1]
            if hi is not None and hi < 0: cur = back(cur, -hi)[0]
            if lo is not None and lo < 0:
                cur = back(cur, -lo)[1]
        return c.norm(cur)
    def setitem(self, I, o, k, v):
        o = self.force(I, o)
        if isinstance(o, PDict):
            k = self.hashable(I, k)
            if o.base is not None:
                e = None
                for x in reversed(o.order):
                    t = self.equal(I, x[0], k)
                    if t is True or t is not False and I.ctx.branch(t, 'same key'): e = x; break
            else: e = self.dict_find(I, o, k)
            if e is not None: e[1:] = [v]; return
            e = [k, v]; o.order.append(e)
            if isconc(k): o.d[ckey(k)] = e
            else: o.nsym += 1
            return
        if isinstance(o, list):
            k = self.index(I, k, 'list')
            if isinstance(k, int):
                if not -len(o) <= k < len(o): raise I.exc(IndexError, 'list assignment index out of range')
                o[k] = v; return
            i = I.ctx.choose([it(k) == j for j in range(-len(o), len(o))] + [z3.Or(iz(k) < -len(o), iz(k) >= len(o))], 'index') - len(o)
            if i == len(o): raise I.exc(IndexError, 'list assignment index out of range')
            o[i] = v; return
        if isinstance(o, SplitVal):
            if not isinstance(k, int): raise Unsupported('symbolic index')
            o.get(I, k); o.items[k] = v; return
        if isinstance(o, SymDict): o.extra.append((k, v)); raise Unsupported('write to symbolic dictionary')
        if isinstance(o, Seq): return seqmod.setitem(I, o, k, v)
        if o is POISON: raise Unsupported('write to unconstrained loop state')
        raise Unsupported('item assignment on %r' % (o,))
    def delitem(self, I, o, k):
        if isinstance(o, seqmod.MSeq):
            if isinstance(k, slice) and k.start in (None, 0) and k.stop is None and k.step is None: o.clear(); return
            if isinstance(k, int) and k == -1: o.pop(I); return
            raise Unsupported('deletion from a list')
        if isinstance(o, list):
            if isinstance(k, slice): del o[k]; return
            if not -len(o) <= k < len(o): raise I.exc(IndexError, 'x')
            del o[k]; return
        if isinstance(o, PDict):
            e = self.dict_find(I, o, k)
            if e is None: raise I.exc(KeyError, k)
            o.order.remove(e)
            if isconc(e[0]): o.d.pop(ckey(e[0]), None)
            else: o.nsym -= 1
            if o.base is not None:
                b = o.base
                kk = e[0]
                o.base = SymMap(lambda I, x, b=b, kk=kk: conj([neg(bt(I.models.equal(I, x, kk))), bt(b.has(I, x))]), b.get)
            return
        raise Unsupported('del of %r' % (o,))

    # -------------------------------------------- attributes and methods
    def obj_attr(self, I, o, n):
        if n == '__eq__': return MISSING
        if n == 'message' and False: return MISSING
        return MISSING
    def class_attr(self, I, c, n):
        from . import libs
        return libs.class_attr(self, I, c, n)
    def super_attr(self, I, s, n):
        if n == '__init__': return Builtin('object.__init__', lambda I, a, k: None)
        return MISSING
    def setattr(self, I, o, n, v):
        if o is POISON: raise Unsupported('write to unconstrained loop state')
        if isinstance(o, Ext): o.__dict__[n] = v; return
        raise I.exc(AttributeError, n)
    def attr(self, I, o, n):
        o = self.force(I, o)
        if o is POISON: return POISON
        kind = None
        if isinstance(o, Seq):
            if n == 'append' and isinstance(o, seqmod.MSeq): return Bound(o, Builtin('append', lambda I, a, k: a[0].append(I, a[1])))
            if n == 'pop' and isinstance(o, seqmod.MSeq): return Bound(o, Builtin('pop', self.m_list_pop))
            if n in ('copy', 'clear') and isinstance(o, seqmod.MSeq): return Bound(o, Builtin(n, lambda I, a, k: getattr(a[0], n)()))
            if n == 'extend' and isinstance(o, seqmod.MSeq): return Bound(o, Builtin('extend', lambda I, a, k: a[0].extend(I, a[1])))
            if hasattr(list, n): raise Unsupported('list.%s' % n)
            return MISSING
        if isstr(o): kind = 'str'
        elif isbytes(o): kind = 'bytes'
        elif isinstance(o, (list, SymList, SplitVal)): kind = 'list'
        elif isinstance(o, PDict) or isinstance(o, SymDict): kind = 'dict'
        elif isinstance(o, PSet): kind = 'set'
        elif isinstance(o, tuple): kind = 'tuple'
        elif isnum(o): kind = 'int'
        elif isinstance(o, (float, SFloat)): kind = 'float'
        elif isinstance(o, Gen): kind = 'gen'
        elif o is None: return MISSING
        if kind:
            m = getattr(self, 'm_%s_%s' % (kind, n), None)
            if m is not None: return Bound(o, Builtin('%s.%s' % (kind, n), m))
            if n == '__class__': return I.typeof(o)
            py = {'str': str, 'bytes': bytes, 'list': list, 'dict': dict, 'set': set, 'tuple': tuple, 'int': int, 'float': float, 'gen': types.GeneratorType}[kind]
            if hasattr(py, n): raise Unsupported('%s.%s' % (kind, n))
            return MISSING
        from . import libs
        return libs.attr(self, I, o, n)
    def call(self, I, f, args, kw):
        f = self.force(I, f)
        if f is None or isinstance(f, (int, str, bytes, list, tuple, PDict)) or isinstance(f, Sym): raise I.exc(TypeError, 'object is not callable')
        raise Unsupported('call of %r' % (f,))

    # -- str / bytes methods
    def conc_call(self, I, name, o, a, k):
        """runs the real method when everything is concrete"""
        c = I.ctx
        ov = c.conc(o) if (isstr(o) or isbytes(o)) else o
        av = [c.conc(x) if isinstance(x, SRope) else self.force(I, x) for x in a]
        if ov is None: return MISSING
        def ok(x): return x is None or isinstance(x, (str, bytes, int)) or isinstance(x, tuple) and all(ok(y) for y in x)
        if not all(ok(x) for x in av) or any(x is None and y is not None for x, y in zip(av, a)): return MISSING
        try: r = getattr(ov, name)(*av, **k)
        except Exception as e: raise I.exc(type(e), str(e))
        return r
    def m_str_encode(self, I, a, k):
        return encode(I, a[0], *(a[1:] or [k.get('encoding', 'utf-8')]))
    def m_bytes_decode(self, I, a, k):
        return decode(I, a[0], *(a[1:] or [k.get('encoding', 'utf-8')]))
    def m_str_split(self, I, a, k):
        c = I.ctx
        r = self.conc_call(I, 'split', a[0], a[1:], k)
        if r is not MISSING: return r
        if len(a) != 2 or k: raise Unsupported('split')
        sep = c.conc(a[1])
        if sep is None or len(sep) != 1: raise Unsupported('split separator')
        if isstr(a[0]) != isstr(sep): raise I.exc(TypeError, 'must be str or None')
        T = SStr if isstr(a[0]) else SBytes
        sv = SplitVal(T, sep, a[0])
        if all(isinstance(p, LITS) or not c.may(p, sep) for p in c.parts(a[0])): return list(sv.all(I))
        return sv
    m_bytes_split = m_str_split
    def m_str_join(self, I, a, k):
        c = I.ctx
        a[1] = self.force(I, a[1])
        if isinstance(a[1], Seq) and not isinstance(a[1].n, int):
            r = seqmod.joined(I, a[0], a[1])
            if r is not None: return r
        if isinstance(a[1], ManyStr):
            sep = c.conc(a[0])
            if sep is None or len(sep) != 1: raise Unsupported('join')
            t = c.atom(c.fresh('joined', 'S'))
            sp = sep if isinstance(sep, str) else sep.decode('latin-1')
            if sp not in c.seps: c.seps.append(sp)
            c.assume(F('nsep!%d' % ord(sp), 'S>I')(t) >= iz(a[1].n) - 1); c.assume(LEN(t) >= iz(a[1].n) - 1)
            return (SStr if isstr(a[0]) else SBytes)([t])
        xs = list(I.iterate(a[1]))
        T = isstr(a[0])
        for x in xs:
            x = self.force(I, x)
            if (isstr(x) if T else isbytes(x)) is False: raise I.exc(TypeError, 'sequence item: expected str instance')
        if not xs: return '' if T else b''
        out = [self.force(I, xs[0])]
        for x in xs[1:]: out += [a[0], self.force(I, x)]
        return c.cat(*out)
    m_bytes_join = m_str_join
    def m_str_replace(self, I, a, k):
        if len(a) != 3: raise Unsupported('replace')
        x, y, z = [self.force(I, v) for v in a]
        if isstr(x) != isstr(y) or isstr(x) != isstr(z): raise I.exc(TypeError, 'replace() argument must be str')
        return replace(I, x, y, z)
    m_bytes_replace = m_str_replace
    def m_str_format(self, I, a, k): return self.fmt(I, a[0], a[1:], k)
    def affix(self, I, a, f):
        c = I.ctx
        xs = a[1] if isinstance(a[1], tuple) else (a[1],)
        for x in xs:
            v = c.conc(x)
            if v is None: raise Unsupported('symbolic affix')
            if c.member(a[0], f(v if isinstance(v, str) else v.decode('latin-1')), 'affix'): return True
        return False
    def m_str_endswith(self, I, a, k): return self.affix(I, a, L.ending)
    def m_str_startswith(self, I, a, k): return self.affix(I, a, L.starting)
    m_bytes_endswith = m_str_endswith
    m_bytes_startswith = m_str_startswith
    def pred(name):
        def f(self, I, a, k):
            return I.ctx.member(a[0], L.all_pred(name), name)
        return f
    m_str_isdigit = pred('isdigit'); m_str_isdecimal = pred('isdecimal'); m_str_isalnum = pred('isalnum')
    m_str_isalpha = pred('isalpha'); m_str_isspace = pred('isspace'); m_str_isnumeric = pred('isnumeric')
    def case(name):
        def f(self, I, a, k):
            c = I.ctx
            r = self.conc_call(I, name, a[0], a[1:], k)
            if r is not MISSING: return r
            ps = c.parts(a[0])
            # unchanged if every possible character is
            def fix(p): return not L.iv_and(c.charset(p), L.iv_inv(L.fix_iv(name)))
            if all(fix(p) for p in ps): return a[0]
            t = F(name, 'S>S')(c.term(a[0]))
            cs = [c.charset(p) for p in ps]
            c.atom(t, tag=('case', name, ps[0]) if len(ps) == 1 else None)
            if all(hi <= 128 for iv in cs for lo, hi in iv):
                c.restrict(t, L.ASCII); c.assume(LEN(t) == iz(c.length(a[0])))
            return SStr([t])
        return f
    m_str_lower = case('lower'); m_str_upper = case('upper'); m_str_casefold = case('casefold')
    def m_str_isupper(self, I, a, k):
        r = self.conc_call(I, 'isupper', a[0], a[1:], k)
        if r is not MISSING: return r
        return mkbool(F('isupper', 'S>B')(I.ctx.term(a[0])))
    def m_str_strip(self, I, a, k, left=True, right=True):
        c = I.ctx
        name = 'strip' if left and right else 'lstrip' if left else 'rstrip'
        r = self.conc_call(I, name, a[0], a[1:], k)
        if r is not MISSING: return r
        chars = c.conc(a[1]) if len(a) > 1 and a[1] is not None else None
        iv = L.pred_iv('isspace') if chars is None and isstr(a[0]) else L.mk_iv(L.codes(chars if chars is not None else b' \t\n\r\f\v'))
        T = SStr if isstr(a[0]) else SBytes
        ps = c.parts(a[0])
        # a text strip() leaves alone?
        if c.may_member(a[0], stripped_lang(iv, left, right)): return a[0]
        # only the part before the first / after the last kept literal matters
        def keeps(p): return isinstance(p, LITS) and any(not L.iv_has(iv, x) for x in L.codes(p)) or not isinstance(p, LITS) and c.dom_of(p).minlen() > 0 and L.disjoint(c.dom_of(p), L.chars(iv))
        i = 0; j = len(ps)
        if left:
            while i < len(ps) and not keeps(ps[i]): i += 1
        if right:
            while j > 0 and not keeps(ps[j - 1]): j -= 1
        def edge(qs, l, r):
            """strips one run of parts on one side"""
            v = c.mk(T, qs)
            cv = c.conc(v)
            if cv is not None: return [getattr(cv, 'strip' if l and r else 'lstrip' if l else 'rstrip')(chars)]
            if c.may_member(v, stripped_lang(iv, l, r)): return c.parts(v)
            x = c.term(v)
            t = F('%s!%r' % ('strip' if l and r else 'lstrip' if l else 'rstrip', chars), 'S>S')(x)
            c.atom(t, stripped_lang(iv, l, r), ('strip', x, iv, l, r))
            c.assume(LEN(t) <= iz(c.length(v)))
            cs = c.lang_charset(qs)
            c.restrict(t, L.chars(cs))
            return [t]
        if left and right and (i == len(ps) or i + 1 >= j):
            return c.norm(T(edge(ps, True, True)))
        out = list(ps)
        if right: out[j - 1:] = edge(out[j - 1:], False, True)
        if left: out[:i + 1] = edge(out[:i + 1], True, False)
        return c.norm(T(out))
    def m_str_lstrip(self, I, a, k): return self.m_str_strip(I, a, k, True, False)
    def m_str_rstrip(self, I, a, k): return self.m_str_strip(I, a, k, False, True)
    m_bytes_strip = m_str_strip; m_bytes_lstrip = m_str_lstrip; m_bytes_rstrip = m_str_rstrip
    def m_str_count(self, I, a, k):
        r = self.conc_call(I, 'count', a[0], a[1:], k)
        if r is not MISSING: return r
        sep = I.ctx.conc(a[1])
        if sep is None or len(sep) != 1: raise Unsupported('count')
        sv = SplitVal(SStr if isstr(a[0]) else SBytes, sep, a[0])
        return self.binop(I, 'Sub', sv.count(I), 1)
    def m_str_partition(self, I, a, k):
        c = I.ctx
        sep = c.conc(a[1])
        if sep is None or len(sep) != 1: raise Unsupported('partition')
        T = SStr if isstr(a[0]) else SBytes
        sv = SplitVal(T, sep, a[0])
        sv.peel(I)
        if sv.rest is None: return (sv.items[0], sep[:0], sep[:0])
        return (sv.items[0], sep, c.norm(sv.rest))
    def m_str_find(self, I, a, k):
        r = self.conc_call(I, 'find', a[0], a[1:], k)
        if r is not MISSING: return r
        c = I.ctx; sub = c.conc(a[1])
        if sub is None or len(a) > 2: raise Unsupported('find')
        if not c.member(a[0], L.containing(sub), 'contains'): return -1
        n = c.fresh('find'); c.assume(z3.And(n >= 0, n + len(sub) <= iz(c.length(a[0])))); return SInt(n)
    def m_str_splitlines(self, I, a, k):
        r = self.conc_call(I, 'splitlines', a[0], a[1:], k)
        if r is not MISSING: return r
        raise Unsupported('splitlines')
    def m_str_zfill(self, I, a, k):
        r = self.conc_call(I, 'zfill', a[0], a[1:], k)
        if r is not MISSING: return r
        raise Unsupported('zfill')
    # -- int / float methods
    def m_int_to_bytes(self, I, a, k):
        n = a[0]; size = a[1] if len(a) > 1 else k.get('length', 1)
        order = a[2] if len(a) > 2 else k.get('byteorder', 'big'); signed = k.get('signed', False)
        if isinstance(size, SInt): size = self.concretize(I, size, 0, 40)
        if isinstance(n, int):
            try: return n.to_bytes(size, order, signed=signed)
            except OverflowError as e: raise I.exc(OverflowError, str(e))
        if not isinstance(size, int) or size < 0: raise I.exc(ValueError, 'x')
        lo, hi = (-(1 << 8 * size - 1), 1 << 8 * size - 1) if signed else (0, 1 << 8 * size)
        if not I.ctx.branch(z3.And(n.t >= lo, n.t < hi), 'fits'): raise I.exc(OverflowError, 'int too big to convert')
        t = F('tobytes!%s!%s' % (order, signed), 'II>S')(n.t, z3.IntVal(size))
        I.ctx.atom(t, L.chars(((0, 256),), size, size), ('tobytes', n, size, order, signed))
        return SBytes([t])
    def m_list_append(self, I, a, k):
        if isinstance(a[0], SymList): a[0].dirty = True; a[0].n = mkint(iz(a[0].n) + 1); return None
        if isinstance(a[0], SplitVal): a[0].all(I); a[0].items.append(a[1]); return None
        a[0].append(a[1])
    def m_list_extend(self, I, a, k):
        for x in list(I.iterate(a[1])): a[0].append(x)
    def m_list_insert(self, I, a, k):
        if isinstance(a[0], list) and isinstance(a[1], int): a[0].insert(a[1], a[2])
        else: raise Unsupported('insert')
    def m_list_pop(self, I, a, k):
        l = a[0]
        if isinstance(l, SplitVal): l.all(I); l = l.items
        if isinstance(l, MSeq) and (len(a) == 1 or isinstance(a[1], int) and a[1] == -1): return l.pop(I)
        if not isinstance(l, list): raise Unsupported('pop')
        if not l: raise I.exc(IndexError, 'pop from empty list')
        return l.pop(*a[1:])
    def m_list_reverse(self, I, a, k): a[0].reverse()
    def m_list_copy(self, I, a, k): return list(a[0])
    def m_list_clear(self, I, a, k): del a[0][:]
    def m_list_index(self, I, a, k):
        for i, x in enumerate(a[0]):
            if I.test(self.equal(I, x, a[1])): return i
        raise I.exc(ValueError, 'x is not in list')
    def m_dict_keys(self, I, a, k):
        d = a[0]
        if isinstance(d, PDict) and d.base is None: return d.keys()
        if isinstance(d, SymDict): return Ext('dictview', d=d, iter=lambda I: self.iterate(I, d))
        if isinstance(d, PDict): return Ext('dictview', d=d, iter=lambda I: seqmod.iterate(I, seqmod.dictseq(I, d, 'keys')))
        raise Unsupported('keys')
    def m_dict_values(self, I, a, k):
        d = a[0]
        if isinstance(d, PDict) and d.base is None: return [v for _, v in d.items()]
        if isinstance(d, PDict): return seqmod.dictseq(I, d, 'values')
        raise Unsupported('values')
    def m_dict_items(self, I, a, k):
        d = a[0]
        if isinstance(d, SymDict):
            return d.pairs(I)
        r = self.dict_items(I, d)
        return r if isinstance(r, Seq) else [(x, y) for x, y in r]
    def m_dict_get(self, I, a, k):
        d, key = a[0], a[1]
        dv = a[2] if len(a) > 2 else None
        if isinstance(d, SymDict):
            e = d.has(I, self.hashable(I, key)); return e[2] if e[1] else dv
        e = self.dict_find(I, d, self.hashable(I, key))
        return e[1] if e is not None else dv
    def m_dict_pop(self, I, a, k):
        d, key = a[0], a[1]
        e = self.dict_find(I, d, key)
        if e is None:
            if len(a) > 2: return a[2]
            raise I.exc(KeyError, key)
        self.delitem(I, d, key)
        return e[1]
    def m_dict_setdefault(self, I, a, k):
        e = self.dict_find(I, a[0], a[1])
        if e is not None: return e[1]
        self.setitem(I, a[0], a[1], a[2] if len(a) > 2 else None)
        return a[2] if len(a) > 2 else None
    def m_dict_update(self, I, a, k):
        if len(a) > 1:
            src = self.force(I, a[1])
            for x, y in (self.dict_items(I, src) if isinstance(src, (PDict, SymDict)) else [self.unpack(I, e, 2) for e in I.iterate(src)]): self.setitem(I, a[0], x, y)
        for x, y in k.items(): self.setitem(I, a[0], x, y)
    def m_dict_copy(self, I, a, k): return a[0].copy()
    def m_set_add(self, I, a, k): self.set_add(I, a[0], a[1])
    def m_set_update(self, I, a, k):
        for x in list(I.iterate(a[1])): self.set_add(I, a[0], x)
    def m_set_copy(self, I, a, k): return a[0].copy()
    def m_set_discard(self, I, a, k):
        s = a[0]
        if s.base is not None: raise Unsupported('discard')
        for x in list(s.items):
            if I.test(self.equal(I, x, a[1])): s.items.remove(x)
    def m_gen_send(self, I, a, k): return I.next(a[0])
    def m_gen___next__(self, I, a, k): return I.next(a[0])
    def m_gen_close(self, I, a, k): a[0].done = True

    # -------------------------------------------- builtins
    def b_len(self, I, a, k):
        o = self.force(I, a[0])
        if isinstance(o, (list, tuple)): return len(o)
        if isstr(o) or isbytes(o): return I.ctx.length(o)
        if isinstance(o, SplitVal): return o.count(I)
        if isinstance(o, ManyStr): return o.n
        if isinstance(o, (SymList, SymDict, Seq)): return o.n
        if isinstance(o, PDict) and o.base is None and not o.nsym: return len(o.order)
        if isinstance(o, PDict) and o.base is None: return len(o.order)
        if isinstance(o, PSet) and o.base is None: return len(o.items)
        if isinstance(o, Obj):
            f = o.cls.find('__len__')
            if f is not MISSING: return I.call(Bound(o, f), [], {})
            raise I.exc(TypeError, 'object has no len()')
        if isinstance(o, Range) and isinstance(o.a, int) and isinstance(o.b, int): return len(range(o.a, o.b, o.s))
        if o is POISON: return POISON
        if isinstance(o, (type(None), int, float, bool, SInt, SBool, SFloat, Gen)): raise I.exc(TypeError, 'object has no len()')
        if isinstance(o, Ext) and hasattr(o, 'n'): return o.n
        raise Unsupported('len of %r' % (o,))
    def b_isinstance(self, I, a, k):
        v, c = a
        cs = c if isinstance(c, tuple) else (c,)
        cs = [x for y in cs for x in (y if isinstance(y, tuple) else (y,))]
        if isinstance(v, SJson) and v.val is MISSING:
            ks = [kd for kd in v.kinds if any(I.pyclass(KTYPE[kd]).sub(x) for x in cs)]
            return v.narrow(I, ks)
        v = self.force(I, v)
        if v is POISON: return POISON
        from . import libs
        r = libs.isinstance_hook(self, I, v, cs)
        if r is not None: return r
        t = I.typeof(v)
        return any(t.sub(x) for x in cs)
    def b_issubclass(self, I, a, k):
        cs = a[1] if isinstance(a[1], tuple) else (a[1],)
        return any(a[0].sub(x) for x in cs)
    def b_range(self, I, a, k):
        a = [self.force(I, x) for x in a]
        for x in a:
            if not isnum(x): raise I.exc(TypeError, 'object cannot be interpreted as an integer')
        if len(a) == 1: return Range(0, a[0], 1)
        r = Range(a[0], a[1], a[2] if len(a) > 2 else 1)
        if r.s == 0 and isinstance(r.s, int): raise I.exc(ValueError, 'range() arg 3 must not be zero')
        if isinstance(r.s, SInt) and I.ctx.branch(r.s.t == 0, 'range step'): raise I.exc(ValueError, 'range() arg 3 must not be zero')
        return r
    def b_abs(self, I, a, k):
        v = self.force(I, a[0])
        if isinstance(v, (int, float)): return abs(v)
        if isinstance(v, SInt): return mkint(z3.If(v.t < 0, -v.t, v.t))
        if v is POISON: return v
        raise Unsupported('abs')
    def b_sum(self, I, a, k):
        r = a[1] if len(a) > 1 else 0
        v = a[0]
        q = v.seq if isinstance(v, Gen) and not (v.started or v.busy or v.done) else v
        if isinstance(q, Seq) and not isinstance(q.n, int) and I.ctx.data.get('lazycomp'):
            c = I.ctx
            if isinstance(v, Gen): v.done = True
            if getattr(q.root, 'sized', None):
                x = q.root.sized(I, q)
                if x is not None: return I.binop(ast.Add(), r, x)
            t = c.fresh('sum')
            c.data.setdefault('sums', []).append((t, q))
            if not c.branch(iz(q.n) > 0, 'elements'): c.assume(t == 0)
            else:
                j = c.fresh('el'); c.assume(z3.And(j >= 0, j < iz(q.n)))
                x = self.force(I, q.at(I, z3.simplify(j)))
                if not isint(x): raise Unsupported('sum of other values')
            return I.binop(ast.Add(), r, SInt(t)) if r != 0 else SInt(t)
        for x in I.iterate(a[0]): r = I.binop(ast.Add(), r, x)
        return r
    def b_map(self, I, a, k):
        f = a[0]
        if len(a) == 2:
            v = self.force(I, a[1])
            q = v if isinstance(v, Seq) else v.seq if type(v) is Gen and not (v.started or v.busy or v.done) else None
            if q is not None and not isinstance(q.n, int):
                from . import loops
                if isinstance(v, Gen): v.busy = True
                heap = loops.Heap(I, loops.visible([f.node], f.parent) if isinstance(f, FuncVal) and f.parent is not None else [f], [])
                rd = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name)} if isinstance(f, FuncVal) and f.parent is not None else ()
                vs = {n: y for n, y in f.parent.vars.items() if n in rd} if rd else {}
                def at(I, x, i):
                    if heap.changed() or any(f.parent.vars.get(n) is not y for n, y in vs.items()): raise Unsupported('lazy map after a change')
                    return I.call(f, [x], {})
                q = q.map(at, 'map')
                if I.ctx.data.get('genexp') == 'iterator': return seqmod.SeqIt(I, q)
                r = Gen(seqmod.iterate(I, q)); r.seq = q
                return r
        its = [I.iterate(x) for x in a[1:]]
        return Gen(I.call(f, list(xs), {}) for xs in zip(*its))
    def b_filter(self, I, a, k):
        f = a[0]
        return Gen(x for x in I.iterate(a[1]) if I.test(x if f is None else I.call(f, [x], {})))
    def b_zip(self, I, a, k):
        if I.ctx.data.get('longlists') and a:
            from . import loops
            vs = [self.force(I, x) for x in a]
            unk = lambda v: isinstance(v, Seq) and not isinstance(v.n, int) or isinstance(v, Gen) and v.seq is not None and isinstance(v.seq, Seq) and not isinstance(v.seq.n, int) or isinstance(v, seqmod.SeqIt)
            if any(unk(v) for v in vs):
                qs = [list(v) if isinstance(v, (list, tuple)) else v if isinstance(v, MSeq) else loops.toseq(I, v) for v in vs]
                if any(q is None for q in qs): raise Unsupported('zip')
                ns = [len(q) if isinstance(q, list) else q.n for q in qs]
                n = next(m for m in ns if not isinstance(m, int)) if any(not isinstance(m, int) for m in ns) else min(ns)
                if not all(I.ctx.implied(iz(m) == iz(n)) for m in ns): raise Unsupported('zip of different lengths')
                for v in vs:
                    if isinstance(v, Gen): v.busy = True
                heap = loops.Heap(I, [v for v in vs if isinstance(v, (list, MSeq))], [])
                def at(I, i):
                    if heap.changed(): raise Unsupported('zip of a list that changed')
                    return tuple(self.getitem(I, q, mkint(i)) if isinstance(q, list) else q.at(I, i) for q in qs)
                return seqmod.SeqIt(I, Seq(n, at, 'zip'))
        return Gen(zip(*[I.iterate(x) for x in a]))
    def b_enumerate(self, I, a, k):
        st = a[1] if len(a) > 1 else k.get('start', 0)
        v = self.force(I, a[0])
        if isinstance(v, Gen) and v.seq is not None and not (v.started or v.busy or v.done) and not isinstance(v.seq.n, int):
            v.busy = True; v = v.seq
        if isinstance(v, Seq) and not isinstance(v.n, int):
            r = Gen(seqmod.iterate(I, v.map(lambda I, x, i: (mkint(i) if st == 0 else mkint(iz(st) + i), x), 'enumerate')))
            r.seq = v.map(lambda I, x, i: (mkint(i) if st == 0 else mkint(iz(st) + i), x), 'enumerate')
            return r
        if isinstance(v, SymList):
            return EnumList(I, v, st)
        return Gen((I.binop(ast.Add(), st, i) if not isinstance(st, int) else st + i, x) for i, x in enumerate(I.iterate(v)))
    def b_reversed(self, I, a, k):
        v = self.force(I, a[0])
        if isinstance(v, SplitVal): v = v.all(I)
        if isinstance(v, Seq):
            q = v.reverse(); r = Gen(seqmod.iterate(I, q)); r.seq = q
            return r
        if isinstance(v, Range): return Gen(reversed(range(v.a, v.b, v.s)))
        if isinstance(v, (list, tuple)): return Gen(iter(list(reversed(v))))
        raise Unsupported('reversed')
    def b_iter(self, I, a, k):
        v = self.force(I, a[0])
        if isinstance(v, Gen): return v
        if isinstance(v, Obj):
            f = v.cls.find('__iter__')
            if f is not MISSING: return I.call(Bound(v, f), [], {})
        if type(v) in (list, tuple): return seqmod.ListIt(v)
        if type(v) is seqmod.Seq and not isinstance(v.n, int) and I.ctx.data.get('unroll_seq') is None: return seqmod.SeqIt(I, v)
        return Gen(I.iterate(v))
    def b_next(self, I, a, k):
        try: return I.next(a[0])
        except PyRaise as p:
            if len(a) > 1 and p.exc.cls.sub(I.pyclass(StopIteration)): return a[1]
            raise
    def b_any(self, I, a, k):
        for x in I.iterate(a[0]):
            if I.test(x): return True
        return False
    def b_all(self, I, a, k):
        for x in I.iterate(a[0]):
            if not I.test(x): return False
        return True
    def b_min(self, I, a, k): return self.minmax(I, a, k, 'Lt')
    def b_max(self, I, a, k): return self.minmax(I, a, k, 'Gt')
    def minmax(self, I, a, k, op):
        if set(k) - {'default'}: raise Unsupported('min/max key')
        xs = list(I.iterate(a[0])) if len(a) == 1 else a
        if not xs:
            if 'default' in k: return k['default']
            raise I.exc(ValueError, 'empty sequence')
        r = xs[0]
        for x in xs[1:]:
            if isnum(x) and isnum(r) and not (isinstance(x, int) and isinstance(r, int)):
                r = mkint(z3.If(bt(real_cmp(op, iz(x), iz(r))), iz(x), iz(r)))
            elif I.test(I.compare(op, x, r)): r = x
        return r
    def b_hasattr(self, I, a, k):
        return I._getattr(a[0], a[1]) is not MISSING
    def b_getattr(self, I, a, k):
        return I.getattr(a[0], I.ctx.conc(a[1]), *(a[2:]))
    def b_setattr(self, I, a, k): I.setattr(a[0], I.ctx.conc(a[1]), a[2])
    def b_repr(self, I, a, k):
        v = I.ctx.norm(self.force(I, a[0]))
        if isinstance(v, (str, bytes, int, float, type(None))): return repr(v)
        return SStr([I.ctx.atom(I.ctx.fresh('repr', 'S'))])
    def b_ord(self, I, a, k):
        v = I.ctx.conc(a[0])
        if v is None: raise Unsupported('ord')
        return ord(v)
    def b_chr(self, I, a, k):
        if isinstance(a[0], int): return chr(a[0])
        raise Unsupported('chr')
    def b_callable(self, I, a, k): return isinstance(a[0], (FuncVal, Bound, Builtin, ClassVal))
    def b_id(self, I, a, k): raise Unsupported('id')
    def b_print(self, I, a, k): return None
    def b_sorted(self, I, a, k):
        xs = list(I.iterate(a[0]))
        if all(isinstance(x, (str, int, bytes)) for x in xs) and not k: return sorted(xs)
        if len(xs) <= 1: return xs
        raise Unsupported('sorted')
    def b_round(self, I, a, k):
        v = a[0]
        if isinstance(v, (int, float)): return round(*a)
        if isinstance(v, SInt): return v
        if isinstance(v, SFloat) and len(a) == 1 and v.real is not None:
            # exact if the real value is an integer and the error below 1/2
            if v.err is not None and v.err < 0.49 and I.ctx.implied(z3.IsInt(v.real)): return mkint(z3.ToInt(v.real))
        I.ctx.note('rounding of a floating point number')
        return SInt(I.ctx.fresh('round'))
    def b_divmod(self, I, a, k): return (self.binop(I, 'FloorDiv', a[0], a[1]), self.binop(I, 'Mod', a[0], a[1]))
    def b_format(self, I, a, k):
        return self.fmt(I, '{}' if len(a) < 2 else '{:%s}' % a[1], [a[0]], {})
    def b_vars(self, I, a, k): return a[0].attrs

    # -------------------------------------------- construction of builtin types
    def construct(self, I, c, args, kw):
        py = c.py
        if py is None: return MISSING
        from . import libs
        r = libs.construct(self, I, c, args, kw)
        if r is not MISSING: return r
        a = [self.force(I, x) for x in args]
        if py is int: return self.mk_int(I, a, kw)
        if py is str:
            if not a: return ''
            if len(a) > 1: return decode(I, *a)
            return self.to_str(I, a[0])
        if py is bytes:
            if not a: return b''
            if isbytes(a[0]): return a[0]
            if isstr(a[0]): return encode(I, a[0], *(a[1:]))
            if isinstance(a[0], int): return bytes(a[0])
            xs = list(I.iterate(a[0]))
            if all(isinstance(x, int) for x in xs): return bytes(xs)
            raise Unsupported('bytes()')
        if py is list:
            if not a: return []
            if isinstance(a[0], SymList):
                s = a[0]; n = s.clone(I); n.memo = s.memo; return n
            if isinstance(a[0], Gen) and getattr(a[0], 'sym', None) is not None: return a[0].sym(I)
            if isinstance(a[0], PSet):
                return SetList(a[0].copy()) if a[0].base is not None else list(a[0].items)
            if isinstance(a[0], (Gen, Seq)):
                r = seqmod.tolist(I, a[0])
                if r is not None: return r
            return list(I.iterate(a[0]))
        if py is tuple:
            return tuple(I.iterate(a[0])) if a else ()
        if py is bool:
            t = I.truth(a[0]) if a else False
            return t if isinstance(t, bool) else mkbool(t)
        if py is dict or py is collections.OrderedDict:
            d = PDict()
            if a:
                if isinstance(a[0], PDict): d = a[0].copy()
                elif isinstance(a[0], SymDict): raise Unsupported('dict()')
                else:
                    for e in I.iterate(a[0]):
                        x, y = self.unpack(I, e, 2); self.setitem(I, d, x, y)
            for x, y in kw.items(): self.setitem(I, d, x, y)
            return d
        if py in (set, frozenset):
            if a and isinstance(a[0], SetList): return a[0].s.copy()
            if a and isinstance(a[0], PSet): return a[0].copy()
            if a and isinstance(a[0], SymList):
                if getattr(a[0], 'elemkinds', None) == ('str',):
                    if getattr(a[0], 'tok', None) is None: a[0].tok = I.ctx.fresh('list', 'A')
                    tok = a[0].tok
                    return PSet(base=lambda I, x: F('inlist', 'AS>B')(tok, I.ctx.term(x)) if isstr(x) else False)
                x = a[0].item('generic')
                self.hashable(I, x)
                return Opaque('jsonset', None, a[0])
            s = PSet()
            if a:
                for x in I.iterate(a[0]): self.set_add(I, s, x)
            return s
        if py is float:
            if not a: return 0.0
            return self.mk_float(I, a[0])
        if py is object: return Obj(c)
        if py is type:
            if len(a) == 1: return I.typeof(a[0])
            if len(a) == 3:
                return ClassVal(a[0], list(a[1]) or [I.pyclass(object)], {x: y for x, y in a[2].items()}, None)
        if py is types.MethodType: return Bound(a[1], a[0])
        if py is property: return Prop(a[0])
        if py is staticmethod: return StaticM(a[0])
        if py is classmethod: return ClassM(a[0])
        if issubclass(py, BaseException): return MISSING
        if py is enumerate: return self.b_enumerate(I, args, kw)
        if py is range: return self.b_range(I, args, kw)
        if py is zip: return self.b_zip(I, args, kw)
        if py is map: return self.b_map(I, args, kw)
        if py is filter: return self.b_filter(I, args, kw)
        if py is reversed: return self.b_reversed(I, args, kw)
        raise Unsupported('construction of %s' % c.name)
    def mk_int(self, I, a, kw):
        c = I.ctx
        if not a: return 0
        v = a[0]; base = a[1] if len(a) > 1 else kw.get('base')
        if isinstance(base, SInt): raise Unsupported('symbolic base')
        if base is None and isnum(v): return mkint(iz(v)) if isinstance(v, SBool) else v
        if isinstance(v, float) and base is None:
            try: return int(v)
            except (OverflowError, ValueError) as e: raise I.exc(type(e), str(e))
        if isinstance(v, SFloat):
            if v.src is not None and isinstance(v.src, tuple) and v.src[0] == 'ceil': return v.src[1]
            if v.real is not None and I.ctx.implied(z3.IsInt(v.real)) and v.err == 0: return mkint(z3.ToInt(v.real))
            I.ctx.note('int() of a floating point number'); return SInt(c.fresh('intf'))
        if isstr(v) or isbytes(v):
            cv = c.conc(v)
            if cv is not None:
                try: return int(cv, base) if base is not None else int(cv)
                except ValueError as e: raise I.exc(ValueError, str(e))
            b = 10 if base is None else base
            return int_parse(I, v, b)
        if v is POISON: return POISON
        if v is None or isinstance(v, (list, tuple, PDict, SymList, SymDict)): raise I.exc(TypeError, 'int() argument must be a string')
        if isinstance(v, Opaque) or isinstance(v, Ext): raise Unsupported('int()')
        raise Unsupported('int of %r' % (v,))
    def mk_float(self, I, v):
        c = I.ctx
        if isinstance(v, (int, float)): return float(v)
        if isinstance(v, SInt): return SFloat(real=z3.ToReal(v.t))
        if isinstance(v, SFloat): return v
        if isstr(v):
            cv = c.conc(v)
            if cv is not None:
                try: return float(cv)
                except ValueError as e: raise I.exc(ValueError, str(e))
            ps = c.parts(v)
            if len(ps) == 1:
                tg = c.tags.get(ps[0].get_id())
                if tg and tg[0] == 'repl' and tg[2:] == (',', '.') and L.subset(c.dom_of(tg[1]), AMOUNT):
                    return SFloat(src=SStr([tg[1]]))
            if c.branch(F('floatok', 'S>B')(c.term(v)), 'float'): return SFloat()
            raise I.exc(ValueError, 'could not convert string to float')
        raise I.exc(TypeError, 'float() argument')

    # -------------------------------------------- loops over unknown sequences
    def loop_rule(self, I, s, itv, fr):
        from . import loops
        return loops.loop_rule(self, I, s, itv, fr)
    def ismany(self, v): return isinstance(v, (ManyStr, Seq))
    def many(self, I, v, elt):
        if not isinstance(v, SplitVal) or v.rest is None: return None
        c = I.ctx
        n = v.count(I)
        if isinstance(n, int) or not I.test(mkbool(iz(n) > MANY), 'more than %d fields' % MANY): return None
        d = len(c.decisions)
        x = elt(v.T([c.atom(c.fresh('field', 'S'))]))
        if len(c.decisions) != d or not (isstr(x) or isbytes(x)): raise Unsupported('loop over the fields of a text')
        return ManyStr(n, v)
    def lazycomp(self, I, first, target, fr, cf, leaf, gen=False, reads=()):
        from . import loops
        return loops.lazycomp(I, first, target, fr, cf, leaf, gen, reads) if I.ctx.data.get('lazycomp') else None
    def comp_rule(self, I, e, fr, kind):
        from . import loops
        return loops.comp_rule(self, I, e, fr, kind)

class ManyStr(object):
    """texts computed from each of more than MANY fields of a split text; all
    that is known is their number (fields beyond any fixed format)"""
    pytype = list
    def __init__(self, n, src): self.n, self.src = n, src
MANY = 24

class SetList(object):
    """list(set) with unspecified order"""
    pytype = list
    def __init__(self, s): self.s = s

AMOUNT = L.from_regex(r'-?(0|[1-9][0-9]*),[0-9][0-9]')
def I_len(I, v): return iz(I.ctx.length(v))
def cents_term(I, v):
    """number of cents an amount text denotes"""
    c = I.ctx
    cv = c.conc(v)
    if cv is not None: return z3.IntVal(int(cv.replace(',', '')))
    return F('cents', 'S>I')(c.term(v))
def int_parse(I, v, base):
    c = I.ctx
    ps = c.parts(v)
    if len(ps) == 1 and base == 10:
        tg = c.tags.get(ps[0].get_id())
        if tg and tg[0] == 'repl' and tg[2:] == (',', '') and L.subset(c.dom_of(tg[1]), AMOUNT):
            return mkint(cents_term(I, SStr([tg[1]])))
        if tg and tg[0] == 'dec': return tg[1]
    if len(ps) == 1 and base == 16:
        tg = c.tags.get(ps[0].get_id())
        if tg and tg[0] == 'hex': return tg[1]
    x = c.term(v)
    if base not in (10, 16): raise Unsupported('int(text, %r)' % base)
    if not c.member(v, int_lang(base), 'int(text, %d)' % base): raise I.exc(ValueError, 'invalid literal for int()')
    if base == 10:
        # more than 4300 digits are refused
        n = c.length(v)
        if not isinstance(n, int) and not c.implied(iz(n) <= 4300):
            lim = F('intlimit', 'S>B')(x)
            c.assume(z3.Implies(lim, iz(n) > 4300))
            if c.branch(lim, 'too many digits'): raise I.exc(ValueError, 'Exceeds the limit (4300 digits) for integer string conversion')
    r = F('int%d' % base, 'S>I')(x)
    if not any(c.may(p, '-') for p in c.parts(v)): c.assume(r >= 0)
    if base == 16 and len(ps) == 1 and L.subset(c.dom_of(ps[0]), CANONHEX):
        # '%x' % int(x, 16) gives x again
        c.assume(F('hex', 'I>S')(r) == x)
    return SInt(r)
CANONHEX = L.from_regex('0|[1-9a-f][0-9a-f]*')
def ivclass(iv):
    out = []
    for a, b in iv:
        for x, y in L.mk_iv(L.INV[a:b]): out.append('\\U%08x-\\U%08x' % (x, y - 1))
    return ''.join(out)
@functools.lru_cache(None)
def int_lang(base):
    """the texts int(text, base) accepts, apart from the limit on the number of digits"""
    w = '[%s]*' % ivclass(L.iv_and(L.pred_iv('isspace'), L.iv_inv(((0x1c, 0x20),))))
    d = '[%s%s]' % (ivclass(L.pred_iv('isdecimal')), 'a-fA-F' if base == 16 else '')
    return L.from_regex('%s[+-]?%s%s(_?%s)*%s' % (w, '([%s][xX]_?)?' % zeros() if base == 16 else '', d, d, w))
def zeros():
    import unicodedata
    return ''.join('\\U%08x' % i for i in range(0x110000) if chr(i).isdecimal() and unicodedata.decimal(chr(i)) == 0)
@functools.lru_cache(None)
def stripped_lang(iv, left, right):
    inv = L.iv_inv(iv)
    n = L.NFA(); a, b = n.new(), n.new()
    one = L.chars(inv, 1, 1)
    anyl = L.ALL
    # first character not in iv (if left), last not in iv (if right), or empty
    f = L.NFA(); s, e = f.new(), f.new()
    f.tr[s].append((inv if left else L.ALLC, e)); f.tr[e].append((L.ALLC, e))
    first = f.det([s], [s, e])
    g = L.NFA(); s, e = g.new(), g.new()
    g.tr[s].append((L.ALLC, s)); g.tr[s].append((inv if right else L.ALLC, e))
    last = L.union(g.det([s], [e]), L.literal(''))
    return L.inter(first, last)
def natcmp(I, op, a, b):
    lt = F('natlt', 'AA>B'); eq = F('nateq', 'AA>B')
    I.ctx.assume(z3.And(z3.Not(z3.And(lt(a, b), lt(b, a))), z3.Implies(eq(a, b), z3.And(z3.Not(lt(a, b)), z3.Not(lt(b, a)))), z3.Or(eq(a, b), lt(a, b), lt(b, a)), eq(a, b) == eq(b, a)))
    return {'Lt': lt(a, b), 'Gt': lt(b, a), 'LtE': z3.Or(lt(a, b), eq(a, b)), 'GtE': z3.Or(lt(b, a), eq(a, b)), 'Eq': eq(a, b)}[op]
def real_cmp(op, x, y):
    if op == 'Lt': return x < y
    if op == 'LtE': return x <= y
    if op == 'Gt': return x > y
    if op == 'GtE': return x >= y
    if op == 'Eq': return x == y
    return x != y

# derived texts whose source has become a literal
def _src(c, v):
    """literal value of a rope or term, without side effects, or None"""
    if isinstance(v, LITS): return v
    if isinstance(v, SRope):
        if len(v.parts) == 1 and not isinstance(v.parts[0], LITS): return _src(c, v.parts[0])
        return None
    s = c.sub.get(v.get_id())
    if s is None: return litvalue(v) if islit(v) else None
    if len(s) == 1: return _src(c, s[0])
    return None
def _asb(v): return v.encode('ascii') if isinstance(v, str) else v
def _r(f):
    def g(c, tg):
        v = _src(c, tg[-1])
        if v is None: return None
        try: w = f(tg, _asb(v))
        except Exception: return None
        return w.decode('ascii') if isinstance(w, bytes) and w.isascii() else w
    return g
REEVAL['b64e'] = _r(lambda tg, v: (base64.b64encode if tg[1] == 'std' else base64.urlsafe_b64encode)(v))
REEVAL['b64un'] = _r(lambda tg, v: base64.urlsafe_b64encode(v).replace(b'=', b''))
REEVAL['b64d'] = _r(lambda tg, v: (base64.b64decode if tg[1] == 'std' else base64.urlsafe_b64decode)(v + b'=' * (-len(v) % 4)))
REEVAL['b32e'] = _r(lambda tg, v: base64.b32encode(v))
REEVAL['b32d'] = _r(lambda tg, v: base64.b32decode(v))
REEVAL['pad'] = _r(lambda tg, v: '=' * (-len(v) % 4))
REEVAL['b64n'] = _r(lambda tg, v: base64.b64encode(v).replace(b'=', b''))
