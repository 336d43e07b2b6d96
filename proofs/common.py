"""Specification vocabulary shared by the obligations, and call-site
contracts.  A contract is what a caller may assume; the obligation with the
same name proves it against the function's body."""
import functools
from .base import *
from pyvc.models import ivclass, int_lang, B64D, b64atom, strip_pads, pad_of, b64core

# ---------------------------------------------------------------- languages
DIG, ALNUM = L.pred_iv('isdigit'), L.pred_iv('isalnum')
@functools.lru_cache(None)
def upfix():
    return L.fix_iv('upper')
@functools.lru_cache(None)
def serial_lang(kind):
    """certificate serials / key IDs of each kind"""
    al = '[%s]' % ivclass(ALNUM); dg = '[%s]' % ivclass(DIG)
    if kind == 'TAX': core = L.from_regex('S:%s{9}' % dg)
    elif kind == 'UID': core = L.from_regex('U:[%s]{1,14}' % ivclass(L.iv_and(ALNUM, upfix())))
    elif kind == 'GLN': core = L.from_regex('G:%s{13}' % dg)
    elif kind == 'SERIAL': core = L.inter(int_lang(16), L.without('-'))
    elif kind == 'INVALID': return L.compl(functools.reduce(L.union, [serial_lang(k) for k in ('TAX', 'UID', 'GLN', 'SERIAL')]))
    n = L.union(core, L.cat(L.literal('-'), core))
    return L.union(n, L.cat(core, L.from_regex('-%s+' % al)))
KINDS5 = ('TAX', 'UID', 'GLN', 'SERIAL', 'INVALID')
@functools.lru_cache(None)
def lang(name):
    if name == 'ZDA': return L.from_regex('[A-Z]{2}[1-9][0-9]*|AT0')
    if name == 'AMOUNT': return L.from_regex('-?(0|[1-9][0-9]*),[0-9]{2}')
    if name == 'ID': return L.inter(L.without('_'), L.anylen(1))
    if name == 'IDU': return L.inter(lang('ID'), L.NOSURR)
    if name == 'B64': return L.b64(L.STD)
    if name == 'OPEN': return serial_lang('SERIAL')
    if name == 'CLOSED': return functools.reduce(L.union, [serial_lang(k) for k in ('TAX', 'UID', 'GLN')])
    if name == 'SIGURL': return b64core('url')
    if name == 'ASCII': return L.ASCII
    raise KeyError(name)
def parse_int_ok(c, v): return v in int_lang(16)

DATEFMT = '%Y-%m-%dT%H:%M:%S'
FIELDS = ('zda', 'registerId', 'receiptId', 'dateTimeStr', 'sumAStr', 'sumBStr', 'sumCStr', 'sumDStr', 'sumEStr', 'encTurnoverCounter', 'certSerial', 'previousChain')
SUMS = FIELDS[4:9]

# ---------------------------------------------------------------- specification primitives
def in_lang(I, v, dfa, label=''):
    if not isstr(v) and not isbytes(v): return False
    return I.ctx.member(v, dfa, label or 'spec')
def force_lang(I, v, dfa):
    """assumes membership"""
    c = I.ctx
    if isinstance(v, SRope):
        ps = c.parts(v)
        if len(ps) == 1 and not isinstance(ps[0], LITS):
            c.restrict(ps[0], dfa); return
    if not c.member(v, dfa, 'spec'): raise Infeasible()
def spec_strptime(I, s):
    c = I.ctx
    cv = c.conc(s)
    if cv is not None:
        import datetime
        try: datetime.datetime.strptime(cv, DATEFMT); return True
        except ValueError: return False
    return c.branch(F('strptimeok!' + DATEFMT, 'S>B')(c.term(s)), 'spec: valid date')
def spec_huge(I, s):
    """amount beyond the range of floating point numbers"""
    c = I.ctx
    cv = c.conc(s)
    if cv is not None: return float(cv.replace(',', '.')) in (float('inf'), float('-inf'))
    h = F('hugefloat', 'S>B')(c.term(s))
    ct = MD.cents_term(I, s)
    c.assume(z3.Implies(h, z3.And(iz(c.length(s)) > 300, ct != 0)))
    return c.branch(h, 'spec: amount out of range')
def dec_std(I, s):
    """bytes a standard Base64 text denotes, or None"""
    c = I.ctx
    if not in_lang(I, s, L.ASCII) or not in_lang(I, s, L.b64(L.STD)): return None
    return b64atom_or(c, s, 'std')
def dec_url(I, s):
    """bytes of an unpadded URL-safe Base64 text, or None"""
    c = I.ctx
    if not in_lang(I, s, b64core('url')): return None
    return b64atom_or(c, s, 'url')
def b64atom_or(c, s, alpha):
    import base64
    cv = c.conc(s)
    if cv is not None:
        b = cv.encode() if isinstance(cv, str) else cv
        b = b + b'=' * (-len(b) % 4) if alpha == 'url' else b
        return (base64.b64decode if alpha == 'std' else base64.urlsafe_b64decode)(b)
    ps = c.parts(s)
    if len(ps) == 1:
        tg = c.tags.get(ps[0].get_id())
        if tg and (tg[0] == 'b64e' and tg[1] == alpha): return tg[2]
        if tg and tg[0] == 'b64un' and alpha == 'url': return tg[1]
    return b64atom(c, strip_pads(c, c.parts(SBytes([p.encode() if isinstance(p, str) else p for p in ps]))), alpha)
def dec_b32(I, s):
    c = I.ctx
    if not in_lang(I, s, L.ASCII) or not in_lang(I, s, L.b32()): return None
    return MD.B32D(I, SBytes([p.encode() if isinstance(p, str) else p for p in c.parts(s)]))
def counter_ok(I, enc, empty=False):
    """encrypted turnover counter: 5 to 16 bytes, or a marker"""
    c = I.ctx
    d = dec_std(I, enc)
    if d is None: return False
    n = c.length(d)
    if empty and I.test(mkbool(iz(n) == 0), 'spec: empty counter'): return True
    if I.test(mkbool(z3.And(iz(n) >= 5, iz(n) <= 16)), 'spec: counter size'): return True
    return marker(I, enc) is not None
def marker(I, enc):
    d = dec_std(I, enc)
    if d is None: return None
    for m in (b'TRA', b'STO'):
        if I.test(mkbool(I.ctx.eq(d, m)), 'spec: marker'): return m
    return None
def serial_kind(I, s):
    for k in KINDS5[:-1]:
        if in_lang(I, s, serial_lang(k)): return k
    return 'INVALID'
def fields_ok(I, f, empty=True):
    """are the twelve field values those of a receipt? (specification of
    Receipt(...)); forks until decided"""
    f = dict(zip(FIELDS, f))
    if not all(isstr(v) for v in f.values()): return False
    if not in_lang(I, f['receiptId'], lang('ID')): return False
    if not in_lang(I, f['zda'], lang('ZDA')): return False
    if not in_lang(I, f['registerId'], lang('ID')): return False
    if not in_lang(I, f['dateTimeStr'], L.anylen(1)) or not spec_strptime(I, f['dateTimeStr']): return False
    for s in SUMS:
        if not in_lang(I, f[s], lang('AMOUNT')) or spec_huge(I, f[s]): return False
    if not in_lang(I, f['certSerial'], lang('CLOSED' if in_lang(I, f['zda'], L.literal('AT0')) else 'OPEN')): return False
    if dec_std(I, f['previousChain']) is None: return False
    return counter_ok(I, f['encTurnoverCounter'], empty)
def surr_ok(I, f):
    return all(in_lang(I, v, L.NOSURR) for v in f)

def assume_fields(I, f, empty=False, closed=None):
    """restricts arbitrary texts to those of a receipt (open/closed: fork)"""
    c = I.ctx
    d = dict(zip(FIELDS, f))
    force_lang(I, d['receiptId'], lang('IDU')); force_lang(I, d['registerId'], lang('IDU'))
    force_lang(I, d['zda'], lang('ZDA'))
    if closed == 'open question': force_lang(I, d['certSerial'], L.inter(L.union(lang('CLOSED'), lang('OPEN')), L.inter(L.NOSURR, L.without('_'))))
    elif closed is None: closed = in_lang(I, d['zda'], L.literal('AT0'), 'closed system')
    else: force_lang(I, d['zda'], L.literal('AT0') if closed else L.minus(lang('ZDA'), L.literal('AT0')))
    # parsed from a text, hence without the separator
    if closed != 'open question': force_lang(I, d['certSerial'], L.inter(lang('CLOSED' if closed else 'OPEN'), L.inter(L.NOSURR, L.without('_'))))
    force_lang(I, d['dateTimeStr'], L.inter(L.NOSURR, L.inter(L.without('_'), L.anylen(1))))
    t = c.term(d['dateTimeStr']); c.assume(F('strptimeok!' + DATEFMT, 'S>B')(t))
    for s in SUMS:
        force_lang(I, d[s], lang('AMOUNT'))
        t = c.term(d[s]); c.assume(z3.Not(F('hugefloat', 'S>B')(t)))
    force_lang(I, d['previousChain'], lang('B64'))
    force_lang(I, d['encTurnoverCounter'], lang('B64'))
    dec = b64atom_or(c, d['encTurnoverCounter'], 'std')
    n = iz(c.length(dec)); x = c.term(dec)
    c.assume(disj([z3.And(n >= 5, n <= 16), x == c.lit('TRA'), x == c.lit('STO')] + ([n == 0] if empty else [])))

JWSHEADER = '{"alg":"ES256"}'
def mkrec(R, name='rec', closed=None, parsed=True, signed=True, fields=None):
    """arbitrary well-formed receipt object, built by running the constructor
    of the current source on arbitrary admissible field values"""
    I, c = R.I, R.ctx
    f = list(fields) if fields is not None else [R.text('%s.%s' % (name, n)) for n in FIELDS]
    assume_fields(I, f, closed=closed)
    if parsed:
        d = b64atom_or(c, f[11], 'std')
        c.assume(iz(c.length(d)) == 8)
        # Base64 of 8 bytes
        force_lang(I, f[11], L.from_regex('[%s]{11}={1,3}' % L.STD))
    o = R.call(R.name('receipt.Receipt'), *f)
    if not o.ok:
        if os.environ.get('DBG'): print(o.v.cls.name, o.v.attrs.raw('args'), c.trace[-12:])
        raise Undecided('constructor refuses an admissible receipt (see C11)')
    rec = o.v
    if signed:
        sig = R.text(name + '.signature')
        force_lang(I, sig, lang('SIGURL'))
        o = R.meth(rec, 'sign', JWSHEADER, sig)
        if not o.ok: raise Undecided('sign refuses an admissible signature (see C11)')
        f.append(sig)
    return rec, f

# ---------------------------------------------------------------- call-site contracts
@contract('utils.restoreb64padding', 'utils.restoreb64padding')
def _(I, f, a, k):
    if len(a) != 1 or k or not isinstance(a[0], SStr): return MISSING
    c = I.ctx
    if c.conc(a[0]) is not None: return MISSING
    x = c.term(a[0])
    p = pad_of(c, x)
    c.once(('padlen', x.get_id()), lambda: LEN(c.term(p)) == (4 - LEN(x) % 4) % 4)
    return c.cat(a[0], SStr(p.parts))

@contract('receipt.CertSerialType.getCertSerialType', 'receipt.CertSerialType.getCertSerialType')
def _(I, f, a, k):
    if len(a) != 1 or k or not isinstance(a[0], SStr): return MISSING
    cls = I.modules['receipt'].ns['CertSerialType']
    r = cls.ns.get(serial_kind(I, a[0]))
    return r if isinstance(r, Obj) else MISSING

@contract('receipt.Receipt.__init__', 'receipt.Receipt.__init__')
def _(I, f, a, k):
    """raises one of the receipt exceptions, or the fields are admissible;
    in the second case the body is executed"""
    b = I.bindargs(f, a, k)
    names = [x.arg for x in f.node.args.args]
    if len(names) != 13: return MISSING
    vals = [b[n] for n in names[1:]]
    if not all(isstr(v) for v in vals) or all(I.ctx.conc(v) is not None for v in vals): return MISSING
    if not valid_choice(I, vals):
        raise I.exc(I.modules['receipt'].ns['MalformedReceiptException'], vals[2], 'fields')
    return MISSING
@contract('receipt.Receipt.fromBasicCode', 'receipt.Receipt.fromBasicCode')
def _(I, f, a, k):
    """a function of the text: one of the receipt exceptions or a pair"""
    if len(a) != 1 or k or not isstr(a[0]): return MISSING
    r = basic_choice(I, a[0])
    if r is None: raise I.exc(I.modules['receipt'].ns['MalformedReceiptException'], 'x', 'basic')
    return r
def mkz(t):
    t = z3.simplify(t)
    return True if z3.is_true(t) else False if z3.is_false(t) else t
def basic_choice(I, t):
    c = I.ctx
    seen = c.memo.setdefault('basic', [])
    for v, r in seen:
        if I.test(mkbool(c.eq(v, t)), 'same text'): return r
    r = None
    n = MD.SplitVal(SStr, '_', t).count(I)
    if c.choose([mkz(iz(n) == 14), True], 'valid machine-readable code') == 0: r = (Opaque('parsed', F('basic', 'S>A')(c.term(t))), 'R1')
    seen.append((t, r))
    return r
def valid_choice(I, vals):
    """one decision per field tuple, shared by code and specification"""
    c = I.ctx
    seen = c.memo.setdefault('fields', [])
    key = [c.term(v).get_id() for v in vals]
    for vs, r in seen:
        if [c.term(v).get_id() for v in vs] == key: return r
    r = c.choose([True, True], 'admissible fields') == 0
    seen.append((list(vals), r))
    if r: assume_fields(I, vals, empty=True)
    return r

# ---------------------------------------------------------------- specification functions
def _istext(I, a, k):
    return isstr(a[0]) and in_lang(I, a[0], L.NOSURR)
def _utf8(I, a, k):
    try: return MD.decode(I, a[0])
    except PyRaise: return None
def _fields(I, a, k):
    if 'receipt.Receipt.__init__' in I.contracts and any(I.ctx.conc(x) is None for x in a[0]): return valid_choice(I, a[0])
    return fields_ok(I, a[0])
def spec_int(I, s, base):
    cv = I.ctx.conc(s)
    try: return int(cv, base) if cv is not None else MD.int_parse(I, s, base)
    except (PyRaise, ValueError): return None
RUN11 = '(?<![A-Za-z0-9_-])[A-Za-z0-9_-]{11}(?![A-Za-z0-9_-])'
def spec_lastrun(I, s):
    m = libs.METH[('regex', 'findall')](I, MD.Ext('regex', pattern=RUN11, flags=0, rx=libs.re.compile(RUN11)), [s], {})
    if isinstance(m, list): return m[-1] if m else None
    return m.last
PRIMS = {
    'S_parse_basic': lambda I, a, k: basic_choice(I, a[0]),
    'S_fields_ok': _fields, 'S_is_text': _istext, 'S_utf8': _utf8,
    'S_dec_std': lambda I, a, k: dec_std(I, a[0]),
    'S_dec_url': lambda I, a, k: dec_url(I, a[0]),
    'S_dec_b32': lambda I, a, k: dec_b32(I, a[0]),
    'S_enc_url': lambda I, a, k: MD.decode(I, MD.B64UN(I.ctx, a[0])),
    'S_int': lambda I, a, k: spec_int(I, a[0], a[1]),
    'S_hex': lambda I, a, k: I.models.hexstr(I, a[0]),
    'S_starts': lambda I, a, k: in_lang(I, a[0], L.cat(L.literal(a[1]), L.ALL)),
    'S_lastrun': lambda I, a, k: spec_lastrun(I, a[0]),
    'S_enc_std': lambda I, a, k: MD.decode(I, MD.B64E(I.ctx, a[0], 'std')),
}
def specfn(I, name):
    m = I.modules['spec']
    for n, f in PRIMS.items():
        if n not in m.ns: m.ns[n] = Builtin(n, f)
    return m.ns[name]
def spec(R, name, *args):
    """evaluates a specification function"""
    try: return R.I.call(specfn(R.I, name), list(args), {})
    except PyRaise as p: raise Undecided('specification raised %s %s' % (p.exc.cls.name, p.exc.attrs.raw('args')))
