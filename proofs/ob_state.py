"""Verification state: used receipt IDs (C05), saving, restoring and updating (C09)."""
from .common import *
from . import common as CM, base
from .group import opt_text
from pyvc import loops
from pyvc.loops import FoldRule, Rejected, alike
from pyvc.seq import Seq, MSeq

# ---------------------------------------------------------------- used IDs: set
def setattr_of(R, o):
    """name of the attribute holding the set of IDs"""
    l = [n for n, v in o.attrs.items() if isinstance(v, PSet)]
    if len(l) != 1: raise Undecided('used IDs are not kept in one set')
    return l[0]
def inset(tok): return lambda I, x: F('inU', 'AS>B')(tok, I.ctx.term(x)) if isstr(x) else False
def mkunique(R, name='used'):
    """bookkeeping with an arbitrary set of IDs already used"""
    u = R.new('verification_state.UsedReceiptIdsUnique')
    n = setattr_of(R, u)
    s = u.attrs.raw(n)
    if s.items or s.base is not None: raise Undecided('new bookkeeping is not empty')
    u.attrs.setraw(n, PSet(base=inset(R.ctx.fresh(name, 'A'))))
    return u
def idset(R, u): return u.attrs.raw(setattr_of(R, u))
def holds(R, s, y): return bt(R.I.models.contains(R.I, s, y))
def sameset(R, a, b):
    """an arbitrary ID is in both or in neither"""
    y = R.text('anyid')
    return mkbool(holds(R, a, y) == holds(R, b, y))

@obl('verification_state.UsedReceiptIdsUnique', 'C05 C09', 'verification_state.UsedReceiptIdsUnique.check verification_state.UsedReceiptIdsUnique.add verification_state.UsedReceiptIdsUnique.__init__')
def _(R):
    """check refuses exactly the IDs in the set; add adds exactly one"""
    I = R.I
    new = R.new('verification_state.UsedReceiptIdsUnique')
    R.require(sameset(R, idset(R, new), PSet()), 'a new bookkeeping is not empty')
    u = mkunique(R); before = idset(R, u).copy()
    x = R.text('id')
    o = R.meth(u, 'check', x)
    used = I.test(mkbool(holds(R, before, x)))
    R.require(o.ok != used, 'an ID already used is accepted' if used else 'a new ID is refused')
    if not o.ok: R.require(R.cls(o, 'verification_state.DuplicateReceiptIdException'), 'raises %s' % o.v.cls.name)
    R.require(sameset(R, idset(R, u), before), 'check changes the used IDs')
    o = R.meth(u, 'add', x)
    R.require(o.ok, 'add raises')
    R.require(sameset(R, idset(R, u), PSet([x], before.base)), 'the used IDs are not those before plus the new one')
    R.done('used' if used else 'new')

class MergeInner(FoldRule):
    """the elements of one set are checked and added one after the other"""
    def __init__(self, R, outer, mode):
        FoldRule.__init__(self, R, None, outer.inv, mode); self.outer = outer
    def roots(self): return [self.outer.acc]
    def more_skip(self): return [idset(self.R, self.outer.acc)]
    def entry(self): return self.g0
    def arb(self, k): return PSet(base=inset(self.I.ctx.fresh('used', 'A')))
    def havoc_more(self, g, last):
        s = idset(self.R, self.outer.acc); s.items, s.base = list(g.items), g.base
    def more_shape(self, g): return [(sameset(self.R, idset(self.R, self.outer.acc), g), 'used IDs while merging')]
    def shape(self, g, old): return []
    def step(self, g, i):
        e = self.seq.at(self.I, i)
        if self.I.test(mkbool(holds(self.R, g, e))): return Rejected('C05', 'ID used before')
        return PSet(g.items + [e], g.base)
    def accepted(self, g): self.R.require(False, 'merges although: ' + g.detail, 'C05 C08')
    def templates(self, g, i):
        return [('elem', lambda: self.seq.at(self.I, i)), ('index', lambda: mkint(iz(i))), ('None', lambda: None), ('True', lambda: True), ('False', lambda: False)]
class MergeOuter(MergeInner):
    def __init__(self, R, seq, inv, mode, acc):
        FoldRule.__init__(self, R, seq, inv, mode)
        self.outer = self; self.acc = acc
        self.inner = MergeInner(R, self, mode)
    def step(self, g, i):
        """what the fold over the elements of set i gives"""
        h = self.inner
        if h.seq is None or h.at is None or not self.I.ctx.implied(iz(h.at) == iz(i)) or not hasattr(h, 'ghost'): raise Unsupported('set %s is not merged element by element' % i)
        return h.ghost
    def templates(self, g, i):
        return [('elem', lambda: self.seq.at(self.I, i)), ('index', lambda: mkint(iz(i))), ('None', lambda: None), ('True', lambda: True), ('False', lambda: False)]
def mksets(R, outer):
    """sequence of bookkeepings of any number of packages, any number of IDs each"""
    c = R.ctx
    n = c.fresh('packages'); c.assume(n >= 0)
    tok = c.fresh('pkgs', 'A')
    def elem(I, i):
        u = R.new('verification_state.UsedReceiptIdsUnique')
        i = z3.simplify(iz(i))
        m = F('nids', 'AI>I')(tok, i); c.assume(m >= 0)
        s = PSet(base=lambda I, x: F('inpkg', 'AIS>B')(tok, i, I.ctx.term(x)))
        def el(I, j):
            t = F('idat', 'AII>S')(tok, i, z3.simplify(iz(j)))
            return SStr([c.atom(t)])
        s.seq = Seq(SInt(m), el, 'ids')
        u.attrs.setraw(setattr_of(R, u), s)
        h = outer[0]
        h.inner.seq = s.seq; h.inner.at = i; h.inner.g0 = h.cur
        return u
    return Seq(SInt(n), elem, 'sets')

@obl('verification_state.UsedReceiptIdsUnique.merge', 'C05 C08', 'verification_state.UsedReceiptIdsUnique.merge verification_state.UsedReceiptIdsUnique.check verification_state.UsedReceiptIdsUnique.add', fold=True, fallback='verification_state.UsedReceiptIdsUnique.merge/bounded')
def _(R):
    """merging adds the IDs of all packages one after the other and refuses at
    the first that is already there (any number of packages and IDs)"""
    I, c = R.I, R.ctx
    u = mkunique(R); before = idset(R, u).copy()
    h = MergeOuter(R, None, base.INV.get('verification_state.UsedReceiptIdsUnique.merge', {}), c.data.get('mode'), u)
    h.seq = mksets(R, [h]); h.g0 = before
    c.data['fold'] = [h, h.inner]
    o = R.meth(u, 'merge', h.seq)
    g = c.data.get('ghost')
    if g is None: raise Undecided('the packages are not processed by a loop')
    merge_outcome(R, o, u, g)
def merge_outcome(R, o, u, g):
    if isinstance(g, Rejected):
        R.require(not o.ok, 'merges although an ID occurs twice')
        R.require(R.cls(o, 'verification_state.DuplicateReceiptIdException'), 'raises %s' % (o.v.cls.name if not o.ok else ''))
        R.done('duplicate'); return
    R.require(o.ok, 'refuses to merge disjoint sets with %s' % (o.v.cls.name if not o.ok else ''))
    R.require(sameset(R, idset(R, u), g), 'the used IDs are not those before plus those of the packages')
    R.done('merged')
@obl('verification_state.UsedReceiptIdsUnique.merge/bounded', 'C05 C08', 'verification_state.UsedReceiptIdsUnique.merge', bounded='at most 2 packages with at most 2 IDs each')
def _(R):
    I, c = R.I, R.ctx
    u = mkunique(R); g = idset(R, u).copy()
    pk = []
    for i in range(R.pick(3, 'packages')):
        p = R.new('verification_state.UsedReceiptIdsUnique')
        l = [R.text('id') for _ in range(R.pick(3, 'IDs'))]
        for j in range(len(l)):
            for k in range(j): c.assume(neg(bt(R.eq(l[j], l[k]))))
        p.attrs.setraw(setattr_of(R, p), PSet(l)); pk.append((p, l))
    o = R.meth(u, 'merge', [p for p, _ in pk] if R.pick(2) else tuple(p for p, _ in pk))
    for p, l in pk:
        for x in l:
            if isinstance(g, PSet): g = Rejected('C05', 'twice') if I.test(mkbool(holds(R, g, x))) else PSet(g.items + [x], g.base)
    merge_outcome(R, o, u, g)

# ---------------------------------------------------------------- used IDs: sorted
@contract('verification_state.natkey', 'verification_state.UsedReceiptIdsSortedNatural._key')
def _(I, f, a, k):
    if len(a) != 1 or k or not isstr(I.models.force(I, a[0])): return MISSING
    a[0] = I.models.force(I, a[0])
    return Opaque('natkey', F('natkey', 'S>A')(I.ctx.term(a[0])))
NATASS = ['UsedReceiptIdsSortedNatural._key is a linear preorder comparing runs of decimal digits as numbers and other text ignoring case (compared with an independent implementation by the falsifier only)']
def natlt(R, a, b):
    k = lambda x: Opaque('natkey', F('natkey', 'S>A')(R.ctx.term(x)))
    return bt(R.I.models.compare(R.I, 'Lt', k(a), k(b)) if hasattr(R.I.models, 'compare') else R.I.compare('Lt', k(a), k(b)))
def mksorted(R, name='sorted'):
    u = R.new('verification_state.UsedReceiptIdsSortedNatural')
    if sorted(str(x) for x in u.attrs.keys()) != ['_maxId', '_minId']: raise Undecided('sorted bookkeeping has other attributes')
    for n in ('_minId', '_maxId'): u.attrs.setraw(n, opt_text(R, name + n))
    return u
class MinMax(object):
    def __init__(self, lo, hi): self.lo, self.hi = lo, hi
def minmax(u): return MinMax(u.attrs.raw('_minId'), u.attrs.raw('_maxId'))
def isnone(R, v): return R.I.test(mkbool(bt(R.I.models.identical(R.I, v, None))))
def sorted_add(R, g, x):
    """what accepting the ID x requires, and the bookkeeping after it"""
    x = R.I.models.force(R.I, x)
    if not isnone(R, g.hi) and not R.I.test(mkbool(natlt(R, R.I.models.force(R.I, g.hi), x))): return Rejected('C05', 'ID not larger')
    return MinMax(x if isnone(R, g.lo) else g.lo, x)
def same_minmax(R, u, g, msg):
    R.require(alike(R.I, u.attrs.raw('_minId'), g.lo), msg + ': smallest ID', case={'state': msg})
    R.require(alike(R.I, u.attrs.raw('_maxId'), g.hi), msg + ': largest ID', case={'state': msg})
@obl('verification_state.UsedReceiptIdsSortedNatural', 'C05 C09', 'verification_state.UsedReceiptIdsSortedNatural.check verification_state.UsedReceiptIdsSortedNatural.add verification_state.UsedReceiptIdsSortedNatural.__init__', uses=['verification_state.natkey'], assumes=NATASS)
def _(R):
    I = R.I
    new = R.new('verification_state.UsedReceiptIdsSortedNatural')
    R.require(new.attrs.raw('_minId', 1) is None and new.attrs.raw('_maxId', 1) is None, 'a new bookkeeping is not empty')
    u = mksorted(R); before = minmax(u)
    x = R.text('id')
    o = R.meth(u, 'check', x)
    g = sorted_add(R, before, x)
    bad = isinstance(g, Rejected)
    R.require(o.ok != bad, 'an ID that is not larger is accepted' if bad else 'a larger ID is refused')
    if not o.ok: R.require(R.cls(o, 'verification_state.DuplicateReceiptIdException'), 'raises %s' % o.v.cls.name)
    same_minmax(R, u, before, 'check changes the bookkeeping')
    if bad: R.done('refused'); return
    o = R.meth(u, 'add', x)
    R.require(o.ok, 'add raises')
    same_minmax(R, u, g, 'bookkeeping after add')
    R.done('added')
def sorted_merge(R, g, p):
    if isnone(R, p.lo) or isnone(R, p.hi): return g
    g = sorted_add(R, g, p.lo)
    return g if isinstance(g, Rejected) else MinMax(g.lo, R.I.models.force(R.I, p.hi))
class SortedFold(FoldRule):
    def __init__(self, R, seq, inv, mode, u):
        FoldRule.__init__(self, R, seq, inv, mode); self.u = u; self.g0 = minmax(u)
    def roots(self): return [self.u]
    def entry(self): return self.g0
    def arb(self, k): return MinMax(opt_text(self.R, 'lo'), opt_text(self.R, 'hi'))
    def shape(self, g, old): return []
    def step(self, g, i): return sorted_merge(self.R, g, minmax(self.seq.at(self.I, i)))
    def accepted(self, g): self.R.require(False, 'merges although: ' + g.detail, 'C05 C08')
    def templates(self, g, i):
        return [('elem', lambda: self.seq.at(self.I, i)), ('hi', lambda: g.hi), ('lo', lambda: g.lo), ('index', lambda: mkint(iz(i))), ('None', lambda: None), ('True', lambda: True), ('False', lambda: False)]
def mksortedpkgs(R, n=None):
    c = R.ctx
    if n is None:
        n = c.fresh('packages'); c.assume(n >= 0); n = SInt(n)
    return Seq(n, lambda I, i: mksorted(R, 'pkg'), 'pkgs')
def sorted_outcome(R, o, u, g):
    if isinstance(g, Rejected):
        R.require(not o.ok, 'merges although: ' + g.detail)
        R.require(R.cls(o, 'verification_state.DuplicateReceiptIdException'), 'raises %s' % (o.v.cls.name if not o.ok else ''))
        R.done('duplicate'); return
    R.require(o.ok, 'refuses to merge increasing ranges with %s' % (o.v.cls.name if not o.ok else ''))
    same_minmax(R, u, g, 'bookkeeping after merging')
    R.done('merged')
@obl('verification_state.UsedReceiptIdsSortedNatural.merge', 'C05 C08', 'verification_state.UsedReceiptIdsSortedNatural.merge', uses=['verification_state.natkey'], assumes=NATASS, fold=True, fallback='verification_state.UsedReceiptIdsSortedNatural.merge/bounded')
def _(R):
    c = R.ctx
    u = mksorted(R)
    h = SortedFold(R, mksortedpkgs(R), base.INV.get('verification_state.UsedReceiptIdsSortedNatural.merge', {}), c.data.get('mode'), u)
    c.data['fold'] = h
    o = R.meth(u, 'merge', h.seq)
    g = c.data.get('ghost')
    if g is None: raise Undecided('the packages are not processed by a loop')
    sorted_outcome(R, o, u, g)
@obl('verification_state.UsedReceiptIdsSortedNatural.merge/bounded', 'C05 C08', 'verification_state.UsedReceiptIdsSortedNatural.merge', uses=['verification_state.natkey'], assumes=NATASS, bounded='at most 3 packages')
def _(R):
    u = mksorted(R); g = minmax(u)
    pk = [mksorted(R, 'pkg') for _ in range(R.pick(4, 'packages'))]
    o = R.meth(u, 'merge', pk if R.pick(2) else tuple(pk))
    for p in pk:
        if not isinstance(g, Rejected): g = sorted_merge(R, g, minmax(p))
    sorted_outcome(R, o, u, g)

# ---------------------------------------------------------------- saving and restoring (C09)
TEXTY = ('null', 'str')
REGFIELDS = (('startReceiptJWS', TEXTY), ('lastReceiptJWS', TEXTY), ('lastTurnoverCounter', ('int',)), ('needRestoreReceipt', ('bool',)), ('chainNextTo', TEXTY))
def spec_register(R, d):
    """values of a register's data, or None if an element is missing or wrongly
    typed; 'open' if the specification leaves it open"""
    I = R.I
    out = {}
    for n, kinds in REGFIELDS:
        e = d.has(I, n)
        if not e[1]: return None
        if n == 'lastTurnoverCounter' and e[2].narrow(I, ['bool']): out['open'] = True; continue
        if not e[2].narrow(I, kinds): return None
        out[n] = e[2]
    return out
def check_register(R, r, want, msg='register'):
    R.require(isinstance(r, Obj) and R.isinst(r, 'verification_state.CashRegisterState'), msg + ': not a register state')
    R.require(sorted(str(k) for k in r.attrs.keys()) == sorted(n for n, _ in REGFIELDS), msg + ': other attributes')
    for n, _ in REGFIELDS:
        R.require(alike(R.I, r.attrs.raw(n), want[n]), '%s: %s differs' % (msg, n), case={'element': n})
@obl('verification_state.CashRegisterState.fromDict', 'C09 C16', 'verification_state.CashRegisterState.fromDict')
def _(R):
    """accepts exactly data with all elements of the right types, and takes
    over every one"""
    I = R.I
    d = MD.SymDict(I, 'd')
    o = R.call('verification_state.CashRegisterState.fromDict', d, *([] if R.pick(2) else [R.int('index')]))
    want = spec_register(R, d)
    if want is None:
        R.require(not o.ok, 'data with a missing or wrongly typed element is accepted', 'C09', case={})
        if not o.ok: R.require(R.cls(o, 'verification_state.StateParseException'), 'raises %s' % o.v.cls.name)
        R.done('malformed'); return
    if want.get('open'): R.done('open'); return
    R.require(o.ok, 'well-formed data is refused with %s' % (o.v.cls.name if not o.ok else ''), 'C09')
    check_register(R, o.v, want)
    R.done('ok')

def mkregister(R, name):
    s = R.new('verification_state.CashRegisterState')
    vals = {n: opt_text(R, name + '.' + n) if k is TEXTY else R.int(name + '.counter') if k == ('int',) else R.bool(name + '.need') for n, k in REGFIELDS}
    for n, v in vals.items(): s.attrs.setraw(n, v)
    return s, vals
def mkcluster(R, n, used=None, **kw):
    """state of a cluster with n registers"""
    cs = R.new('verification_state.ClusterState')
    regs = []
    l = R.get(cs, 'cashRegisters')
    if not isinstance(l, list) or l: raise Undecided('new cluster state has registers')
    for i in range(n):
        s, v = mkregister(R, 'reg%d' % i); l.append(s); regs.append((s, v))
    if used is None: used = mkunique(R) if R.pick(2, 'bookkeeping') else mksorted(R)
    cs.attrs.setraw('usedReceiptIds', used)
    return cs, regs, used
def same_used(R, a, b, msg):
    R.require(a.cls is b.cls, msg + ': kind of bookkeeping changes')
    if a.attrs.raw('_minId', MISSING) is not MISSING: same_minmax(R, a, minmax(b), msg)
    else: R.require(sameset(R, idset(R, a), idset(R, b)), msg + ': IDs differ')
def clone(R, u): return I_copy(R, u)
def I_copy(R, u):
    o = Obj(u.cls)
    for n, v in u.attrs.items(): o.attrs.setraw(n, v.copy() if isinstance(v, PSet) else v)
    return o
MAXREG = 2
RT = 'verification_state.ClusterState.writeStateToJson-readStateFromJson'
@obl(RT, 'C09', 'verification_state.ClusterState.writeStateToJson verification_state.ClusterState.readStateFromJson verification_state.UsedReceiptIdsBackend.writeToJson verification_state.UsedReceiptIdsBackend.readFromJson verification_state.UsedReceiptIdsUnique._dataExport verification_state.UsedReceiptIdsUnique._dataImport verification_state.UsedReceiptIdsSortedNatural._dataExport verification_state.UsedReceiptIdsSortedNatural._dataImport',
    bounded='clusters of at most 2 registers (any contents, any number of used IDs)', fold=True)
def _(R):
    """a state written and read back is equal; writing does not change it"""
    I = R.I
    n = R.pick(MAXREG + 1, 'registers')
    cs, regs, used = mkcluster(R, n)
    before = I_copy(R, used)
    h = loops.ElementsFold(R, ('str',), base.INV.get(RT, {}), R.ctx.data.get('mode'), 'C09'); R.ctx.data['fold'] = [h]
    o = R.meth(cs, 'writeStateToJson')
    R.require(o.ok, 'writing raises %s' % (o.v.cls.name if not o.ok else ''))
    def intact(cs, what):
        l = R.get(cs, 'cashRegisters')
        R.require(isinstance(l, list) and len(l) == n, what + ': number of registers')
        for i, (s, v) in enumerate(regs): check_register(R, l[i], v, '%s: register %d' % (what, i))
        same_used(R, R.get(cs, 'usedReceiptIds'), before, what)
    intact(cs, 'saving changes the state')
    p = R.call('verification_state.ClusterState.readStateFromJson', o.v)
    R.require(p.ok, 'a saved state is refused with %s' % (p.v.cls.name if not p.ok else ''))
    intact(p.v, 'restored state')
    l = R.get(p.v, 'cashRegisters')
    R.require(all(a is not s for a in l for s, _ in regs), 'the restored state shares registers with the saved one')
    R.done('%d' % n)
@obl('verification_state.UsedReceiptIdsBackend.readFromJson', 'C09 C16', 'verification_state.UsedReceiptIdsBackend.readFromJson verification_state.UsedReceiptIdsUnique._dataImport verification_state.UsedReceiptIdsSortedNatural._dataImport', fold=True)
def _(R):
    """malformed data is refused with the library's own exceptions"""
    I = R.I
    j = MD.SJson('json')
    h = loops.ElementsFold(R, ('str',), base.INV.get('verification_state.UsedReceiptIdsBackend.readFromJson', {}), R.ctx.data.get('mode'), 'C09'); R.ctx.data['fold'] = [h]
    o = R.call('verification_state.UsedReceiptIdsBackend.readFromJson', j, 'usedReceiptIds')
    good = spec_used(R, j)
    if good is None:
        # a list: the specification follows the elements
        if h.seq is None: raise Undecided('elements are not processed by a loop')
        good = not isinstance(h.ghost, Rejected)
        if o.ok and good:
            R.require(o.v.cls is R.name('verification_state.UsedReceiptIdsUnique'), 'another bookkeeping')
            R.require(sameset(R, idset(R, o.v), I.call(I.pyclass(set), [h.seq.src], {})), 'used IDs are not those of the list', 'C09')
    if good is False:
        R.require(not o.ok, 'malformed used receipt IDs are accepted', 'C09', case={})
    if not o.ok: R.require(R.cls(o, 'verification_state.StateParseException'), 'raises %s' % o.v.cls.name)
    if good is True: R.require(o.ok, 'well-formed used receipt IDs are refused with %s' % (o.v.cls.name if not o.ok else ''), 'C09')
    R.done(str(good))
def spec_used(R, j):
    """True, False, or None if undetermined here"""
    I = R.I
    if not j.narrow(I, ['dict']): return False
    d = j.force(I)
    t, v = d.has(I, 'backendType'), d.has(I, 'backendData')
    if not t[1] or not v[1] or not t[2].narrow(I, ['str']): return False
    ty = t[2].force(I)
    if I.test(R.eq(ty, 'USED_RECEIPT_IDS_UNIQUE')):
        if not v[2].narrow(I, ['list']): return False
        return None
    if I.test(R.eq(ty, 'USED_RECEIPT_IDS_SORTED_NATURAL')):
        if not v[2].narrow(I, ['dict']): return False
        x = v[2].force(I)
        for n in ('minId', 'maxId'):
            e = x.has(I, n)
            if not e[1] or not e[2].narrow(I, TEXTY): return False
        return True
    return False

# ---------------------------------------------------------------- selecting and updating registers (C09)
BLANK = {'startReceiptJWS': None, 'lastReceiptJWS': None, 'lastTurnoverCounter': 0, 'needRestoreReceipt': False, 'chainNextTo': None}
def registers(R, cs):
    l = R.get(cs, 'cashRegisters')
    R.require(isinstance(l, list), 'registers are not kept in a list')
    return l
def check_cluster(R, cs, regs, used, what):
    """registers and used IDs have the given values; regs: list of values"""
    l = registers(R, cs)
    R.require(len(l) == len(regs), what + ': number of registers', case={})
    for i, v in enumerate(regs): check_register(R, l[i], v, '%s: register %d' % (what, i))
    for i in range(len(l)):
        for j in range(i): R.require(l[i] is not l[j], what + ': two registers share one state')
    same_used(R, R.get(cs, 'usedReceiptIds'), used, what)
def mkanycluster(R):
    """state of a cluster with any number of registers"""
    c = R.ctx
    cs = R.new('verification_state.ClusterState')
    n = c.fresh('registers'); c.assume(n >= 0)
    def elem(I, i):
        s, v = mkregister(R, 'reg'); s.vals = v; return s
    l = R.get(cs, 'cashRegisters')
    if not isinstance(l, list) or l: raise Undecided('new cluster state has registers')
    l = MSeq(SInt(n), elem, 'registers')
    cs.attrs.setraw('cashRegisters', l)
    used = mkunique(R) if R.pick(2, 'bookkeeping') else mksorted(R)
    cs.attrs.setraw('usedReceiptIds', used)
    return cs, l, n, used
def check_any(R, cs, l, n, used, what, special=()):
    """the register list has n registers: those in special, and at every other
    index the one that was there, with the values it had"""
    I, c = R.I, R.ctx
    R.require(R.get(cs, 'cashRegisters') is l, what + ': list of registers replaced')
    R.require(mkbool(iz(l.n) == n), what + ': number of registers', case={})
    for i, v in special:
        check_register(R, l.at(I, i), v, what + ': changed register')
    j = c.fresh('anyindex')
    if I.test(mkbool(z3.And([j >= 0, j < n] + [j != i for i, _ in special]))):
        s = l.base.at(I, j)
        R.require(l.at(I, j) is s, what + ': another register is replaced')
        check_register(R, s, s.vals, what + ': another register')
    same_used(R, R.get(cs, 'usedReceiptIds'), used, what)
GP = 'verification_state.ClusterState.'
@obl(GP + 'getCashRegisterInfo', 'C09 C06 C08 C03', 'verification_state.ClusterState.getCashRegisterInfo verification_state.ClusterState.addNewCashRegister verification_state.CashRegisterState.__init__')
def _(R):
    """hands out copies of the selected register and of the used IDs, and the
    start receipt of the register before; a new register is blank"""
    I, c = R.I, R.ctx
    cs, l, n, used = mkanycluster(R)
    before = I_copy(R, used)
    idx = None if R.pick(2, 'index given') == 0 else R.int('index')
    o = R.meth(cs, 'getCashRegisterInfo', idx)
    new = idx is None or I.test(mkbool(idx.t == n))
    if not new and not I.test(mkbool(z3.And(idx.t >= 0, idx.t < n))):
        R.require(not o.ok, 'an invalid register index is accepted', 'C09')
        R.require(R.cls(o, 'verification_state.InvalidCashRegisterIndexException'), 'raises %s' % (o.v.cls.name if not o.ok else ''), 'C09')
        check_any(R, cs, l, n, before, 'refused selection changes the state'); R.done('invalid'); return
    if new and I.test(mkbool(n > 0)) and not I.test(l.base.at(I, n - 1).vals['startReceiptJWS']):
        R.require(not o.ok, 'a register is added after one without start receipt', 'C09')
        R.require(R.cls(o, 'verification_state.NoStartReceiptForLastCashRegisterException'), 'raises %s' % (o.v.cls.name if not o.ok else ''), 'C09')
        check_any(R, cs, l, n, before, 'refused selection changes the state'); R.done('refused'); return
    R.require(o.ok, 'selection of a register raises %s' % (o.v.cls.name if not o.ok else ''))
    k = n if new else idx.t
    check_any(R, cs, l, n + 1 if new else n, before, 'selection changes the state', [(n, BLANK)] if new else [])
    R.require(isinstance(o.v, tuple) and len(o.v) == 3, 'result is no triple')
    prev, st, us = o.v
    if I.test(mkbool(k > 0)): R.require(alike(I, prev, l.base.at(I, k - 1).vals['startReceiptJWS']), 'start receipt of the register before', case={})
    else: R.require(prev is None, 'a start receipt without register before')
    orig = l.at(I, k)
    check_register(R, st, BLANK if new else orig.vals, 'selected register')
    R.require(st is not orig, 'the register is not copied', 'C09')
    same_used(R, us, before, 'used IDs handed out')
    R.require(us is not R.get(cs, 'usedReceiptIds'), 'the used IDs are not copied', 'C09')
    x = R.text('newid')
    a = R.meth(us, 'add', x)
    same_used(R, R.get(cs, 'usedReceiptIds'), before, 'adding to the copy changes the original')
    R.done('new' if new else 'existing')
@obl(GP + 'updateCashRegisterInfo', 'C09 C08', 'verification_state.ClusterState.updateCashRegisterInfo')
def _(R):
    """replaces the selected register and the used IDs only"""
    I, c = R.I, R.ctx
    cs, l, n, used = mkanycluster(R)
    before = I_copy(R, used)
    s, v = mkregister(R, 'new'); nu = mkunique(R, 'newused') if R.pick(2) else mksorted(R, 'newsorted')
    nb = I_copy(R, nu)
    idx = None if R.pick(2, 'index given') == 0 else R.int('index')
    if idx is None: c.assume(n > 0)
    o = R.meth(cs, 'updateCashRegisterInfo', idx, s, nu)
    if idx is not None and not I.test(mkbool(z3.And(idx.t >= 0, idx.t < n))):
        R.require(not o.ok and R.cls(o, 'verification_state.InvalidCashRegisterIndexException'), 'an invalid register index is %s' % ('accepted' if o.ok else 'answered with ' + o.v.cls.name), 'C09')
        check_any(R, cs, l, n, before, 'refused update changes the state'); R.done('invalid'); return
    R.require(o.ok, 'update raises %s' % (o.v.cls.name if not o.ok else ''))
    check_any(R, cs, l, n, nb, 'state after update', [(n - 1 if idx is None else idx.t, v)])
    R.done('updated')
@obl('verification_state.ClusterState.__init__', 'C09 C06', 'verification_state.ClusterState.__init__ verification_state.ClusterState.fromArbitraryStartReceipt')
def _(R):
    """empty, or one register chained to a given value and receipt"""
    I = R.I
    cls = 'verification_state.UsedReceiptIdsUnique' if R.pick(2) else 'verification_state.UsedReceiptIdsSortedNatural'
    chain, last = (None, None) if R.pick(2) else (opt_text(R, 'chain'), opt_text(R, 'last'))
    o = R.call('verification_state.ClusterState', R.name(cls), chain, last)
    R.require(o.ok, 'raises %s' % (o.v.cls.name if not o.ok else ''))
    empty = True
    if chain is not None:
        if I.test(chain): empty = False
        if I.test(last): empty = False
    if empty: check_cluster(R, o.v, [], R.new(cls), 'new state')
    else: check_cluster(R, o.v, [dict(BLANK, lastReceiptJWS=last, chainNextTo=chain)], R.new(cls), 'new state')
    R.done('empty' if empty else 'one register')
@obl('verification_state.ClusterState.readStateFromJson', 'C09 C16', 'verification_state.ClusterState.readStateFromJson verification_state.CashRegisterState.fromDict verification_state.UsedReceiptIdsBackend.readFromJson', bounded='at most 2 registers', unroll={'unroll': 2, 'unroll_list': 2}, uses=['state:fromDict', 'state:readFromJson'])
def _(R):
    """any JSON value: accepted exactly if every element is there and of the
    right type; refused with the library's own exceptions"""
    I = R.I
    j = MD.SJson('json')
    o = R.call('verification_state.ClusterState.readStateFromJson', j)
    want = []
    if not j.narrow(I, ['dict']): want = None
    else:
        d = j.force(I)
        a, b = d.has(I, 'cashRegisters'), d.has(I, 'usedReceiptIds')
        if not a[1] or not b[1] or not a[2].narrow(I, ['list']): want = None
        else:
            l = a[2].force(I)
            n = next((i for i in range(4) if I.test(R.eq(l.n, i))), None)
            if n is None: raise Infeasible()
            for i in range(n):
                x = l.item(i)
                if not x.narrow(I, ['dict']) or not abstract_ok(I, x.force(I)): want = None; break
                want.append(x.force(I))
            if want is not None and not abstract_ok(I, b[2]): want = None
    if not o.ok: R.require(R.cls(o, 'verification_state.StateParseException'), 'raises %s' % o.v.cls.name)
    if want is None:
        R.require(not o.ok, 'malformed state data is accepted', 'C09', case={}); R.done('malformed'); return
    R.require(o.ok, 'well-formed state data is refused with %s' % (o.v.cls.name if not o.ok else ''), 'C09')
    l = registers(R, o.v)
    R.require(len(l) == len(want), 'number of registers', 'C09')
    for x, y in zip(l, want): R.require(x.ghost is y, 'register is read from other data', 'C09')
    R.require(R.get(o.v, 'usedReceiptIds').ghost is b[2], 'used IDs are read from other data', 'C09')
    R.done('ok')
def abstract_ok(I, v):
    """verdict of an abstract reader on a value"""
    if not hasattr(v, 'readable'): v.readable = I.ctx.choose([True, True], 'readable') == 0
    return v.readable
@contract('state:fromDict', 'verification_state.CashRegisterState.fromDict')
def _(I, f, a, k):
    d = I.models.force(I, a[0])
    if len(a) > 2 or k or not isinstance(d, MD.SymDict): return MISSING
    if not abstract_ok(I, d): raise I.exc(I.modules['verification_state'].ns['MissingStateElementException'], 'x')
    o = Obj(I.modules['verification_state'].ns['CashRegisterState']); o.ghost = d
    return o
@contract('state:readFromJson', 'verification_state.UsedReceiptIdsBackend.readFromJson')
def _(I, f, a, k):
    a = [x for x in a if not isinstance(x, Obj)]
    if len(a) != 2 or k or not isinstance(a[0], MD.SJson): return MISSING
    if not abstract_ok(I, a[0]): raise I.exc(I.modules['verification_state'].ns['MalformedStateElementException'], 'x')
    o = Obj(I.modules['verification_state'].ns['UsedReceiptIdsUnique']); o.ghost = a[0]
    return o
