"""Exceptions cross process boundaries intact: C19."""
from .common import *
from . import base
from pyvc.loops import alike

PICKLE = ['pickle restores an object from what __reduce_ex__/__reduce__ returned: the class applied to the arguments, then the state (__setstate__ or the attributes); texts, numbers, None and tuples of them are restored unchanged']
def transfer(R, e):
    """what pickle.loads(pickle.dumps(e)) does"""
    I = R.I
    for n, a in (('__reduce_ex__', [2]), ('__reduce__', [])):
        m = e.cls.find(n)
        if m is not MISSING: break
    else: raise Undecided('no __reduce__')
    red = I.models.force(I, I.call(I.getattr(e, n), a, {}))
    if not isinstance(red, tuple) or not 2 <= len(red) <= 3: raise Undecided('result of __reduce__')
    f, args = red[0], I.models.force(I, red[1])
    if not isinstance(args, tuple): raise Undecided('arguments of __reduce__')
    plain(I, args)
    new = I.call(f, list(args), {})
    if len(red) == 3 and red[2] is not None and red[2] is not e.attrs:
        st = red[2]
        m = new.cls.find('__setstate__')
        if m is not MISSING: I.call(I.getattr(new, '__setstate__'), [st], {})
        elif isinstance(st, PDict):
            for k, v in st.items(): plain(I, v); new.attrs.setraw(k, v)
        else: raise Undecided('state of an exception')
    elif len(red) == 3 and red[2] is e.attrs:
        for k, v in e.attrs.items():
            if k != 'args': plain(I, v); new.attrs.setraw(k, v)
    return new
def plain(I, v):
    v = I.models.force(I, v)
    if isinstance(v, (tuple, list)):
        for x in v: plain(I, x)
    elif v is not None and not isstr(v) and not isint(v) and not isbool(v): raise Undecided('pickles another object')
def exc_obl(qual, cls):
    @obl('exceptions: ' + qual, 'C19', qual + '.__init__ ' + qual + '.__reduce__', assumes=PICKLE)
    def _(R):
        """created with any texts, numbers or None: pickling gives an exception
        of the same type with the same message and the same receipt"""
        I = R.I
        c = R.name(qual)
        init = c.find('__init__')
        if not isinstance(init, FuncVal): raise Undecided('constructor')
        a = init.node.args
        if a.vararg or a.kwarg or a.kwonlyargs: raise Undecided('parameters of the constructor')
        n, nd = len(a.args) - 1, len(a.defaults)
        args = []
        given = n - R.pick(nd + 1, 'arguments left out') if nd else n
        for i in range(given):
            k = R.pick(3, 'argument')
            args.append(R.text('arg') if k == 0 else R.int('arg') if k == 1 else None)
        o = R.call(c, *args)
        if not o.ok: R.done('not created'); return
        try: new = Out('ok', transfer(R, o.v))
        except PyRaise as p: new = Out('exc', p.exc)
        R.require(new.ok, '%s raises %s when transferred' % (qual, new.v.cls.name if not new.ok else ''), case={'class': qual})
        R.require(isinstance(new.v, Obj) and new.v.cls is o.v.cls, '%s arrives as another type' % qual, case={'class': qual})
        for at in ('message', 'receipt'):
            x, y = o.v.attrs.raw(at, MISSING), new.v.attrs.raw(at, MISSING)
            if x is MISSING: continue
            R.require(y is not MISSING and alike(I, x, y), '%s arrives with another %s' % (qual, at), case={'class': qual})
        s, t = R.call(I.pyclass(str), o.v), R.call(I.pyclass(str), new.v)
        R.require(s.ok == t.ok, '%s arrives with another text' % qual, case={'class': qual})
        if s.ok: R.require(alike(I, s.v, t.v), '%s arrives with another text' % qual, case={'class': qual})
        R.done()
def register():
    try: I = base.interp()
    except Exception: return
    root = I.modules['utils'].ns.raw('RKSVException', None) if hasattr(I.modules['utils'].ns, 'raw') else I.modules['utils'].ns.get('RKSVException')
    for m, mod in sorted(I.modules.items()):
        for n, v in list(mod.ns.items()):
            if isinstance(v, ClassVal) and v.sub(root) and v.qual == '%s.%s' % (m, n): exc_obl(v.qual, v)
register()
