"""Symbolic interpreter for the Python subset /repo is written in.  It runs
the abstract syntax tree of the current source; nothing is extracted or
rewritten."""
import ast, os, builtins as pyb
from .core import *
from . import core

MISSING = object()

class ClassVal(object):
    def __init__(self, name, bases, ns, module, py=None):
        self.name, self.bases, self.ns, self.module, self.py = name, bases, ns, module, py
        self.meta = None
        self.mro = self._mro()
    def _mro(self):
        seqs = [list(b.mro) for b in self.bases] + [list(self.bases)]
        out = [self]
        while any(seqs):
            seqs = [s for s in seqs if s]
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs): break
            else: raise Unsupported('mro')
            out.append(c)
            for s in seqs:
                if s and s[0] is c: s.pop(0)
        return out
    def find(self, n):
        for c in self.mro:
            if n in c.ns: return c.ns[n]
        return MISSING
    def sub(self, other): return other in self.mro
    @property
    def qual(self): return (self.module.name + '.' if self.module else '') + self.name
    def __repr__(self): return '<class %s>' % self.name
class Obj(object):
    def __init__(self, cls, attrs=None):
        self.cls = cls
        self.attrs = attrs if attrs is not None else PDict()
        self.ghost = None
    def get(self, k): return self.attrs.raw(k)
    def __repr__(self): return '<%s object>' % self.cls.name
class FuncVal(object):
    def __init__(self, node, module, parent, name, cls=None):
        self.node, self.module, self.parent, self.name, self.cls = node, module, parent, name, cls
        self.defaults, self.kwdefaults = [], {}
        self.qual = name
        self.attrs = {}
        b = node.body if isinstance(node.body, list) else []
        self.gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for s in b for x in walk_scope(s))
        self.locals = None
    def __repr__(self): return '<function %s>' % self.qual
class Bound(object):
    def __init__(self, obj, fn): self.obj, self.fn = obj, fn
    def __repr__(self): return '<bound %r>' % (self.fn,)
class Builtin(object):
    def __init__(self, name, fn): self.name, self.fn = name, fn
    def __repr__(self): return '<builtin %s>' % self.name
class ModuleVal(object):
    def __init__(self, name): self.name, self.ns = name, {}
    def __repr__(self): return '<module %s>' % self.name
class StaticM(object):
    def __init__(self, fn): self.fn = fn
class ClassM(object):
    def __init__(self, fn): self.fn = fn
class Prop(object):
    def __init__(self, fn): self.fn = fn
class Super(object):
    def __init__(self, cls, obj): self.cls, self.obj = cls, obj
def MD_MSeq():
    from .seq import MSeq
    return MSeq
class Gen(object):
    """iterator object over a Python iterator of interpreted values"""
    frame = seq = None
    started = busy = False
    def __init__(self, it): self.it = it; self.done = False
class Range(object):
    def __init__(self, a, b, s): self.a, self.b, self.s = a, b, s

class PDict(object):
    """insertion-ordered dictionary; keys may be symbolic"""
    def __init__(self, items=()):
        self.d = {}       # hashable concrete key -> entry
        self.order = []   # entries [k, v] in order
        self.base = None
        self.nsym = 0
        for k, v in items: self.setraw(k, v)
    def raw(self, k, default=MISSING):
        e = self.d.get(ckey(k))
        return e[1] if e else default
    def setraw(self, k, v):
        c = ckey(k)
        e = self.d.get(c)
        if e: e[1] = v
        else:
            e = [k, v]; self.d[c] = e; self.order.append(e)
    def delraw(self, k):
        e = self.d.pop(ckey(k)); self.order.remove(e)
    def addsym(self, k, v):
        self.order.append([k, v]); self.nsym += 1
    def copy(self):
        n = PDict()
        for k, v in self.order:
            e = [k, v]; n.order.append(e)
            if isconc(k): n.d[ckey(k)] = e
            else: n.nsym += 1
        n.base = self.base
        return n
    def keys(self): return [e[0] for e in self.order]
    def items(self): return [(e[0], e[1]) for e in self.order]
    def __contains__(self, k): return ckey(k) in self.d
class PSet(object):
    def __init__(self, items=(), base=None):
        self.items = list(items); self.base = base
    def copy(self): return PSet(self.items, self.base)

def isconc(k):
    if isinstance(k, (str, bytes, int, bool, float, type(None), ClassVal, FuncVal)): return True
    if isinstance(k, tuple): return all(isconc(x) for x in k)
    return isinstance(k, Obj) and k.cls.meta == 'enum'
def ckey(k):
    if isinstance(k, (bool, int, float)): return ('n', k)
    if isinstance(k, tuple): return ('t',) + tuple(ckey(x) for x in k)
    if isinstance(k, (ClassVal, FuncVal, Obj)): return ('o', id(k))
    return (type(k).__name__, k)

def walk_scope(n):
    """nodes of one function scope (nested functions excluded)"""
    yield n
    if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
        for x in getattr(n, 'decorator_list', []) + (n.bases if isinstance(n, ast.ClassDef) else n.args.defaults + [d for d in n.args.kw_defaults if d]):
            for y in walk_scope(x): yield y
        return
    for c in ast.iter_child_nodes(n):
        if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)): continue
        if isinstance(c, (ast.GeneratorExp, ast.ListComp, ast.SetComp, ast.DictComp)):
            # comprehensions have their own scope, but cannot contain yield
            continue
        for x in walk_scope(c): yield x

class ReturnEx(Exception):
    def __init__(self, v): self.v = v
class BreakEx(Exception): pass
class ContinueEx(Exception): pass

class Frame(object):
    __slots__ = ('vars', 'parent', 'module', 'fn', 'names', 'cls', 'self0', 'globs')
    def __init__(self, module, parent=None, fn=None, names=None):
        self.vars = {}; self.parent = parent; self.module = module; self.fn = fn
        self.names = names; self.cls = None; self.self0 = None; self.globs = set()

def local_names(node):
    a = node.args
    out = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    if a.vararg: out.add(a.vararg.arg)
    if a.kwarg: out.add(a.kwarg.arg)
    globs = set()
    for s in (node.body if isinstance(node.body, list) else [node.body]):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)): out.add(s.name); continue
        for x in walk_scope(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)): out.add(x.id)
            elif isinstance(x, ast.ExceptHandler) and x.name: out.add(x.name)
            elif isinstance(x, (ast.Import, ast.ImportFrom)):
                for al in x.names: out.add((al.asname or al.name).split('.')[0])
            elif isinstance(x, (ast.Global, ast.Nonlocal)): globs.update(x.names)
            for c in ast.iter_child_nodes(x):
                if isinstance(c, (ast.FunctionDef, ast.ClassDef)): out.add(c.name)
    return out - globs, globs

class Interp(object):
    """one loaded program"""
    def __init__(self, repo, models, package='librksv'):
        self.repo, self.package = repo, package
        self.modules = {}
        self.ctx = None
        self.models = models
        self.contracts = {}
        self.classes = {}      # python type -> ClassVal
        self.depth = 0
        self.target = None
        self.called = {}       # qualified names interpreted -> count
        self.used_contracts = set()
        self.trusted = set()
        self.loop_hooks = {}
        self.excs = []
        self.builtins = {}
        models.setup(self)

    # ------------------------------------------------ classes & exceptions
    def pyclass(self, t):
        """ClassVal standing for a Python class"""
        c = self.classes.get(t)
        if c is None:
            bases = [self.pyclass(b) for b in t.__bases__]
            c = ClassVal(t.__name__, bases, {}, None, t)
            self.classes[t] = c
        return c
    def exc(self, t, *args):
        """PyRaise for a builtin or library exception class"""
        c = self.pyclass(t) if isinstance(t, type) else t
        return PyRaise(self.mkexc(c, list(args)))
    def mkexc(self, cls, args):
        o = Obj(cls)
        o.attrs.setraw('args', tuple(args))
        return o
    def isinst(self, v, c):
        return self.typeof(v).sub(c)
    def typeof(self, v):
        if isinstance(v, Obj): return v.cls
        if isinstance(v, bool) or isinstance(v, SBool): return self.pyclass(bool)
        if isinstance(v, (int, SInt)): return self.pyclass(int)
        if isstr(v): return self.pyclass(str)
        if isbytes(v): return self.pyclass(bytes)
        if isinstance(v, (float, SFloat)): return self.pyclass(float)
        if v is None: return self.pyclass(type(None))
        if isinstance(v, tuple): return self.pyclass(tuple)
        if isinstance(v, list): return self.pyclass(list)
        if isinstance(v, PDict): return self.pyclass(dict)
        if isinstance(v, PSet): return self.pyclass(set)
        if isinstance(v, ClassVal): return self.pyclass(type)
        if isinstance(v, Gen):
            import types
            return self.pyclass(types.GeneratorType)
        if isinstance(v, Opaque): return self.models.opaque_class(self, v)
        if isinstance(v, (FuncVal, Bound, Builtin)):
            import types
            return self.pyclass(types.FunctionType)
        if isinstance(v, type): return self.pyclass(type)
        if hasattr(v, 'pytype'): return self.pyclass(v.pytype)
        raise Unsupported('type of %r' % (v,))

    # ------------------------------------------------ modules
    def load(self, name):
        """module of the package under verification"""
        m = self.modules.get(name)
        if m is None:
            m = ModuleVal(name)
            self.modules[name] = m
            path = os.path.join(self.repo, self.package, name + '.py')
            with open(path, encoding='utf-8') as f: src = f.read()
            tree = ast.parse(src)
            m.ns['__name__'] = self.package + '.' + name
            fr = Frame(m); fr.vars = m.ns
            for _ in self.block(tree.body, fr): raise Unsupported('yield at module level')
        return m
    def load_all(self, names):
        for n in names: self.load(n)
    def load_source(self, name, path):
        """an additional module (specification functions)"""
        m = ModuleVal(name)
        self.modules[name] = m
        with open(path, encoding='utf-8') as f: tree = ast.parse(f.read())
        m.ns['__name__'] = name
        fr = Frame(m); fr.vars = m.ns
        for _ in self.block(tree.body, fr): pass
        return m
    def snapshot(self):
        """remembers all module-level state so that every path starts equal"""
        seen = {}
        def visit(v):
            if id(v) in seen: return
            if isinstance(v, ModuleVal): seen[id(v)] = (v, dict(v.ns)); [visit(x) for x in v.ns.values()]
            elif isinstance(v, ClassVal):
                seen[id(v)] = (v, dict(v.ns)); [visit(x) for x in v.ns.values()]
            elif isinstance(v, Obj): seen[id(v)] = (v, v.attrs.copy()); [visit(x) for x in v.attrs.keys()]; [visit(e[1]) for e in v.attrs.order]
            elif isinstance(v, PDict): seen[id(v)] = (v, v.copy()); [visit(e[1]) for e in v.order]
            elif isinstance(v, list): seen[id(v)] = (v, list(v)); [visit(x) for x in v]
            elif isinstance(v, PSet): seen[id(v)] = (v, v.copy())
            elif isinstance(v, FuncVal):
                seen[id(v)] = (v, None)
                for x in v.defaults: visit(x)
                for x in v.kwdefaults.values(): visit(x)
        for m in list(self.modules.values()): visit(m)
        self._snap = seen
    def restore(self):
        for v, s in self._snap.values():
            if isinstance(v, (ModuleVal, ClassVal)):
                v.ns.clear(); v.ns.update(s)
            elif isinstance(v, Obj): a = s.copy(); v.attrs = a
            elif isinstance(v, PDict):
                c = s.copy(); v.d, v.order, v.nsym, v.base = c.d, c.order, c.nsym, c.base
            elif isinstance(v, list): v[:] = s
            elif isinstance(v, PSet): v.items = list(s.items)
    def begin(self, ctx):
        self.ctx = ctx
        self.depth = 0
        self.restore()
        self.excs = []

    # ------------------------------------------------ statements
    def block(self, body, fr):
        for s in body:
            for y in self.stmt(s, fr): yield y
    def stmt(self, s, fr):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None: raise Unsupported('statement ' + type(s).__name__)
        return m(s, fr) or ()
    def s_Pass(self, s, fr): pass
    def s_Import(self, s, fr):
        for a in s.names:
            v = self.models.import_module(self, a.name)
            if a.asname: self.store_name(a.asname, self.models.import_module(self, a.name, leaf=True), fr)
            else: self.store_name(a.name.split('.')[0], v, fr)
    def s_ImportFrom(self, s, fr):
        if s.module == '__future__': return
        for a in s.names:
            if s.level:
                if s.module:
                    base = s.module
                    if base == 'gettext_helper': v = self.models.gettext(self, a.name)
                    else: v = self.load(base).ns.get(a.name, MISSING)
                else: v = self.load(a.name)
            else:
                v = self.models.import_from(self, s.module, a.name)
            if v is MISSING: raise self.exc(ImportError, a.name)
            self.store_name(a.asname or a.name, v, fr)
    def s_FunctionDef(self, s, fr):
        f = self.mkfunc(s, fr, s.name)
        v = f
        for d in reversed(s.decorator_list):
            dv = self.ev(d, fr)
            if isinstance(dv, ClassVal) and dv.py is staticmethod: v = StaticM(v)
            elif isinstance(dv, ClassVal) and dv.py is classmethod: v = ClassM(v)
            elif isinstance(dv, ClassVal) and dv.py is property: v = Prop(v)
            else: v = self.call(dv, [v], {})
        self.store_name(s.name, v, fr)
    def mkfunc(self, node, fr, name):
        isclass = fr.fn is None and fr.names is CLASSBODY
        parent = fr
        while parent is not None and parent.names is CLASSBODY: parent = parent.parent
        if parent is not None and parent.fn is None: parent = None
        f = FuncVal(node, fr.module, parent, name)
        if isclass: f.qual = fr.module.name + '.' + fr.cls + '.' + name
        elif parent is not None: f.qual = parent.fn.qual + '.<locals>.' + name
        else: f.qual = fr.module.name + '.' + name
        f.defaults = [self.ev(d, fr) for d in node.args.defaults]
        f.kwdefaults = {a.arg: self.ev(d, fr) for a, d in zip(node.args.kwonlyargs, node.args.kw_defaults) if d is not None}
        f.locals, f.globs = local_names(node)
        return f
    def s_ClassDef(self, s, fr):
        bases = [self.ev(b, fr) for b in s.bases]
        bases = [b if isinstance(b, ClassVal) else self.models.as_class(self, b) for b in bases] or [self.pyclass(object)]
        cf = Frame(fr.module, fr, None, CLASSBODY)
        q = s.name
        if fr.names is CLASSBODY: q = fr.cls + '.' + q
        cf.cls = q
        for _ in self.block(s.body, cf): raise Unsupported('yield in class body')
        for k in [k for k in cf.vars if k.startswith('__') and not k.endswith('__')]:
            cf.vars['_%s%s' % (s.name.lstrip('_'), k)] = cf.vars.pop(k)
        c = ClassVal(q, bases, cf.vars, fr.module)
        c.ns.setdefault('__module__', fr.module.ns.get('__name__'))
        for b in bases:
            if b.meta: c.meta = b.meta
        for v in c.ns.values():
            f = v.fn if isinstance(v, (StaticM, ClassM, Prop)) else v
            if isinstance(f, FuncVal) and f.cls is None: f.cls = c
        for k, v in list(c.ns.items()):
            if isinstance(v, ClassVal) and v.module is fr.module: pass
        if c.meta == 'enum':
            members = []
            for k, v in list(c.ns.items()):
                if not k.startswith('_') and not isinstance(v, (FuncVal, StaticM, ClassM, Prop, ClassVal)):
                    o = Obj(c); o.attrs.setraw('name', k); o.attrs.setraw('value', v)
                    c.ns[k] = o; members.append(o)
        v = c
        for d in reversed(s.decorator_list): v = self.call(self.ev(d, fr), [v], {})
        self.store_name(s.name, v, fr)
    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Yield):
            v = self.ev(s.value.value, fr) if s.value.value else None
            return self._yield1(v)
        if isinstance(s.value, ast.YieldFrom):
            return self._yieldfrom(self.ev(s.value.value, fr))
        self.ev(s.value, fr)
    def _yield1(self, v): yield v
    def _yieldfrom(self, v):
        for x in self.iterate(v): yield x
    def s_Assign(self, s, fr):
        if isinstance(s.value, ast.Yield): raise Unsupported('yield expression')
        v = self.ev(s.value, fr)
        for t in s.targets: self.assign(t, v, fr)
    def s_AnnAssign(self, s, fr):
        if s.value is not None: self.assign(s.target, self.ev(s.value, fr), fr)
    def s_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.load_name(t.id, fr)
            self.store_name(t.id, self.aug(s.op, old, self.ev(s.value, fr)), fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            a = self.mangle(t.attr, fr)
            old = self.getattr(o, a)
            self.setattr(o, a, self.aug(s.op, old, self.ev(s.value, fr)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr); k = self.ev(t.slice, fr)
            old = self.getitem(o, k)
            self.setitem(o, k, self.aug(s.op, old, self.ev(s.value, fr)))
        else: raise Unsupported('augmented assignment')
    def aug(self, op, a, b):
        if isinstance(op, ast.Add) and isinstance(a, list):
            a.extend(self.iterate(b)); return a
        if isinstance(op, ast.Add) and isinstance(a, MD_MSeq()):
            a.extend(self, b); return a
        return self.binop(op, a, b)
    def s_Return(self, s, fr):
        raise ReturnEx(self.ev(s.value, fr) if s.value else None)
    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name): fr.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                self.models.delitem(self, self.ev(t.value, fr), self.ev_slice(t.slice, fr))
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, fr)
                a = self.mangle(t.attr, fr)
                if isinstance(o, Obj) and a in o.attrs: o.attrs.delraw(a)
                else: raise self.exc(AttributeError, a)
            else: raise Unsupported('del')
    def s_Global(self, s, fr): pass
    s_Nonlocal = s_Global
    def s_Assert(self, s, fr):
        if not self.cond(s.test, fr): raise self.exc(AssertionError)
    def s_If(self, s, fr):
        return self.block(s.body if self.cond(s.test, fr) else s.orelse, fr)
    def s_While(self, s, fr):
        n = 0
        rule = self.ctx.data.get('while_rule')
        while True:
            if rule is not None: rule(s, fr, n)
            if not self.cond(s.test, fr):
                for y in self.block(s.orelse, fr): yield y
                return
            n += 1
            if n > self.ctx.data.get('unroll', 400): raise Unsupported('loop bound')
            try:
                for y in self.block(s.body, fr): yield y
            except BreakEx: return
            except ContinueEx: pass
    def s_For(self, s, fr):
        itv = self.ev(s.iter, fr)
        probe = self.models.loop_rule(self, s, itv, fr)
        if probe is not None:
            for y in probe: yield y
            return
        rule = self.ctx.data.get('while_rule') if isinstance(itv, Gen) else None
        if rule is not None: rule(s, fr, 0, itv)
        for x in self.iterate(itv):
            self.assign(s.target, x, fr)
            try:
                for y in self.block(s.body, fr): yield y
            except BreakEx: return
            except ContinueEx: pass
            if rule is not None: rule(s, fr, 1, itv)
        for y in self.block(s.orelse, fr): yield y
    def s_Break(self, s, fr): raise BreakEx()
    def s_Continue(self, s, fr): raise ContinueEx()
    def s_With(self, s, fr):
        raise Unsupported('with')
    def s_Raise(self, s, fr):
        if s.exc is None:
            if not self.excs: raise self.exc(RuntimeError, 'No active exception to reraise')
            raise PyRaise(self.excs[-1])
        e = self.ev(s.exc, fr)
        if isinstance(e, ClassVal): e = self.call(e, [], {})
        if not (isinstance(e, Obj) and e.cls.sub(self.pyclass(BaseException))):
            raise self.exc(TypeError, 'exceptions must derive from BaseException')
        raise PyRaise(e)
    def s_Try(self, s, fr):
        if s.finalbody:
            try:
                for y in self.try_inner(s, fr): yield y
            except (PyRaise, ReturnEx, BreakEx, ContinueEx):
                for y in self.block(s.finalbody, fr): yield y
                raise
            for y in self.block(s.finalbody, fr): yield y
        else:
            for y in self.try_inner(s, fr): yield y
    def try_inner(self, s, fr):
        try:
            for y in self.block(s.body, fr): yield y
        except PyRaise as p:
            e = p.exc
            for h in s.handlers:
                if h.type is None: ok = True
                else:
                    t = self.ev(h.type, fr)
                    ts = t if isinstance(t, tuple) else (t,)
                    ok = any(e.cls.sub(c) for c in ts)
                if ok:
                    if h.name: fr.vars[h.name] = e
                    self.excs.append(e)
                    try:
                        for y in self.block(h.body, fr): yield y
                    finally:
                        self.excs.pop()
                        if h.name: fr.vars.pop(h.name, None)
                    return
            raise
        for y in self.block(s.orelse, fr): yield y

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name): self.store_name(t.id, v, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.models.unpack(self, v, len(t.elts))
            for x, y in zip(t.elts, vs): self.assign(x, y, fr)
        elif isinstance(t, ast.Attribute): self.setattr(self.ev(t.value, fr), self.mangle(t.attr, fr), v)
        elif isinstance(t, ast.Subscript): self.setitem(self.ev(t.value, fr), self.ev_slice(t.slice, fr), v)
        else: raise Unsupported('assignment target')

    # ------------------------------------------------ names
    def store_name(self, n, v, fr):
        if fr.globs and n in fr.globs:
            p = fr.parent
            while p is not None:
                if n in p.vars: p.vars[n] = v; return
                p = p.parent
            fr.module.ns[n] = v; return
        fr.vars[n] = v
    def load_name(self, n, fr):
        v = fr.vars.get(n, MISSING)
        if v is not MISSING: return v
        if fr.names is not None and fr.names is not CLASSBODY and n in fr.names:
            raise self.exc(UnboundLocalError, n)
        p = fr.parent
        while p is not None:
            if p.names is not CLASSBODY:
                v = p.vars.get(n, MISSING)
                if v is not MISSING: return v
                if p.names and n in p.names: raise self.exc(NameError, n)
            p = p.parent
        v = fr.module.ns.get(n, MISSING)
        if v is not MISSING: return v
        v = self.builtins.get(n, MISSING)
        if v is not MISSING: return v
        t = getattr(pyb, n, None)
        if isinstance(t, type): return self.pyclass(t)
        if t is not None: raise Unsupported('builtin ' + n)
        raise self.exc(NameError, n)

    # ------------------------------------------------ expressions
    def cond(self, e, fr, label=None):
        return self.test(self.ev_cond(e, fr), label or ('line %s' % getattr(e, 'lineno', '?')))
    def ev_cond(self, e, fr):
        """value of an expression used only for its truth"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return not self.cond(e.operand, fr)
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            for x in e.values:
                r = self.cond(x, fr)
                if r != isand: return r
            return isand
        return self.ev(e, fr)
    def test(self, v, label=''):
        t = self.truth(v)
        if t is True or t is False: return t
        return self.ctx.branch(t, label)
    def truth(self, v):
        """bool or z3 Bool"""
        if v is None or v is False: return False
        if v is True: return True
        if isinstance(v, SBool): return v.t
        if isinstance(v, (int, float, str, bytes, tuple, list)): return bool(v)
        if isinstance(v, SInt): return v.t != 0
        if isinstance(v, SRope):
            ps = self.ctx.parts(v)
            if any(isinstance(p, LITS) for p in ps): return True
            if not ps: return False
            return disj([neg(self.ctx.atom_eq_lit(p, '')) for p in ps])
        if isinstance(v, (ClassVal, FuncVal, Bound, Builtin, ModuleVal, Gen)): return True
        if isinstance(v, PDict) and v.base is None: return len(v.order) > 0
        if isinstance(v, Obj):
            f = v.cls.find('__bool__')
            if f is not MISSING: return self.truth(self.call(Bound(v, f), [], {}))
            f = v.cls.find('__len__')
            if f is not MISSING: return self.truth(self.call(Bound(v, f), [], {}))
            if v.cls.sub(self.pyclass(list)) or v.cls.sub(self.pyclass(dict)): raise Unsupported('container subclass')
            return True
        return self.models.truth(self, v)
    def ev(self, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None: raise Unsupported('expression ' + type(e).__name__)
        return m(e, fr)
    def e_Constant(self, e, fr): return e.value
    def e_Name(self, e, fr): return self.load_name(e.id, fr)
    def e_Tuple(self, e, fr): return tuple(self.elts(e, fr))
    def e_List(self, e, fr): return list(self.elts(e, fr))
    def elts(self, e, fr):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred): out.extend(self.iterate(self.ev(x.value, fr)))
            else: out.append(self.ev(x, fr))
        return out
    def e_Set(self, e, fr):
        s = PSet()
        for x in self.elts(e, fr): self.models.set_add(self, s, x)
        return s
    def e_Dict(self, e, fr):
        d = PDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                for a, b in self.models.dict_items(self, self.ev(v, fr)): self.setitem(d, a, b)
            else: self.setitem(d, self.ev(k, fr), self.ev(v, fr))
        return d
    def e_IfExp(self, e, fr):
        return self.ev(e.body if self.cond(e.test, fr) else e.orelse, fr)
    def e_Lambda(self, e, fr): return self.mkfunc(e, fr, '<lambda>')
    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr); self.assign(e.target, v, fr); return v
    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        for i, x in enumerate(e.values):
            v = self.ev(x, fr)
            if i == len(e.values) - 1: return v
            if self.test(v, 'line %d' % e.lineno) != isand: return v
    def e_UnaryOp(self, e, fr):
        if isinstance(e.op, ast.Not):
            t = self.truth(self.ev(e.operand, fr))
            return (not t) if isinstance(t, bool) else mkbool(z3.Not(t))
        v = self.models.force(self, self.ev(e.operand, fr))
        if isinstance(e.op, ast.USub):
            if isinstance(v, (int, float)): return -v
            if isnum(v): return mkint(-iz(v))
            if isinstance(v, SFloat): return SFloat(-v.real if v.real is not None else None, v.err, v.mag)
        if isinstance(e.op, ast.UAdd) and (isnum(v) or isinstance(v, (float, SFloat))): return v
        if isinstance(e.op, ast.Invert) and isinstance(v, int): return ~v
        if v is POISON: return v
        if isstr(v) or isbytes(v) or v is None or isinstance(v, (list, tuple, PDict)): raise self.exc(TypeError, 'bad operand type for unary operator')
        raise Unsupported('unary operator')
    def e_BinOp(self, e, fr):
        return self.binop(e.op, self.ev(e.left, fr), self.ev(e.right, fr))
    def binop(self, op, a, b):
        return self.models.binop(self, type(op).__name__, a, b)
    def e_Compare(self, e, fr):
        l = self.ev(e.left, fr)
        res = True
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            rv = self.ev(r, fr)
            res = self.compare(type(op).__name__, l, rv)
            if i < len(e.ops) - 1 and not self.test(res): return False
            l = rv
        return res
    def compare(self, op, a, b):
        t = self.models.compare(self, op, a, b)
        if t is POISON: return t
        return t if isinstance(t, bool) else mkbool(t)
    def e_Call(self, e, fr):
        f = e.func
        if isinstance(f, ast.Name) and f.id == 'super' and 'super' not in fr.vars:
            if e.args:
                c = self.ev(e.args[0], fr); o = self.ev(e.args[1], fr)
            else:
                p = fr
                while p.fn is None or p.fn.cls is None: p = p.parent
                c, o = p.fn.cls, p.self0
            return Super(c, o)
        fn = self.ev(f, fr)
        args = []
        for x in e.args:
            if isinstance(x, ast.Starred): args.extend(self.iterate(self.ev(x.value, fr)))
            else: args.append(self.ev(x, fr))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                for a, b in self.models.dict_items(self, self.ev(k.value, fr)): kw[a] = b
            else: kw[k.arg] = self.ev(k.value, fr)
        return self.call(fn, args, kw)
    def e_Attribute(self, e, fr): return self.getattr(self.ev(e.value, fr), self.mangle(e.attr, fr))
    def mangle(self, n, fr):
        if not n.startswith('__') or n.endswith('__'): return n
        p = fr
        while p is not None:
            if p.fn is not None and p.fn.cls is not None: return '_%s%s' % (p.fn.cls.name.split('.')[-1].lstrip('_'), n)
            p = p.parent
        return n
    def e_Subscript(self, e, fr):
        return self.getitem(self.ev(e.value, fr), self.ev_slice(e.slice, fr))
    def ev_slice(self, s, fr):
        if isinstance(s, ast.Slice):
            g = lambda x: self.ev(x, fr) if x is not None else None
            return slice(g(s.lower), g(s.upper), g(s.step))
        return self.ev(s, fr)
    def e_JoinedStr(self, e, fr):
        out = ['']
        for v in e.values:
            if isinstance(v, ast.Constant): out.append(v.value)
            else:
                x = self.ev(v.value, fr)
                spec = ''
                if v.format_spec is not None:
                    spec = self.ctx.conc(self.e_JoinedStr(v.format_spec, fr))
                    if spec is None: raise Unsupported('format spec')
                out.append(self.models.fmt_one(self, x, spec, chr(v.conversion) if v.conversion > 0 else None))
        return self.ctx.cat(*out)
    def comp(self, gens, fr, leaf, gen=False, reads=()):
        """generator over a comprehension's bindings"""
        cf = Frame(fr.module, fr, fr.fn, None)
        cf.self0 = fr.self0
        first = self.ev(gens[0].iter, fr)
        if len(gens) == 1 and not gens[0].ifs:
            r = self.models.lazycomp(self, first, gens[0].target, fr, cf, leaf, gen, reads)
            if r is not None: return r
            def elt(x):
                self.assign(gens[0].target, x, cf)
                return leaf(cf)
            r = self.models.many(self, first, elt)
            if r is not None: return r
        return self._comp(gens, 0, first, cf, leaf)
    def _comp(self, gens, i, itv, cf, leaf):
        g = gens[i]
        for x in self.iterate(itv):
            self.assign(g.target, x, cf)
            if all(self.cond(c, cf) for c in g.ifs):
                if i + 1 < len(gens):
                    for y in self._comp(gens, i + 1, self.ev(gens[i + 1].iter, cf), cf, leaf): yield y
                else: yield leaf(cf)
    def e_ListComp(self, e, fr):
        r = self.models.comp_rule(self, e, fr, list)
        if r is not None: return r
        r = self.comp(e.generators, fr, lambda f: self.ev(e.elt, f), reads=[e.elt])
        return r if self.models.ismany(r) else list(r)
    def e_GeneratorExp(self, e, fr):
        r = self.models.comp_rule(self, e, fr, Gen)
        if r is not None: return r
        r = self.comp(e.generators, fr, lambda f: self.ev(e.elt, f), True, [e.elt])
        return r if self.models.ismany(r) or isinstance(r, Gen) else Gen(r)
    def e_SetComp(self, e, fr):
        s = PSet()
        for x in self.comp(e.generators, fr, lambda f: self.ev(e.elt, f), reads=[e.elt]): self.models.set_add(self, s, x)
        return s
    def e_DictComp(self, e, fr):
        d = PDict()
        for k, v in self.comp(e.generators, fr, lambda f: (self.ev(e.key, f), self.ev(e.value, f)), reads=[e.key, e.value]): self.setitem(d, k, v)
        return d

    # ------------------------------------------------ objects
    def getattr(self, o, n, default=MISSING):
        r = self._getattr(o, n)
        if r is MISSING:
            if default is not MISSING: return default
            raise self.exc(AttributeError, "'%s' object has no attribute '%s'" % (self.typename(o), n))
        return r
    def typename(self, o):
        try: return self.typeof(o).name
        except Unsupported: return '?'
    def bind(self, o, c, v):
        if isinstance(v, (FuncVal, Builtin)): return Bound(o, v)
        if isinstance(v, StaticM): return v.fn
        if isinstance(v, ClassM): return Bound(c, v.fn)
        if isinstance(v, Prop): return self.call(v.fn, [o], {})
        return v
    def _getattr(self, o, n):
        if isinstance(o, Obj):
            if n == '__dict__': return o.attrs
            if n == '__class__': return o.cls
            v = o.attrs.raw(n)
            if v is not MISSING: return v
            v = o.cls.find(n)
            if v is not MISSING: return self.bind(o, o.cls, v)
            return self.models.obj_attr(self, o, n)
        if isinstance(o, ModuleVal):
            return o.ns.get(n, MISSING)
        if isinstance(o, ClassVal):
            if n == '__name__': return o.name.split('.')[-1]
            if n == '__dict__': return PDict(o.ns.items())
            v = o.find(n)
            if v is not MISSING:
                if isinstance(v, StaticM): return v.fn
                if isinstance(v, ClassM): return Bound(o, v.fn)
                return v
            return self.models.class_attr(self, o, n)
        if isinstance(o, Super):
            obj = o.obj
            mro = (obj.cls if isinstance(obj, Obj) else obj).mro
            for c in mro[mro.index(o.cls) + 1:]:
                if n in c.ns: return self.bind(obj, obj, c.ns[n]) if isinstance(obj, Obj) else c.ns[n]
            return self.models.super_attr(self, o, n)
        if isinstance(o, FuncVal):
            if n == '__name__': return o.name
            return o.attrs.get(n, MISSING)
        if isinstance(o, Bound) and n == '__self__': return o.obj
        return self.models.attr(self, o, n)
    def setattr(self, o, n, v):
        if isinstance(o, Obj):
            p = o.cls.find(n)
            if isinstance(p, Prop): raise Unsupported('property setter')
            o.attrs.setraw(n, v)
        elif isinstance(o, (ClassVal, ModuleVal)): o.ns[n] = v
        elif isinstance(o, FuncVal): o.attrs[n] = v
        else: self.models.setattr(self, o, n, v)
    def getitem(self, o, k):
        if isinstance(o, Obj):
            f = o.cls.find('__getitem__')
            if f is not MISSING: return self.call(Bound(o, f), [k], {})
        return self.models.getitem(self, o, k)
    def setitem(self, o, k, v):
        if isinstance(o, Obj):
            f = o.cls.find('__setitem__')
            if f is not MISSING: return self.call(Bound(o, f), [k, v], {})
        return self.models.setitem(self, o, k, v)

    # ------------------------------------------------ iteration
    def iterate(self, v):
        """Python iterator over the values of an interpreted iterable"""
        if isinstance(v, (list,)): return self._iterlist(v)
        if isinstance(v, tuple): return iter(v)
        if isinstance(v, Gen): return self._itergen(v)
        if isinstance(v, Obj):
            f = v.cls.find('__iter__')
            if f is not MISSING:
                r = self.call(Bound(v, f), [], {})
                if r is not v: return self.iterate(r)
            if v.cls.find('__next__') is not MISSING or f is not MISSING: return self._iterobj(v)
        return self.models.iterate(self, v)
    def _iterlist(self, v):
        i = 0
        while i < len(v):
            yield v[i]; i += 1
    def _itergen(self, g):
        while True:
            try: x = self.gnext(g)
            except StopIteration: return
            yield x
    def gnext(self, g):
        """next item of a Gen; Python StopIteration at its end"""
        if g.done: raise StopIteration
        if g.busy: raise Unsupported('iterator of a loop used elsewhere')
        g.started = True
        try: return next(g.it)
        except StopIteration: g.done = True; raise
        except PyRaise: g.done = True; raise
    def _iterobj(self, o):
        while True:
            try: x = self.call(self.getattr(o, '__next__'), [], {})
            except PyRaise as p:
                if p.exc.cls.sub(self.pyclass(StopIteration)): return
                raise
            yield x
    def next(self, v):
        """one step of an interpreted iterator; PyRaise(StopIteration) at end"""
        if isinstance(v, Gen):
            try: return self.gnext(v)
            except StopIteration: raise self.exc(StopIteration)
        if isinstance(v, Obj): return self.call(self.getattr(v, '__next__'), [], {})
        raise Unsupported('next of %r' % (v,))

    # ------------------------------------------------ calls
    def call(self, f, args, kw=None):
        kw = kw or {}
        if isinstance(f, Bound): return self.call(f.fn, [f.obj] + list(args), kw)
        if isinstance(f, FuncVal): return self.call_func(f, args, kw)
        if isinstance(f, Builtin): return f.fn(self, list(args), kw)
        if isinstance(f, ClassVal): return self.instantiate(f, args, kw)
        if isinstance(f, Obj):
            c = f.cls.find('__call__')
            if c is not MISSING: return self.call(Bound(f, c), args, kw)
        if isinstance(f, (StaticM, ClassM)): return self.call(f.fn, args, kw)
        if f is POISON: return POISON
        return self.models.call(self, f, args, kw)
    def instantiate(self, c, args, kw):
        h = self.models.construct(self, c, args, kw)
        if h is not MISSING: return h
        if c.meta == 'enum':
            for v in c.ns.values():
                if isinstance(v, Obj) and v.cls is c and self.test(self.compare('Eq', v.attrs.raw('value'), args[0])): return v
            raise self.exc(ValueError, 'enum')
        o = Obj(c)
        key = c.qual + '.__init__'
        init = c.find('__init__')
        if c.sub(self.pyclass(BaseException)): o.attrs.setraw('args', tuple(args))
        if init is not MISSING: self.call(Bound(o, init), args, kw)
        elif (args or kw) and not c.sub(self.pyclass(BaseException)): raise self.exc(TypeError, c.name + '() takes no arguments')
        return o
    def bindargs(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        if len(args) > len(names):
            if not a.vararg: raise self.exc(TypeError, '%s() takes %d positional arguments but %d were given' % (f.name, len(names), len(args)))
            out[a.vararg.arg] = tuple(args[len(names):]); args = args[:len(names)]
        elif a.vararg: out[a.vararg.arg] = ()
        for n, v in zip(names, args): out[n] = v
        rest = {}
        konly = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in names or k in konly:
                if k in out: raise self.exc(TypeError, 'multiple values for argument')
                out[k] = v
            elif a.kwarg: rest[k] = v
            else: raise self.exc(TypeError, "unexpected keyword argument '%s'" % k)
        if a.kwarg: out[a.kwarg.arg] = PDict(rest.items())
        nd = len(f.defaults)
        for n, d in zip(names[len(names) - nd:], f.defaults):
            if n not in out: out[n] = d
        for n in konly:
            if n not in out:
                if n in f.kwdefaults: out[n] = f.kwdefaults[n]
                else: raise self.exc(TypeError, 'missing keyword argument')
        for n in names:
            if n not in out: raise self.exc(TypeError, "%s() missing argument '%s'" % (f.name, n))
        return out
    def call_func(self, f, args, kw):
        spec = self.contracts.get(f.qual)
        if spec is not None and f.qual != self.target_qual():
            r = spec(self, f, args, kw)
            if r is not MISSING:
                self.used_contracts.add(f.qual)
                return r
        self.called[f.qual] = self.called.get(f.qual, 0) + 1
        fr = Frame(f.module, f.parent, f, f.locals)
        fr.globs = f.globs
        fr.vars.update(self.bindargs(f, args, kw))
        if args: fr.self0 = args[0]
        if isinstance(f.node, ast.Lambda): return self.ev(f.node.body, fr)
        if f.gen:
            g = Gen(self._rungen(f, fr)); g.frame = fr
            return g
        self.depth += 1
        if self.depth > 80:
            self.depth = 0
            raise Unsupported('recursion depth')
        try:
            for _ in self.block(f.node.body, fr): raise Unsupported('yield')
        except ReturnEx as r: return r.v
        finally: self.depth -= 1
        return None
    def _rungen(self, f, fr):
        try:
            for y in self.block(f.node.body, fr): yield y
        except ReturnEx: return
        except PyRaise as p:
            if p.exc.cls.sub(self.pyclass(StopIteration)):
                raise self.exc(RuntimeError, 'generator raised StopIteration')
            raise
    def target_qual(self): return self.target

CLASSBODY = frozenset(['<class body>'])
