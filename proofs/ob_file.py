"""Reading JSON documents from files: C10, C16."""
import io
from .common import *
from . import common as CM, base
from .ob_dep import *
from .base import Out

class File(object):
    """open file at some position with unknown contents after it"""
    def __init__(self, R):
        c = R.ctx; self.R = R
        self.textual = R.pick(2, 'binary file') == 0
        self.seekable = R.pick(2, 'not seekable') == 0
        self.content = R.text('content', L.NOSURR) if self.textual else R.bytes('content')
        self.off = 0; self.reads = 0
        self.tok = c.fresh('file', 'A')
        t = (io.TextIOBase, io.IOBase, object) if self.textual else (io.BufferedIOBase, io.IOBase, object)
        self.ext = MD.Ext('file', f=self, pytypes=t)
        self.start = None
        self.bom = '\ufeff' if self.textual else b'\xef\xbb\xbf'
    def tell(self):
        if not self.seekable: raise self.R.I.exc(OSError, 'not seekable')
        t = F('tell', 'AI>I')(self.tok, z3.IntVal(self.off)); self.R.ctx.assume(t >= 0)
        return SInt(t)
    def has(self):
        m = getattr(self, '_has', None)
        if m is None: m = self._has = self.R.I.test(self.R.I.call(self.R.I.getattr(self.content, 'startswith'), [self.bom], {}), 'starts with a BOM')
        return m
    def read(self, n):
        self.reads += 1
        v = self.R.I.models.getitem(self.R.I, self.content, slice(self.off, self.off + n))
        k = I_len(self.R, v)
        self.off += k
        return v
def I_len(R, v):
    n = R.length(v)
    if isinstance(n, int): return n
    for k in range(5):
        if R.ctx.branch(n.t == k, 'length'): return k
    raise Unsupported('reading that much')
@libs.meth('file', 'tell')
def _(I, o, a, k): return o.f.tell()
@libs.meth('file', 'seek')
def _(I, o, a, k):
    f = o.f
    if len(a) != 1 or k: raise Unsupported('seek')
    if not f.seekable: raise I.exc(OSError, 'not seekable')
    p = I.models.force(I, a[0])
    if I.ctx.implied(bt(I.models.equal(I, p, f.start))): f.off = 0
    elif not I.ctx.implied(iz(p) == F('tell', 'AI>I')(f.tok, z3.IntVal(f.off))): raise Unsupported('seek elsewhere')
    return p
@libs.meth('file', 'seekable')
def _(I, o, a, k): return o.f.seekable
@libs.meth('file', 'read')
def _(I, o, a, k):
    n = I.models.force(I, a[0]) if a else None
    if not isinstance(n, int) or n < 0: raise Unsupported('read')
    return o.f.read(n)
SB = 'utils.skipBOM'
IP = DP + 'IncrementalDEPParser'
@obl(SB, 'C10 C16', SB)
def _(R):
    """a BOM at the start of a file is skipped, nothing else; files that cannot
    be rewound are left alone"""
    I = R.I
    f = File(R)
    try: st = f.tell() if f.seekable else None
    except PyRaise: st = None
    f.start = st
    o = R.call(SB, f.ext)
    R.require(o.ok, 'raises %s' % (o.v.cls.name if not o.ok else ''))
    if not f.seekable:
        R.require(f.reads == 0, 'reads from a stream that cannot be rewound')
        R.done('stream'); return
    want = len(f.bom) if f.has() else 0
    R.require(f.off == want, 'stands at %d instead of %d' % (f.off, want))
    R.require(R.eq(o.v, f.tell()), 'another position')
    R.done('BOM' if want else 'no BOM')
RJ = 'utils.readJsonStream'
JSONERRORS = [ValueError, UnicodeDecodeError, OSError, RecursionError]
@contract(SB, SB)
def _(I, f, a, k):
    x = a[0] if a else None
    if not isinstance(x, MD.Ext) or x.kind not in ('file', 'docfd') or len(a) != 1 or k: return MISSING
    if x.kind == 'docfd':
        # file that holds a document from some position on
        n = I.ctx.fresh('startpos'); I.ctx.assume(n >= 0)
        x.pos = x.start = SInt(n)
        return SInt(n)
    g = x.f
    if not g.seekable: return 0
    g.off = len(g.bom) if g.has() else 0
    return g.tell()
def load(I, a, k):
    x = a[0] if a else None
    if not isinstance(x, MD.Ext) or x.kind != 'file' or len(a) != 1 or k: raise Unsupported('json.load')
    g = x.f
    want = len(g.bom) if g.seekable and g.has() else 0
    g.R.require(g.off == want, 'the document is read from %d instead of %d on' % (g.off, want))
    g.loads = getattr(g, 'loads', 0) + 1
    n = I.ctx.choose([True] * (1 + len(JSONERRORS)), 'outcome of json.load')
    if n: g.failed = JSONERRORS[n - 1]; raise I.exc(JSONERRORS[n - 1], 'json')
    g.value = MD.SJson('document')
    return g.value
@libs.func('json.load')
def _(I, a, k): return load(I, a, k)
@contract(RJ, RJ)
def _(I, f, a, k):
    x = a[0] if a else None
    if not isinstance(x, MD.Ext) or x.kind != 'file' or len(a) != 1 or k: return MISSING
    g = x.f
    g.loads = getattr(g, 'loads', 0) + 1
    n = I.ctx.choose([True] * 4, 'outcome of readJsonStream')
    if n: g.failed = JSONERRORS[n - 1]; raise I.exc(JSONERRORS[n - 1], 'json')
    g.value = MD.SJson('document')
    return g.value
@obl(RJ, 'C10 C16', RJ, uses=[SB], assumes=['json.load returns a JSON value or raises ValueError, UnicodeDecodeError, IOError or RecursionError'])
def _(R):
    """the value of the document, or one of the errors the callers expect"""
    I = R.I
    f = File(R)
    o = R.call(RJ, f.ext)
    if o.ok:
        R.require(getattr(f, 'loads', 0) == 1 and not hasattr(f, 'failed') and o.v is f.value, 'another value')
        R.done('value'); return
    R.require(hasattr(f, 'failed'), 'raises %s for a readable document' % o.v.cls.name)
    R.require(any(o.v.cls.sub(I.pyclass(x)) for x in (ValueError, OSError)), 'raises %s' % o.v.cls.name, 'C16')
    R.done('error')
FF = DP + 'FullFileDEPParser.parse'
def _dictnew(I, f, a, k):
    if I.ctx.data.get('dictparse') is None: return MISSING
    b = I.bindargs(f, a, k)
    if set(b) != {'self', 'dep', 'nparts'}: return MISSING
    b['self'].attrs.setraw('_args', (b['dep'], b['nparts']))
    return None
def _dictparse(I, f, a, k):
    d = I.ctx.data.get('dictparse')
    b = I.bindargs(f, a, k)
    if d is None or set(b) != {'self', 'chunksize'}: return MISSING
    x = b['self'].attrs.raw('_args')
    if x is MISSING: return MISSING
    r = Gen(iter([]))
    d.append(x + (b['chunksize'], r))
    return r
contract('whole document: parser', DP + 'DictDEPParser.__init__')(_dictnew)
contract('whole document: chunks', PA)(_dictparse)
@obl(FF, 'C10 C16', FF + ' ' + DP + 'FullFileDEPParser.__init__', uses=[RJ, 'whole document: parser', 'whole document: chunks'])
def _(R):
    """the chunks the dictionary parser makes of the document in the file, as
    often as they are asked for"""
    I, c = R.I, R.ctx
    f = File(R)
    d = c.data['dictparse'] = []
    n = R.int('nparts', 1)
    if R.pick(2, 'parts given') == 0: p = R.new(DP + 'FullFileDEPParser', f.ext, n)
    else: p, n = R.new(DP + 'FullFileDEPParser', f.ext), 1
    for i in range(2):
        s = R.int('chunksize', 0) if R.pick(2, 'size given') == 0 else None
        o = R.meth(p, 'parse', *([] if s is None else [s]))
        if o.ok and isinstance(o.v, Gen) and not any(o.v is x[3] for x in d):
            # a generator of its own
            out = []
            try:
                for x in I.iterate(o.v): raise Unsupported('chunks')
            except PyRaise as e: o = Out('raise', e.exc)
        if hasattr(f, 'failed'):
            R.require(not o.ok, 'a broken document is accepted')
            R.require(R.cls(o, ERR), 'a broken document is answered with %s' % o.v.cls.name)
            R.done('error'); return
        R.require(o.ok, 'raises %s' % (o.v.cls.name if not o.ok else ''))
        if len(d) != i + 1: raise Undecided('parser used in another way')
        dep, np, size, r = d[i]
        R.require(dep is f.value, 'another document')
        R.require(R.eq(np, n), 'another number of parts')
        R.require(R.eq(size, 0 if s is None else s), 'another chunk size')
    R.done('ok')
FD = IP + '.fromFd'
@obl(FD, 'C10', FD, uses=[SB])
def _(R):
    """the parser that fits the file and the need for certificates"""
    I = R.I
    f = File(R)
    n = R.pick(3, 'certificates')
    need = [True, True, False][n]
    o = R.call(FD, f.ext, *[[], [True], [False]][n])
    R.require(o.ok, 'raises %s' % (o.v.cls.name if not o.ok else ''))
    R.require(isinstance(o.v, Obj) and o.v.cls.sub(R.name(IP)), 'no parser')
    less = o.v.cls.sub(R.name(DP + 'CertlessStreamDEPParser'))
    if need:
        R.require(not less, 'certificates are left out')
        R.require(o.v.cls.sub(R.name(DP + ('FileDEPParser' if f.seekable else 'StreamDEPParser'))), 'parser for another kind of file')
    R.done(o.v.cls.name)
