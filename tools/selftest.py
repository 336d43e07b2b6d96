import sys,random,time
sys.path.insert(0,'/verif')
from lib import env, fals
from pyvc import verifier as V, models as MD
from pyvc.core import *
from pyvc.interp import *
I=V.load(env.REPO)
from librksv import receipt as R, utils as U
ex=Explorer(); ex.lit_hook=MD.lit_hook
def canon(v):
    if isinstance(v,Obj):
        if v.cls.meta=='enum': return ('enum',v.get('name'))
        return (v.cls.name.split('.')[-1],tuple(sorted((k,canon(x)) for k,x in v.attrs.items() )))
    if isinstance(v,(list,tuple)): return tuple(canon(x) for x in v)
    if isinstance(v,PDict): return tuple((k,canon(x)) for k,x in v.items())
    if isinstance(v,SRope):
        c=I.ctx.conc(v); return canon(c) if c is not None else repr(v)
    if isinstance(v,Opaque): return v.kind
    return v
def pcanon(v):
    import enum,datetime
    if isinstance(v,enum.Enum): return ('enum',v.name)
    if isinstance(v,(list,tuple)): return tuple(pcanon(x) for x in v)
    if isinstance(v,dict): return tuple((k,pcanon(x)) for k,x in v.items())
    if isinstance(v,datetime.datetime): return 'datetime'
    if hasattr(v,'__dict__') and not isinstance(v,type): return (type(v).__name__,tuple(sorted((k,pcanon(x)) for k,x in v.__dict__.items())))
    return v
def irun(q,args):
    ctx=Ctx(ex,[]); I.begin(ctx)
    f=I.modules['receipt'].ns['Receipt'].ns[q]
    try: return ('ok',canon(I.call(f.fn if isinstance(f,StaticM) else f,args,{})))
    except PyRaise as p: return ('exc',p.exc.cls.name, canon(I.call(I.getattr(p.exc,'__str__'),[],{})))
def prun(q,args):
    try: return ('ok',pcanon(getattr(R.Receipt,q)(*args)))
    except Exception as e: return ('exc',type(e).__name__,str(e))
rng=random.Random(int(sys.argv[1])); t=time.time(); n=bad=0
while n<int(sys.argv[2]):
    c=fals.gen_fmt(rng)
    if n==0: print(str(c)[:300])
    for k,v in c.items():
        if k in('kind',) or not isinstance(v,str): continue
        for q in ('fromJWSString','fromBasicCode','fromOCRCode','fromCSV'):
            a,b=irun(q,[v]),prun(q,[v])
            if a!=b:
                bad+=1
                if bad<5: print(q,repr(v)[:200]); print(' I',str(a)[:400]); print(' P',str(b)[:400])
    n+=1
print(n,bad,time.time()-t)
