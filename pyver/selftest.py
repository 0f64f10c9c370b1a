"""Differential validation of the trusted semantics: every function of programs/*.py is executed
symbolically and, on sampled arguments, by CPython. What CPython does must be among the outcomes
that the symbolic execution allows (otherwise UNSOUND); when other outcomes are allowed too the
program is counted as imprecise, when the verifier refuses it as unsupported.

    python3-vt -m pyver.selftest [substring] [--samples N]     (in /verif)
"""
import collections
import copy
import glob
import importlib.util
import inspect
import json
import multiprocessing
import os
import random
import sys
import time
import traceback
import types

if __name__ == "__main__":
    sys.setrecursionlimit(20000)
    sys.dont_write_bytecode = True
from pyver import run
if run.REPO not in sys.path:
    sys.path.insert(0, run.REPO)
import z3
from pyver import sym, interp, verify
from pyver.interp import *
from pyver.interp import force
from pyver.sym import *

HERE = os.path.dirname(os.path.abspath(__file__))
I,R,B,S='I','R','B','S'

def load(path):
    m=types.ModuleType('pytiled_parser.snips'); m.__file__=path
    sys.modules['pytiled_parser.snips']=m
    exec(compile(open(path).read(),path,'exec'),m.__dict__)
    for k,f in list(vars(m).items()):
        if inspect.isfunction(f): f.__module__='pytiled_parser.snips'
    return m
TEXTS=["tile","","a","file"]
class Arg:
    """how one parameter is built and sampled"""
def build(ip,p):
    """-> (symbolic value, sampler(rng)->(native, [z3 constraints]))"""
    k=p.rstrip('0123456789_')
    if k in('i','j','k','n'):
        t=z3.Int(p)
        lo=0 if k=='n' else -3
        return Sc(I,t),(lambda g:(lambda v:(v,[t==v]))(g.randint(lo,5))),([t>=0] if k=='n' else [])
    if k in('b','c'):
        t=z3.Bool(p)
        return Sc(B,t),(lambda g:(lambda v:(v,[t==v]))(g.random()<.5)),[]
    if k=='r':
        t=z3.Real(p)
        return Sc(R,t),(lambda g:(lambda v:(v,[t==z3.RealVal(str(v))]))(g.choice([0.0,0.5,-1.25,3.0]))),[]
    if k in('s','t'):
        t=z3.Const(p,sym.StrS)
        return Sc(S,t),(lambda g:(lambda v:(v,[t==sym.lit(v)]))(g.choice(TEXTS))),[]
    if k=='o':
        t=z3.Int(p); h=z3.Bool(p+'h')
        return U([(h,Sc(I,t)),(z3.Not(h),None)]),(lambda g:(lambda v:(v,[h==(v is not None)]+([t==v] if v is not None else [])))(g.choice([None,0,1,2,-1]))),[]
    if k=='u':
        t=z3.Int(p); h=z3.Bool(p+'h'); s=z3.Const(p+'s',sym.StrS)
        def sm(g):
            v=g.choice([0,2]+TEXTS)
            return v,([h,t==v] if isinstance(v,int) else [z3.Not(h),s==sym.lit(v)])
        return U([(h,Sc(I,t)),(z3.Not(h),Sc(S,s))]),sm,[]
    if k=='d':
        known={};parts=[]
        for key in ('x','y','z'):
            t=z3.Int(p+key); h=True if key=='z' else z3.Bool(p+'h'+key)
            known[key]=(h,Sc(I,t)); parts.append((key,t,h))
        ref=ip.alloc_doc(DictRec(known))
        def sm(g):
            v={};cs=[]
            for key,t,h in parts:
                if h is True or g.random()<.6:
                    v[key]=g.randint(-1,3); cs+=[t==v[key]]+([h] if h is not True else [])
                else: cs.append(z3.Not(h))
            return v,cs
        return ref,sm,[]
    if k=='xs':
        ts=[z3.Int(p+str(q)) for q in range(3)]
        ref=ip.alloc_doc(ListRec([One(True,Sc(I,t)) for t in ts]))
        def sm(g):
            v=[g.randint(-1,3) for _ in ts]
            return v,[t==x for t,x in zip(ts,v)]
        return ref,sm,[]
    if k=='ys':
        ts=[z3.Int(p+str(q)) for q in range(3)]; hs=[z3.Bool(p+'h'+str(q)) for q in range(3)]
        ref=ip.alloc_doc(ListRec([One(h,Sc(I,t)) for t,h in zip(ts,hs)]))
        def sm(g):
            v=[];cs=[]
            for t,h in zip(ts,hs):
                if g.random()<.6:
                    x=g.randint(-1,3); v.append(x); cs+=[h,t==x]
                else: cs.append(z3.Not(h))
            return v,cs
        return ref,sm,[]
    raise Exception(p)
def plain(x):
    """The value as text; 1 and 1.0 are one number here (as for ==), True and 1 are two."""
    if type(x) is float and x==int(x): return repr(int(x))
    if type(x) in (list,tuple): return '%s%s'%(type(x).__name__,[plain(y) for y in x])
    if type(x) is dict: return repr([(plain(k),plain(y)) for k,y in x.items()])
    return repr(x)
class Mixed(dict):
    """A dictionary whose order the symbolic value leaves open (any iteration over it is unsupported)."""
def same(x,want):
    """x (symbolic) is `want` (native), with the order of entries where the symbolic value states one."""
    if type(x) is Mixed: return type(want) is dict and len(x)==len(want) and all(k in want and same(y,want[k]) for k,y in x.items())
    if type(x) is dict and type(want) is dict:
        return len(x)==len(want) and all(plain(a)==plain(b) and same(x[a],want[b]) for a,b in zip(x,want))
    if type(x) in (list,tuple) and type(want) is type(x): return len(x)==len(want) and all(map(same,x,want))
    return plain(x)==plain(want)
class Bad(Exception): pass
def ev(ip,st,v,m,depth=0):
    v=force(v)
    if depth>12: raise Bad('deep')
    T=lambda g: g if isinstance(g,bool) else z3.is_true(m.eval(zb(g),model_completion=True))
    if isinstance(v,U):
        hit=[x for g,x in v.alts if T(g)]
        if len(hit)!=1: raise Bad('%d alternatives'%len(hit))
        return ev(ip,st,hit[0],m,depth+1)
    if isinstance(v,CatT):
        return ''.join(ev(ip,st,x,m,depth+1) if isinstance(x,(str,Sc,CatT,CharStr)) else str(ev(ip,st,x.v,m,depth+1)) for x in v.parts)
    if isinstance(v,Sc):
        if v.s==S:
            for s,l in sym.literals().items():
                if z3.is_true(m.eval(l==v.t,model_completion=True)): return s
            raise Bad('unknown text')
        x=m.eval(v.t,model_completion=True)
        if v.s==B: return z3.is_true(x)
        if v.s==I: return x.as_long()
        return float(x.as_fraction())
    if isinstance(v,Tup): return (tuple if v.cls is tuple else v.cls._make)(ev(ip,st,x,m,depth+1) for x in v.items)
    if isinstance(v,NumT): return str(ev(ip,st,v.v,m,depth+1))
    if isinstance(v,GenV): return ev(ip,st,v.ref,m,depth+1)
    if isinstance(v,Ref):
        r=ip.rec(st,v)
        if isinstance(r,ListRec):
            out=[]
            for s in r.segs:
                if isinstance(s,One):
                    if T(s.guard): out.append(ev(ip,st,s.value,m,depth+1))
                elif isinstance(s,Comp):
                    out+=[x for x in comp(ip,st,s,m,lambda mm,val: ev(ip,st,val,mm,depth+1),s.value)]
                else: raise Bad('segment %r'%s)
            return out
        if isinstance(r,DictRec):
            out=Mixed() if r.mixed else {}
            for k,(g,x) in r.known.items():
                if T(g): out[k]=ev(ip,st,x,m,depth+1)
            for c in r.comps:
                for kk,xx in comp(ip,st,c,m,lambda mm,val:(ev(ip,st,val[0],mm,depth+1),ev(ip,st,val[1],mm,depth+1)),(c.key,c.value)):
                    out[kk]=xx
            return out
        raise Bad('record %r'%r)
    if isinstance(v,(int,float,str,bool,bytes)) or v is None: return v
    if type(v) is not tuple and isinstance(v,tuple): return type(v)(*[ev(ip,st,x,m,depth+1) for x in v])
    if isinstance(v,tuple): return tuple(ev(ip,st,x,m,depth+1) for x in v)
    if isinstance(v,(list,)): return [ev(ip,st,x,m,depth+1) for x in v]
    if isinstance(v,dict): return {k:ev(ip,st,x,m,depth+1) for k,x in v.items()}
    raise Bad('value %r'%v)
def eqf(ip,st,v,w):
    v=force(v)
    if isinstance(v,U): return z3.Or(*[z3.And(zb(g),eqf(ip,st,x,w)) for g,x in v.alts])
    if isinstance(v,Sc):
        if v.s==S: return v.t==sym.lit(w) if isinstance(w,str) else z3.BoolVal(False)
        if v.s==B: return v.t==w if isinstance(w,bool) else z3.BoolVal(False)
        if v.s==I: return v.t==int(w) if type(w) in (int,float) and w==int(w) else z3.BoolVal(False)
        return v.t==z3.RealVal(str(w)) if type(w) in (int,float) else z3.BoolVal(False)
    if isinstance(v,Tup):
        if not isinstance(w,tuple) or len(w)!=len(v.items): return z3.BoolVal(False)
        return z3.And(*[eqf(ip,st,x,y) for x,y in zip(v.items,w)])
    if v is None or isinstance(v,(bool,int,float,str,bytes)): return z3.BoolVal(plain(v)==plain(w))
    raise Bad('eqf')
class SubM:
    def __init__(self,m,sub): self.m,self.sub=m,sub
    def eval(self,t,model_completion=True): return self.m.eval(z3.substitute(t,*self.sub),model_completion=True)
def comp(ip,st,s,m,fn,val):
    def go(bs,sub):
        mm=SubM(m,sub) if sub else m
        if not bs:
            c=s.cond
            if c is True or z3.is_true(mm.eval(zb(c),model_completion=True)): yield fn(mm,val)
            return
        q,i=bs[0]
        n=mm.eval(q.n,model_completion=True).as_long()
        for x in range(max(0,n)):
            yield from go(bs[1:],sub+[(i,z3.IntVal(x))])
    return list(go(list(s.binders),[]))
def one(name,fn,nsamp,seed):
    ip=interp.Interp(timeout=5000,deadline=time.time()+60)
    args=[];samp=[];assume=[]
    for t in TEXTS: sym.lit(t)
    for p in inspect.signature(fn).parameters:
        v,s,a=build(ip,p); args.append(v); samp.append(s); assume+=a
    try: out=verify.run_function(ip,fn,args,assume=assume)
    except Unsupported as e: return 'unsupported',str(e)[:100]
    g=random.Random(seed);imp=''
    for q in range(nsamp):
        vals=[];cs=[]
        for s in samp:
            v,c=s(g); vals.append(v); cs+=c
        nat=copy.deepcopy(vals)
        try:
            r=fn(*nat); 
            if inspect.isgenerator(r): r=list(r)
            want=('ret',r)
        except Exception as e: want=('exc',type(e))
        def eq(x): return x==want and (x[0]!='ret' or same(x[1],want[1]))
        got=[];argbad=None
        outs=[(s,('exc',e.cls),None) for s,e in out.raised]
        if out.returned: outs.append((out.st,('ret',),out.value))
        for s,kind,v in outs:
            block=[]
            if kind[0]!='exc' and want[0]=='ret':
                try: F=eqf(ip,s,v,want[1])
                except Bad: F=None
                if F is not None:
                    r,m=ip.check(list(s.pc)+cs+[F])
                    if r=='sat':
                        got.append(want)
                        try:
                          for a,nv in zip(args,nat):
                            if isinstance(a,Ref):
                                x=ev(ip,s,a,m)
                                if x!=nv: argbad='%s arg after: %r instead of %r'%(vals,x,nv)
                        except Bad: pass
                    r,m=ip.check(list(s.pc)+cs+[z3.Not(F)])
                    if r=='sat':
                        try: got.append(('ret',ev(ip,s,v,m)))
                        except Bad as e: return 'uneval',str(e)
                    continue
            for _ in range(150):
                r,m=ip.check(list(s.pc)+cs+block)
                if r=='unsat': break
                if r!='sat': return 'unknown',''
                if kind[0]=='exc': got.append(kind); break
                try: got.append(('ret',ev(ip,s,v,m)))
                except Bad as e: return 'uneval',str(e)
                if got[-1]==want:
                    for a,nv in zip(args,nat):
                        if isinstance(a,Ref):
                            x=ev(ip,s,a,m)
                            if x!=nv: argbad='%s arg after: %r instead of %r'%(vals,x,nv)
                fr=[d for d in m.decls() if d.arity()==0 and ('!' in d.name() or '@' in d.name()) and not d.name().startswith('lit!') and d.range() in (z3.IntSort(),z3.BoolSort(),z3.RealSort())]
                if not fr: break
                if eq(got[-1]): break
                block+=[z3.And(d()>=-1,d()<=6) for d in fr if d.range()==z3.IntSort() and not block]
                block.append(z3.Or(*[d()!=m[d] for d in fr]))
        if not any(eq(x) for x in got): return 'UNSOUND','%s: %r, native %r'%(vals,got[:3],want)
        if argbad: return 'UNSOUND',argbad
        if not all(eq(x) for x in got): imp='%s: %r, native %r'%(vals,got[:4],want)
    if imp: return 'imprecise',imp
    return 'ok',''


def _job(a):
    path, name, samples, seed = a
    try:
        m = load(path)
        return (name,) + one(name, getattr(m, name), samples, seed)
    except Exception:
        return name, "CRASH", traceback.format_exc()[-600:]


def names(path):
    m = load(path)
    return [k for k, f in vars(m).items() if inspect.isfunction(f) and k.startswith("f_")]


def main(pattern="", samples=40, seed=1, procs=8, limit=600):
    jobs = []
    for path in sorted(glob.glob(os.path.join(HERE, "programs", "*.py"))):
        jobs += [(path, k, samples, seed) for k in names(path) if pattern in k]
    count, notes, end = collections.Counter(), [], time.time() + limit
    with multiprocessing.get_context("fork").Pool(procs) as pool:
        for name, kind, text in pool.imap_unordered(_job, jobs, chunksize=4):
            count[kind] += 1
            if kind != "ok":
                notes.append((kind, name, text))
            if time.time() > end:
                count["not run"] = len(jobs) - sum(count.values())
                break
    return dict(count), sorted(notes)


if __name__ == "__main__":
    a = sys.argv[1:]
    n = 40
    if "--samples" in a:
        k = a.index("--samples")
        n = int(a[k + 1])
        del a[k:k + 2]
    as_json = "--json" in a
    a = [x for x in a if not x.startswith("--")]
    c, notes = main(a[0] if a else "", n)
    if as_json:
        print(json.dumps(dict(count=c, notes=notes)))
    else:
        for x in notes:
            print(*x)
        print(c)
