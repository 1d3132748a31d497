"""refac.py FILE...: each FILE: first line '# path', rest = functions (module level or Class.method via '# in Class') replacing
those of the same name, other new ones are placed before the first replaced; '# kind: R' or 'B'. Cases separated by '#----'"""
import ast, sys, os, io, importlib, contextlib, time
sys.path.insert(0,'/verif/sa'); os.environ["VERIF_EVIDENCE"]="/tmp/refac-evidence"
import core
from multiprocessing import Pool
ALL=[p[:-3].upper() for p in sorted(os.listdir('/verif/sa/props')) if p.startswith('c') and p.endswith('.py')]
def cases(fn):
    for block in open(fn).read().split('#----\n'):
        if not block.strip(): continue
        lines=block.splitlines(True)
        hdr={}
        while lines and lines[0].startswith('#@'):
            k,v=lines.pop(0)[2:].split(':',1); hdr[k.strip()]=v.strip()
        yield hdr,''.join(lines)
def apply(hdr,src):
    path='/repo/'+hdr['path']
    s=open(path).read()
    if hdr.get('edit'):
        for part in src.split('#==\n'):
            o,n=part.split('#=>\n')
            o,n=o.strip(),n.strip()
            import re
            m=re.search(r'(?:\s+#[^\n]*\n)*\s+'.join(re.escape(w) for w in o.split()),s)
            assert m,('STALE',o)
            s=s[:m.start()]+n+s[m.end():]
        return {hdr['path']:s}
    tree=ast.parse(s); L=s.splitlines(True)
    new=ast.parse(src); NL=src.splitlines(True)
    cls=hdr.get('class')
    body=tree.body if not cls else next(x for x in tree.body if isinstance(x,ast.ClassDef) and x.name==cls).body
    old={}
    for x in body:
        if isinstance(x,(ast.FunctionDef,ast.ClassDef)):
            old[x.name]=(min([x.lineno]+[d.lineno for d in x.decorator_list]),x.end_lineno)
        elif isinstance(x,ast.Assign) and isinstance(x.targets[0],ast.Name): old[x.targets[0].id]=(x.lineno,x.end_lineno)
    pend=[];rep=[]
    for x in new.body:
        st=min([x.lineno]+[d.lineno for d in getattr(x,'decorator_list',[])])
        txt=''.join(NL[st-1:x.end_lineno])
        if cls: txt=''.join('    '+l if l.strip() else l for l in txt.splitlines(True))
        nm=getattr(x,'name',None) or (x.targets[0].id if isinstance(x,ast.Assign) else None)
        if nm in old:
            rep.append((old[nm],'\n\n'.join(pend+[txt])+'\n')); pend=[]
        else: pend.append(txt)
    if pend: rep.append(((len(L)+1,len(L)),'\n\n'+'\n\n'.join(pend)+'\n'))
    for (a,b),t in sorted(rep,reverse=True):
        L[a-1:b]=[t]
    out=''.join(L)
    ast.parse(out)
    return {hdr['path']:out}
def one(a):
    pid,files=a
    m=importlib.import_module('props.'+pid.lower())
    t=time.time()
    ck=core.Check(pid,overlay=files)
    try:
        m.check(ck)
        und=[o for o in ck.obl if o[2]=='undecided']
        rc=1 if ck.viol else (3 if len(ck.obl)<m.MINIMUM and not und else 0)
        return pid,rc,[(v['file'],v['line'],v['construct'],v['detail'][:200]) for v in ck.viol],[(o[1],o[3][:150]) for o in und],time.time()-t
    except core.AnalysisError as e: return pid,3,[],[('',str(e))],time.time()-t
    except Exception as e: return pid,0,[],[('crash',repr(e))],time.time()-t
if __name__=='__main__':
    dump='--dump' in sys.argv
    with Pool(8) as P:
        for fn in [a for a in sys.argv[1:] if a[0]!='-']:
            for n,(hdr,src) in enumerate(cases(fn)):
                files=apply(hdr,src)
                if dump:
                    d='/tmp/refac-dump/%s_%d'%(os.path.basename(fn),n); os.makedirs(d,exist_ok=True)
                    for p,t in files.items(): open(d+'/'+p.replace('/','__'),'w').write(t)
                rs=P.map(one,[(p,files) for p in ALL],chunksize=1)
                hit=[r for r in rs if r[1]]
                und=[r for r in rs if r[3]]
                k=hdr.get('kind','R')
                ok = (not hit) if k=='R' else any(r[1]==1 for r in hit)
                print(os.path.basename(fn),n,hdr.get('note',''),k,'ok' if ok else 'FAIL', 'und:'+','.join(r[0] for r in und) if und else '', 'hit:'+','.join(r[0] for r in hit) if hit else '','%.1fs'%max(r[4] for r in rs))
                if not ok or '-v' in sys.argv:
                    for r in (hit if k=='R' else und)[:3]: print('    ',r[0],r[1],str(r[2][:2])[:500],str(r[3][:2])[:300])
