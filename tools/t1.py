import sys,time,traceback; sys.path.insert(0,'/verif')
import importlib
from cppcv.front import *; from cppcv.engine import *; from cppcv import logic as L
from cppcv.check import run_forked
import io, contextlib
mod=importlib.import_module('specs.'+sys.argv[1])
only=sys.argv[2] if len(sys.argv)>2 else None
tus={}
jobs=[]
for c in mod.contracts:
    if c.trusted or only and only not in c.name: continue
    f=c.tu if c.tu.startswith('/') else ('/verif/'+c.tu if c.tu.startswith('tu/') else REPO+'/'+c.tu)
    if f not in tus: tus[f]=TU(f, getattr(mod,'FILTER','graphql'))
    jobs.append((c,f))
def job(a):
    c,f=a
    b=io.StringIO()
    with contextlib.redirect_stdout(b):
        try: job_(c,f)
        except Exception: print(c.name,'CRASH',traceback.format_exc(limit=-14))
    return b.getvalue()
def job_(c,f):
    t=time.time()
    ex=Engine(tus[f],c,(getattr(c,"models",None) or mod.models)(tus[f]))
    try: obs=ex.run()
    except Unsupported as e:
        print(c.name,'UNSUPPORTED',e); print(traceback.format_exc(limit=-14)); return
    hard=[o for o in obs if not z3.is_true(o.goal)]
    from cppcv.check import prove_obls, split
    def chunk(os_):
        out=[]
        for r,o in zip(prove_obls(os_,8), [o for ch in __import__('cppcv.check',fromlist=['x']).chains(os_) for o in ch]):
            if r['status']!='proved' or r['secs']>3:
                s='    %s %s %.2f %s %s\n'%(r['status'],r['backend'],r['secs'],o.name,o.where)
                if r['status']!='proved' and len(sys.argv)>3:
                    for h in o.hyps: s+='      H '+str(h)[:900].replace('\n',' ')+'\n'
                    s+='      G '+str(o.goal)[:1600].replace('\n',' ')+'\n'
                out.append(s)
        return out
    if len(hard)>10: rs=sum(run_forked(split(hard,4),chunk,4),[])
    else: rs=chunk(hard)
    print(c.name,'paths',ex.npaths,'obls',len(obs),'bad',sum(1 for x in rs if ' proved ' not in x),'%.1fs'%(time.time()-t))
    for x in ([x for x in rs if " failed " in x][:2] if len(sys.argv)>3 else rs): print(x,end='')
rs=run_forked(jobs,job,6)
for r in rs: print(r if isinstance(r,str) else r, end='')
if not only or only=='lemma':
  for l in getattr(mod,'LEMMAS',[]):
    for o in l.obligations():
        r=L.prove(o.hyps,o.goal,timeout=10)
        print('   ',r.status,r.backend,'%.2f'%r.secs,o.name)
