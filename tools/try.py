import sys,time,importlib
sys.path.insert(0,'/verif'); sys.setrecursionlimit(30000)
from vcgen import build, solve
from vcgen.llir import Module
from vcgen.exec import Exec
mod=importlib.import_module('contracts.'+sys.argv[1])
want=sys.argv[2:]
irs={}
for h,c in mod.PROOFS:
    if want and c.__name__ not in want: continue
    if h not in irs: irs[h]=build.build_ir('/verif/harness/'+h, getattr(mod,'FLAGS',[]), '.try-%d'%__import__('os').getpid())
    t=time.time()
    from vcgen.flat import Flat, FlatExec
    ex=(FlatExec if issubclass(c,Flat) else Exec)(Module(irs[h]),c())
    try:
        obs=ex.verify(c.entry)
    except Exception as e:
        import traceback; traceback.print_exc(); print('EXC',c.__name__,repr(e)[:300]); continue
    bad=[o for o in obs if not o.ok]
    print('%-22s %d/%d live %d paths %d throws %d %.1fs'%(c.__name__,len(obs)-len(bad),len(obs),ex.live,ex.paths,ex.throws,time.time()-t), flush=True)
    for o in bad[:12]: print('   FAIL',o.name,o.status,o.detail[:160])
    for x in sorted(ex.trusted):
        if 'no variant' in x: print('   ', x)
import glob, os
for f in glob.glob('/verif/build/*.try-%d.*' % os.getpid()): os.remove(f)
