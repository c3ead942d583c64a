import sys,time; sys.path[:0]=['/verif/lib','/verif/lib/rules']
import core, ops, opspecs, opspecs1, opspecs2
for m in (opspecs1,opspecs2): vars(opspecs).update({k:v for k,v in vars(m).items() if k.startswith("run_")})
from absint import *
mod=ops.rdf_module()
for f in sys.argv[1:]:
    rs = f.endswith('!'); f=f.rstrip('!')
    rep=core.Check('T','quick')
    t=time.time()
    getattr(opspecs,f)(rep,mod,restart=rs)
    print(f, len(rep.obl), sum(rep.obl.values()), time.time()-t)
    for k,w,m in rep.viol: print('  ',k,'\n     ',w,m)
    print(rep.undec)
