import sys; sys.path[:0]=['/verif/lib','/verif/lib/rules']
import ops
from absint import *
class T(Monitor):
    def on_store(self, eng, st, inst, ptr, val, size):
        if ptr.op=='p' and ptr.a[0].op=='alloca': return
        print('   store', show(ptr), '<-', show(val), 'l',inst.get('l'))
    def on_call(self, eng, st, inst, fn, args):
        print('   call', fn[:80], [show(a) for a in args], 'l',inst.get('l'))
        return None
def run(mod, F, args=None, pr=True):
    eng=Engine(mod,T())
    n=len(F.args)
    a=[]
    for i,x in enumerate(F.args):
        t=x['t'] if isinstance(x,dict) else x[1] if isinstance(x,(list,tuple)) else 'p'
        w=64 if t=='p' else int(t[1:]) if t[0]=='i' else 64
        a.append(mk('arg','a%d'%i,w,'nn') if t=='p' else mk('arg','a%d'%i,w))
    if args: a=args
    st=new_state()
    eng.this=a[0] if a else None
    for e in eng.run(F,a,st):
        print('  exit',e.kind,show(e.val) if e.val is not None else None)
        print('     dom',{show(k):v for k,v in e.st.dom.items()})
        print('     rel',[ (r[0],)+tuple(show(x) if isinstance(x,E) else x for x in r[1:]) if isinstance(r,tuple) else show(r) for r in e.st.rel])
        print('     mem',{show(k[0])+'+'+str(k[1]):show(v) for k,v in e.st.mem.items() if k[0].op!='alloca'})
if __name__=='__main__':
    mod=ops.rdf_module()
    import re
    for pat in sys.argv[1:]:
        for n,F in mod.fns.items():
            if re.search(pat,F.dem):
                print(F.dem,F.args); run(mod,F)
