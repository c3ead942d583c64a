import sys; sys.path[:0]=['/verif/lib','/verif/lib/rules']
import core, ops, opspecs1, absint
from absint import *
from history import *
mod=ops.rdf_module()
rep=core.Check('T','quick')
of=OpMon.oblige
def ob(self,cond,kind,x,msg,what=''):
    if not cond and kind==sys.argv[2]:
        st=sys._getframe(1).f_locals.get('s') or sys._getframe(1).f_locals.get('st')
        print('FAIL',kind,self.ctx(),msg)
        for kk,v in sorted(st.mem.items(),key=str): 
            if kk[0].op!='alloca' and not stale(kk[0]): print('   ',show(kk[0]),kk[1] if isinstance(kk[1],int) else show(kk[1]),show(v))
        for r in st.rel: 
            if not (stale(r[1]) or stale(r[2])): print('   R',r[0],show(r[1]),show(r[2]))
        for r in st.dom.items(): 
            if not stale(r[0]): print('   D',show(r[0]),r[1])
        print(st.mon)
    return of(self,cond,kind,x,msg,what)
OpMon.oblige=ob
import opspecs2
getattr(opspecs2,sys.argv[1])(rep,mod,len(sys.argv)>3)
