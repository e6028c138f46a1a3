import sys,os,importlib,traceback
sys.path.insert(0,'/verif'); sys.dont_write_bytecode=True
from symex import explore, core, ctx as C
explore.setup()
mod=importlib.import_module('props.'+sys.argv[1])
oc=C.SymCtx.call
def call(self,f,*a,**k):
    r=oc(self,f,*a,**k)
    print(r,file=sys.__stderr__)
    if r.kind=='exc': traceback.print_exception(r.exc,file=sys.__stderr__)
    return r
C.SymCtx.call=call
job=dict(module=sys.argv[1],fn=sys.argv[2],params=eval(sys.argv[3],vars(mod)),name='x',validate_every=10**9)
r=explore.Runner(); st=explore.new_stats()
rest,out=r.explore(job,[[]],30,st)
print({k:v for k,v in st.items() if v},len(rest)); print(out['violations'],out['unrep'],out['errors'],out['mism'])
