import sys; sys.path.insert(0,'/verif')
from sa.prog import load
from sa import terms as t, models
from sa.interp import *
import traceback
P=load('/verif/.cache/mir')
def newit(ov=None):
    it=Interp(P, models.M, ov or {})
    it.ghost_default=models.ghost_default
    return it
def entry(it, key, args, g=(), st=None):
    f=P.fns[key]
    if not g: g=tuple(("'",) if x.startswith("'") else ("const",x) if x.startswith('#') else ("param",i,x) for i,x in enumerate(f.gen))
    st=st or State()
    v=it.inline(st,f,g,args,"entry")
    return st,v
if __name__=='__main__':
    for k in sys.argv[1:]:
        f=P.fns[k]; it=newit(); st=State()
        args=[]
        cells={}
        for i in range(f.body['argc']):
            ty=f.body['tys'][i+1]
            nm=[n for n,p in f.body['names'] if p==[i+1]]
            s=t.sym(nm[0] if nm else 'arg%d'%(i+1))
            if ty[0]=='ref' and ty[2]:
                c=it.new_cell(st,s,"arg"); cells[c]=s; s=mk("mref",c,())
            args.append(s)
        try:
            st,v=entry(it,k,args,st=st)
        except Unsupported as e:
            traceback.print_exc(); continue
        print(k); print('  ret',v)
        for c in st.store:
            print('  ',c,st.store[c])
        for e in st.ev: print('  ev',e)
