import json,sys,glob
V='/verif/.cache/mir'
D={}
for f in glob.glob(V+'/*.json'):
    j=json.load(open(f))
    for fn in j['fns']: D[fn['key']]=(fn,j)
def ty(j,i,d=0):
    if isinstance(i,str): return i
    t=j['types'][i]
    k=t[0]
    if k=='p': return t[1]
    if k=='adt': return t[1].split('::')[-1]+('<'+','.join(ty(j,x) for x in t[2])+'>' if t[2] else '')
    if k=='ref': return '&'+('mut ' if t[2] else '')+ty(j,t[1])
    if k=='param': return t[2]
    if k=='tup': return '('+','.join(ty(j,x) for x in t[1])+')'
    if k=='slice': return '['+ty(j,t[1])+']'
    if k in('fn','clo','cor'): return k+':'+t[1]
    if k=='proj': return '<'+','.join(ty(j,x) for x in t[2])+' as '+t[3]+'>::'+t[4]
    return str(t)
def pl(j,p):
    s='_%d'%p[0]
    for e in p[1:]:
        if e=='*': s='(*%s)'%s
        elif e[0]=='f': s+='.%s'%(e[3] or e[1])
        elif e[0]=='d': s+=' as %s'%(e[2])
        else: s+=str(e)
    return s
def op(j,o):
    if o[0] in('cp','mv'): return pl(j,o[1])
    if o[0]=='fn': return o[1]['p']+'<'+','.join(ty(j,x) for x in o[1]['a'])+'>'
    return str(o)
def show(k):
    fn,j=D[k]; b=fn['body']
    print(k,fn['path'],fn['loc'],fn['gen'],b['argc']); print(' names',[(n,pl(j,p)) for n,p in b['names']])
    for i,t in enumerate(b['tys']): print('  _%d: %s'%(i,ty(j,t)))
    for i,(st,t,l,c) in enumerate(b['bbs']):
        if c: continue
        print(' bb%d:'%i)
        for s in st:
            if s[0]=='=': print('   ',pl(j,s[1]),'=',s[2][0],*[op(j,x) if isinstance(x,list) and x and x[0] in('cp','mv','fn','int') else (pl(j,x) if isinstance(x,list) and x and isinstance(x[0],int) else x) for x in s[2][1:]])
        if t[0]=='call': print('    call',op(j,t[1]),[op(j,x) for x in t[2]],'->',pl(j,t[3]),t[4],l)
        else: print('   ',t,l)
if __name__=='__main__':
    for k in sorted(D):
        if k==sys.argv[1] or (len(sys.argv)>2 and sys.argv[1] in k): show(k) if len(sys.argv)<3 else print(k,D[k][0]['loc'])
