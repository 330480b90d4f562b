import sys; sys.path.insert(0,'/verif/selftest'); a=sys.argv; sys.argv=['x','all']
from mut import *
q,pat=a[1],a[2]
f=SPEC.fns[q]; m=f.module; rel=os.path.relpath(m.path,'/verif/spec'); qual=q[len(m.name)+1:]
src0=open('/repo/'+rel).read(); i=0
while 1:
    tree=ast.parse(src0); fn=find(tree,qual); ms=list(muts(fn))
    if i>=len(ms): break
    d,go=ms[i]; i+=1
    if pat not in d: continue
    go(); ast.fix_missing_locations(tree); src=ast.unparse(tree)
    r=compare_src('/repo/'+rel,src,[q])[0]; print(d,r[1])
    for k,x,y in r[2]: print('  ',k,'\n     R',str(x)[:3000],'\n     S',str(y)[:3000])
    break
