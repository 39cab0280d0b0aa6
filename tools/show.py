import sys; sys.path.insert(0,'/verif'); sys.setrecursionlimit(20000)
from xsa.core import *
import os
p=Program(os.environ.get('XSA_REPO','/repo/python')); c=Ctx(p,'x')
mod,cls,fn=sys.argv[1:4]
stop=tuple(sys.argv[4].split(',')) if len(sys.argv)>4 else ()
if cls=='-': g=c.graph(c.func(mod,fn),stop=stop)
else: g=c.mgraph(c.cls(mod,cls),fn,stop=stop)
for n in g.nodes:
    print(n.id,n.op,n.a.get('name') or '',[str(a) for a in n.args],'->',n.dst,n.where.split('/')[-1],[x for x in n.ctx],[(l,m.id) for l,m in n.succs])
