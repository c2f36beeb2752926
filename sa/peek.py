import sys; sys.path.insert(0,'/verif/sa')
from harness import *
ents=[catalog.BY[n] for n in sys.argv[1].split(',')]
cs,bad=load_cases(ents); print(bad)
for c in cs:
    print('=====',c.name)
    it=c.interp(); S=c.make(it)
    for pth,v in it.leaves(it.read(S)): print('  init','.'.join(str(x[-1]) for x in pth if x[-1] not in('accumulators','cdr','car')),'=',str(v)[:300])
    it=c.interp(); S=c.state(it)
    for k in c.getters(): print('  get',k,str(it.term(c.get(it,S,k)))[:1500])
    it=c.interp(); S=c.state(it); c.update(it,S)
    for pth,v in it.leaves(it.read(S)):
        if not(isinstance(v,T) and v.op=='sym'): print('  up ','.'.join(str(x[-1]) for x in pth if x[-1] not in('accumulators','cdr','car')),'=',str(v)[:1500])
    print('  throws',c.throws(it))
