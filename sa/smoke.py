import sys; sys.path.insert(0,'/verif/sa')
import harness, catalog, time
from harness import *
def run(cases,bad,arg):
    out=[]
    for n,e in bad.items(): out.append((n,'PARSE',e,0))
    for c in cases:
        t=time.time(); st='ok'; msg=[]
        for what in ['mk','up']+['get_'+k for k in c.getters()]+['save','load','cp','cc']:
            it=c.interp()
            try:
                S=c.state(it)
                if what=='mk': c.make(it)
                elif what=='up': c.update(it,S)
                elif what.startswith('get_'): c.get(it,S,what[4:])
                elif what in('save','load'): it.invoke(c.fns[what],None,c.args(it,what,[Ref(S)]))
                elif what=='cp': it.invoke(c.fns['cp'],None,[Ref(S),Ref(c.state(it,'T2'))])
                elif what=='cc': it.invoke(c.fns['cc'],None,[Ref(S)])
                if it.unmodelled: msg.append((what,'unmodelled',dict(it.unmodelled)))
            except Unsupported as e:
                msg.append((what,'UNSUP',str(e)[:150]))
            except Exception as e:
                import traceback
                tb=traceback.extract_tb(e.__traceback__)
                msg.append((what,'EXC',repr(e)[:150],[ '%s:%d'%(x.name,x.lineno) for x in tb[-4:]]))
        out.append((c.name,'ok' if not msg else 'bad',msg,time.time()-t))
    return out
if __name__=='__main__':
    ents=catalog.E if len(sys.argv)<2 else [catalog.BY[n] for n in sys.argv[1:]]
    t=time.time()
    res=[x for r in harness.pmap('smoke','run',ents,size=8) for x in r]
    for n,s,m,tt in res:
        if s!='ok': print(n,s,'%.1f'%tt,str(m)[:700])
    print(len(res),sum(1 for x in res if x[1]=='ok'),time.time()-t, max(x[3] for x in res))
