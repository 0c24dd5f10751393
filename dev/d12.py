exec(open('/verif/dev/dev.py').read())
cls=p.cls('CollectionPhase')
import sys
tr=lambda a:True
def oc(ev):
    if ev.kind=='setattr' and ev.recv[0]=='self': return ('set',ev.name,ev.value)
    if ev.kind=='setitem': return ('item',ev.recv,ev.args[0],ev.args[1])
    if ev.kind=='call' and ev.name in ('.add','.remove','.clear','.append','.discard','.pop'): return ('mut',ev.name,ev.recv,ev.args, tuple(l[0] for l in ev.loops))
eng=Engine(p,inline=lambda g:g.cls is cls,on_call=oc,assert_inline=False,raisers=lambda n:False,track=lambda a: any(x in show(a) for x in('state','need_','error','sk_uids','dc_uids','is_start','data')))
for m in sys.argv[1:]:
    f=p.method(cls,m)
    print('=====',m)
    for s,c in eng.run(f,selfcls='CollectionPhase'):
        print(c[0],show(c[1])[:60],[(show(k)[:60],v) for k,v in s.facts.items()])
        for l in s.trace:
            print('     ',tuple(show(x)[:80] if isinstance(x,tuple) and x and isinstance(x[0],str) else (tuple(show(y)[:60] for y in x) if isinstance(x,tuple) else x) for x in l))
