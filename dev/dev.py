import sys; sys.setrecursionlimit(20000); sys.path.insert(0,'/verif'); sys.dont_write_bytecode=True
from pcheck.util import *
from pcheck.project import Project
p=Project()
def dump(qual, inline, selfcls=None, only=None, **k):
    f=p.fn(qual); seen=set()
    def oc(ev):
        if only and not only(ev): return
        s='%s %s recv=%s args=%s kw=%s loops=%s @%s' % (ev.kind, ev.name, show(ev.recv)[:150] if ev.recv else None, [show(a)[:200] for a in ev.args], [(a,show(b)) for a,b in ev.kwargs], [show(l[0])[:80] for l in ev.loops], ev.loc())
        if s not in seen:
            seen.add(s); print(s)
    eng=Engine(p, inline=inline, on_call=oc, **k)
    return eng, eng.run(f, selfcls=selfcls)
