"""C16: which events reach which counters.  The increments found under each event code of the dispatcher
(all helpers inlined, names folded) against the table PRIVCOUNT_COUNTER_EVENTS, by which the data collector
chooses the events it asks tor for; and no event counts one observation twice."""
from ..meaning import *
from ..counting import *
from .c32 import increments

TM = {PACKETS: ('increment_packets_counters', 'ViterbiPathPackets', 'ExitStream'), STREAMS: ('increment_streams_counters', 'ViterbiPathStreams', 'ExitCircuit')}


def check(p, rep):
    rep.rule('reached', 'a counter is incremented by the handler of every event listed for it, unless no observation can be counted', 1328)
    rep.rule('only', 'no counter is incremented by the handler of an event not listed for it', 1331)
    rep.rule('once', 'an event increments a counter at most once: the conditions of two calls exclude each other', 1331)
    rep.rule('table', 'every counter but ZeroCount has at least one event in the table, and one entry', 1331)
    rep.rule('model', 'the traffic model events are handed to the traffic model with their path and the counters', 1)
    rep.rule('sites', 'every call of increment is in a handler of an event, or in the traffic model', 4)
    c = increments(p)
    tab, dup = table(p)
    where = {}
    for (ev, n), rs in c.by.items():
        where.setdefault(n, {})[ev] = rs
    for n in sorted(tab):
        rep.ob('table', n, (bool(tab[n]) or n == 'ZeroCount') and n not in dup, '%s %s' % (n, 'is listed twice' if n in dup else 'has no event'), 'privcount/counter.py')
        got = where.get(n, {})
        m = meaning(n, tab[n])
        main = m[0] if m else None
        if m is None and 'TrafficModel' not in n and n != 'ZeroCount':
            right = [e for e in ({STREAM}, {CIRCUIT}, {CONN}, {STORE}, {FETCH}, {STREAM, CIRCUIT}) if meaning(n, e) is not None]
            rep.ob('table', n + ' events', not right, '%s is listed for %s, but its name is about %s' % (n, sorted(tab[n]), right and sorted(right[0])), 'privcount/counter.py')
        loc = list(got.values())[0][0][0].loc if got else 'privcount/data_collector.py'
        if m is not None:
            f = m[1]
            t = Table(atoms_of(f), CAN[main])
            possible = t.formula(f) != 0
            rep.ob('reached', n, main in got or not possible, '%s is not incremented by the handler of %s' % (n, main), loc)
        listed = set(tab[n]) | ({TIMER} if main == TIMER else set())
        odd = [ev for ev in got if ev not in listed]
        rep.ob('only', n, not odd, '%s is incremented by %s, which is not listed for it' % (n, odd[:1]), got[odd[0]][0][0].loc if odd else loc)
        twice = None
        for ev, rs in got.items():
            rs = [(i, g) for i, g, _ in rs]
            for x in range(len(rs)):
                for y in range(x):
                    if conj(rs[x][0].g, rs[y][0].g) is None:
                        continue
                    t = Table(set(rs[x][1]) | set(rs[y][1]), CAN.get(ev))
                    if t.set(rs[x][1]) & t.set(rs[y][1]):
                        twice = twice or (rs[x][0], rs[y][0], t.example(t.set(rs[x][1]) & t.set(rs[y][1])))
        rep.ob('once', n, twice is None, twice and '%s is incremented twice (also at %s) when %s' % (n, twice[1].loc, show_g(twice[2])[:300]) or '', twice[0].loc if twice else loc)
    # the traffic model
    ga = c.runs['handle_event'][0]
    for ev, (meth, fld, pre) in sorted(TM.items()):
        calls = [r for r in ga.recs if r.name[0] == slf('traffic_model') and r.name[1].startswith('increment') and event_of(r.g) == ev]
        ok = bool(calls) and all(r.name[1] == meth for r in calls) and all(conj(c.canong(x.g), c.canong(y.g)) is None for i, x in enumerate(calls) for y in calls[:i])
        loc = calls[0].loc if calls else c.runs['handle_event'][2].loc(c.runs['handle_event'][2].node)
        msg = '%s is not handed to %s exactly once' % (ev, meth)
        for r in calls if ok else []:
            m = p.method(p.cls('TrafficModel'), meth)
            pars = m.params[1:]
            for h, ts, d in ga.product(r.args, r.kw, r.g):
                a = dict(zip(pars, ts))
                a.update(d)
                if len(a) != 2 or [x for x in a.values() if c.canont(x) == F('string', fld)] == [] or slf('secure_counters') not in a.values():
                    ok, msg = False, '%s hands over %s' % (ev, [show(x)[:60] for x in a.values()])
                elif c.canont(a.get(pars[0])) != F('string', fld):
                    ok, msg = False, '%s: arguments in the wrong order' % ev
                ctx = {x: v for x, v in c.norm.guard(c.canong(h))[0].items()}
                extra = [x for x in ctx if not (x[0] in ('isnone', 'truthy') and x[1] == slf('traffic_model')) and not valid_test(x)]
                if extra:
                    ok, msg = False, '%s is handed to the traffic model only under %s' % (ev, show_g({x: ctx[x] for x in extra})[:120])
        rep.ob('model', ev, ok, msg, loc)
        other = [r for r in ga.recs if r.name == (slf('traffic_model'), meth) and event_of(r.g) != ev]
        if other:
            rep.ob('model', ev + ' only', False, '%s is called for %s' % (meth, event_of(other[0].g)), other[0].loc)
        rep.ob('model', ev + ' names', all((ev in tab[n]) == n.startswith(pre + 'TrafficModel') for n in tab if 'TrafficModel' in n),
               'a %sTrafficModel counter is not listed for %s alone' % (pre, ev), 'privcount/counter.py')
    # where increment is called
    seen = set()
    for ga, _, _ in c.runs.values():
        seen |= {f.qual for f in ga.visited} | {q for r in ga.recs for q in r.stack}
    called = {}
    for f in p.funcs.values():
        for x in ast.walk(f.node):
            if isinstance(x, ast.Attribute):
                called.setdefault(x.attr, set()).add(f.qual)
            elif isinstance(x, ast.Name):
                called.setdefault(x.id, set()).add(f.qual)
    for f in sorted(p.funcs.values(), key=lambda f: f.qual):
        for x in ast.walk(f.node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'increment' and f is not c.inc:
                tm = f.mod is p.cls('TrafficModel').mod
                dead = not (called.get(f.name, set()) - {f.qual})
                rep.ob('sites', '%s:%s' % (f.qual, ast.unparse(x.args[0])[:40] if x.args else ''), f.qual in seen or tm or dead, 'increment is called in %s, which is not part of handling an event' % f.qual, f.loc(x))


def valid_test(a):
    return a[0] in ('truthy', 'isnone', 'lt', 'eq') and a[1][0] in ('call', 'mcall') and 'valid' in str(a[1][1])
