"""C19: every path of the stop and start functions of the data collector and its aggregator,
with the objects of the round followed as heap state: after a stop nothing of the round is
reachable or running, and a delayed start only starts the aggregator that is still waiting."""
from ..util import *

DC, AG = 'DataCollector', 'Aggregator'
D, A = ('self', DC), ('self', AG)


def own_engine(p, cls, keep=(), **k):
    return Engine(p, inline=lambda g: g.cls is cls and g.name not in keep, assert_inline=False, raisers=lambda n: False, **k)


def last(ev):
    return ev.name.split('.')[-1]


def guarded(facts, t):
    """t is known to be set"""
    return facts.get(('isnone', t)) is False or facts.get(('truthy', t)) is True


def unset(facts, t):
    return facts.get(('isnone', t)) is True or facts.get(('truthy', t)) is False


def check(p, rep):
    rep.rule('C19.stop', 'after a stop the data collector has no aggregator, no pending start and no start time', 3)
    rep.rule('C19.counts', 'a data collector hands over counts only from an aggregator that ran, by stopping it', 1)
    rep.rule('C19.aggregator', 'a stopped aggregator has no protocol, counters, rotation or connection left', 4)
    rep.rule('C19.protocol', 'the control connection of a stopped aggregator stops collecting and is closed', 2)
    rep.rule('C19.late', 'an event that arrives after the stop is refused and has no effect', 1)
    rep.rule('C19.start', 'a delayed start only starts the aggregator it was made for, once, while it is pending', 3)
    rep.rule('C19.replace', 'a running collection is never replaced', 1)
    rep.rule('C19.owner', 'only starting and stopping change the objects of the round', 1)
    rep.rule('C19.server', 'the tally server forgets a round once it stopped', 2)
    dc, ag = p.cls(DC), p.cls(AG)

    # ---- the data collector stops
    f = p.method(dc, 'do_stop')
    if f is None:
        raise AnalysisBroken('anchor vanished: DataCollector.do_stop')
    agg, pend = ('attr', D, 'aggregator'), ('attr', D, 'is_aggregator_pending')

    def tr(ev):
        if ev.kind in ('call', 'mcall'):
            r = ev.recv and strip(ev.recv)
            return (last(ev), r, tuple(strip(a) for a in ev.args), ev.loc())
    eng = own_engine(p, dc, ('check_stop_config',), on_call=tr)
    n = 0
    for s, c in eng.run(f, selfcls=DC):
        if c[0] != 'ret':
            continue
        n += 1
        v = field(s, D, 'aggregator')
        rep.ob('C19.stop', 'aggregator', v == NONE or v == agg and unset(s.facts, agg), 'a stop leaves the aggregator %s' % show(v), f.loc())
        v = field(s, D, 'is_aggregator_pending')
        rep.ob('C19.stop', 'pending', v == FALSE or v == pend and s.facts.get(('truthy', pend)) is False, 'a stop leaves a pending start', f.loc())
        v = field(s, D, 'expected_aggregator_start_time')
        rep.ob('C19.stop', 'time', v == NONE, 'a stop leaves an expected start time', f.loc())
        ran = [l for l in s.trace if l[0] == 'stop' and l[1] == agg]
        if guarded(s.facts, agg) and s.facts.get(('truthy', pend)) is False:
            rep.ob('C19.stop', 'stopped', len(ran) == 1, 'a running aggregator is dropped without stopping it', f.loc())
        counts = [x for x in subterms(c[1]) if x[0] in ('call', 'mcall') and str(x[1:3]).find('Aggregator.stop') >= 0]
        other = [x for x in subterms(c[1]) if x[0] in ('call', 'mcall') and any(str(y) in ('detach_counts', 'get_counts') for y in x[1:3])]
        rep.ob('C19.counts', 'source', not other and (not counts or bool(ran)), 'counts do not come from stopping the aggregator', f.loc())
        if not guarded(s.facts, agg) or s.facts.get(('truthy', pend)) is not False:
            rep.ob('C19.counts', 'idle', not counts, 'counts are handed over although the aggregator did not run', f.loc())
    rep.count('paths of do_stop', n)

    # ---- the aggregator stops
    f = p.method(ag, 'stop')
    if f is None:
        raise AnalysisBroken('anchor vanished: Aggregator.stop')
    eng = own_engine(p, ag, ('generate_noise',), on_call=tr)
    n = 0
    for s, c in eng.run(f, selfcls=AG):
        if c[0] != 'ret':
            continue
        n += 1
        for a in ('protocol', 'secure_counters', 'connector_list', 'rotator'):
            t = [x for x in {('attr', A, a)} | {k[1] for k in s.facts if k[0] in ('isnone', 'truthy') and k[1][0] in ('hv', 'attr') and k[1][1:3] == (A, a)}]
            v = field(s, A, a)
            none0 = v == NONE or v[0] in ('attr', 'hv') and v[1:3] == (A, a) and any(unset(s.facts, x) for x in t)
            if a == 'rotator':
                none0 = none0 or any(s.facts.get(('truthy', ('attr', x, 'running'))) is False for x in t)
                if v == NONE and any(guarded(s.facts, x) for x in t):
                    stopped = any(l[0] == 'stop' and l[1] in t for l in s.trace) or any(s.facts.get(('truthy', ('attr', x, 'running'))) is False for x in t)
                    rep.ob('C19.aggregator', 'rotator stopped', stopped, 'the rotation timer is dropped but keeps running', f.loc())
            rep.ob('C19.aggregator', a, none0, 'a stopped aggregator keeps %s' % a, f.loc())
            if a == 'connector_list' and any(guarded(s.facts, x) for x in t):
                rep.ob('C19.aggregator', 'disconnect', any(l[0] in ('disconnect', 'disconnect_one') and any(x in l[2] for x in t) for l in s.trace), 'the connection is dropped but stays open', f.loc())
            if a == 'protocol' and any(guarded(s.facts, x) for x in t):
                done = {l[0] for l in s.trace if l[1] in t}
                rep.ob('C19.protocol', 'quit', 'quit' in done, 'the control connection of a stopped aggregator is not closed', f.loc())
        rep.ob('C19.aggregator', 'reconnect', any(l[0] == 'stopTrying' for l in s.trace), 'a stopped aggregator still tries to reconnect', f.loc())
    rep.count('paths of Aggregator.stop', n)

    # ---- closing the control connection
    P = p.cls('TorControlClientProtocol')
    S = ('self', 'TorControlClientProtocol')
    f = p.method(P, 'quit')
    eng = Engine(p, inline=lambda g: g.cls in set(p.mro(P)) and g.name in ('clearConnection', 'stopCollection', 'clear', 'isConnected', 'quit', 'disableEvents'),
                 assert_inline=False, raisers=lambda n: False, on_call=tr)
    n = 0
    for s, c in eng.run(f, selfcls='TorControlClientProtocol'):
        if c[0] != 'ret':
            continue
        n += 1
        st = field(s, S, 'state')
        rep.ob('C19.protocol', 'state', st in (C('disconnected'), NONE), 'a closed control connection is in state %s' % show(st), f.loc())
        conn = s.facts.get(('isnone', ('attr', S, 'state'))) is False and s.facts.get(('cmp', 'eq', ('attr', S, 'state'), C('disconnected'))) is False
        if conn:
            rep.ob('C19.protocol', 'close', any(l[0] == 'loseConnection' for l in s.trace), 'an open control connection is not closed', f.loc())
            rep.ob('C19.protocol', 'events', any(l[0] == 'sendLine' and l[2] and l[2][-1] == C('SETEVENTS') for l in s.trace), 'tor is not told to stop sending events', f.loc())
    if not n:
        raise AnalysisBroken('TorControlClientProtocol.quit has no path')

    # ---- late events
    f = p.method(ag, 'handle_event')
    if f is None:
        raise AnalysisBroken('anchor vanished: Aggregator.handle_event')
    sc = ('attr', A, 'secure_counters')
    seen = [0]

    def late(ev):
        mine = ev.kind == 'setattr' and ev.args is not None and ev.name.startswith('.') or \
            ev.kind in ('call', 'mcall') and (ev.recv is not None and strip(ev.recv) == A or last(ev).startswith('_handle'))
        if mine:
            seen[0] += 1
            rep.ob('C19.late', 'handle_event', guarded(ev.facts, sc), 'an event has an effect although the aggregator has stopped', ev.loc())
    eng = Engine(p, inline=lambda g: False, assert_inline=False, raisers=lambda n: False, on_call=late,
                 track=lambda a: mentions(a, sc))
    for s, c in eng.run(f, selfcls=AG):
        if c[0] == 'ret' and unset(s.facts, sc):
            rep.ob('C19.late', 'answer', c[1] == FALSE, 'an event of a stopped aggregator is not refused', f.loc())
    if not seen[0]:
        raise AnalysisBroken('handle_event handles nothing')

    # ---- delayed start
    starts = []
    mro = set(p.mro(dc))
    for g in sorted(p.funcs.values(), key=lambda g: g.qual):
        for nd in ast.walk(g.node):
            if isinstance(nd, ast.Call) and isinstance(nd.func, ast.Attribute) and nd.func.attr == 'start' and not nd.args and not nd.keywords:
                r = nd.func.value
                if g.cls in mro and (isinstance(r, ast.Name) or isinstance(r, ast.Attribute) and r.attr == 'aggregator') or \
                        g.cls not in mro and isinstance(r, ast.Attribute) and r.attr == 'aggregator':
                    if not any(h is g for h, n0 in starts):
                        starts.append((g, nd))
    st = p.method(dc, 'do_start')
    timers, stored = [], []

    def oc(ev):
        if ev.kind in ('call', 'mcall') and last(ev) in ('deferLater', 'callLater'):
            timers.append(ev)
        if ev.kind == 'setattr' and ev.name == '.aggregator=' and strip(ev.recv if ev.recv is not None else NONE) in (D, NONE):
            stored.append(ev)
    eng = own_engine(p, dc, ('check_start_config', '_start_aggregator_deferred'), on_call=oc)
    ok_ret = 0
    for s, c in eng.run(st, selfcls=DC):
        if c[0] != 'ret':
            continue
        v = field(s, D, 'aggregator')
        if c[1] == NONE:
            rep.ob('C19.replace', 'refused', v == agg, 'a refused start leaves aggregator %s' % show(v), st.loc())
        else:
            ok_ret += 1
            rep.ob('C19.start', 'pending', v[0] == 'obj' and field(s, D, 'is_aggregator_pending') == TRUE, 'an accepted start is not pending', st.loc())
    for ev in stored:
        rep.ob('C19.replace', 'idle', unset(ev.facts, agg), 'a running aggregator may be replaced', ev.loc())
    if not timers or not ok_ret:
        raise AnalysisBroken('do_start schedules nothing')
    cbs = set()
    for ev in timers:
        rest = [strip(a) for a in ev.args[2:]]
        cur = strip(ev.st.heap.get((D, 'aggregator'), agg))
        cb = rest[0] if rest else NONE
        target = cb[2] if cb[0] == 'bound' and len(cb) > 2 else None
        rep.ob('C19.start', 'own aggregator', cur[0] == 'obj' and (cur in rest[1:] or cb[0] in ('lambda', 'func') and mentions(cb, cur)),
               'a delayed start does not know which aggregator it was made for', ev.loc())
    callees = [g for g, nd in starts]
    for g, nd in starts:
        if g.cls is not dc:
            rep.ob('C19.start', sq(g), g.cls is not None and g.cls.name not in (DC, AG) and 'DataCollector' not in [c.name for c in p.mro(g.cls)], 'starts an aggregator', g.loc(nd))
            continue
        par = [('sym', x) for x in g.params[1:]]

        def oc2(ev, g=g, par=par):
            if ev.kind in ('call', 'mcall') and last(ev) == 'start' and ev.recv is not None and strip(ev.recv)[0] != 'mcall':
                r = strip(ev.recv)
                if r not in [agg] + par:
                    return
                same = any(k[0] == 'cmp' and k[1] == 'eq' and v and agg in k[2:4] and any(q in k[2:4] for q in par) for k, v in ev.facts.items())
                rep.ob('C19.start', 'current', same, 'a delayed start may start another aggregator than its own', ev.loc())
                rep.ob('C19.start', 'still pending', ev.facts.get(('truthy', pend)) is True, 'a delayed start starts an aggregator although no start is pending', ev.loc())
                rep.ob('C19.start', 'once', strip(ev.st.heap.get((D, 'is_aggregator_pending'), pend)) == FALSE, 'a started aggregator stays pending', ev.loc())
        e2 = own_engine(p, dc, on_call=oc2)
        e2.run(g, selfcls=DC)
    # every caller of the function that starts the aggregator is the timer
    rep.count('places that start an aggregator', len(starts))
    if not [g for g in callees if g.cls is dc]:
        raise AnalysisBroken('nothing starts the aggregator')

    roots = [p.method(dc, m) for m in ('__init__', 'do_start', 'do_stop')] + [g for g in callees if g.cls is dc]
    only_own(p, rep, 'C19.owner', dc, ('aggregator', 'is_aggregator_pending'), roots, 'the collection of the data collector')
    stops = {p.method(ag, m) for m in ('__init__', 'stop', 'generate_noise')}
    only_own(p, rep, 'C19.owner', ag, ('secure_counters',), [x for x in stops if x] + [g for g in p.funcs.values() if g.cls is ag and called_only_by(p, g, stops)], 'the counters of the round')

    # ---- the tally server
    ts = p.cls('TallyServer')
    T = ('self', 'TallyServer')
    f = p.method(ts, 'stop_collection_phase')
    if f is None:
        raise AnalysisBroken('anchor vanished: TallyServer.stop_collection_phase')
    ph = ('attr', T, 'collection_phase')
    eng = own_engine(p, ts, on_call=tr)
    n = 0
    for s, c in eng.run(f, selfcls='TallyServer'):
        if c[0] != 'ret':
            continue
        n += 1
        v = field(s, T, 'collection_phase')
        forgot = v == NONE or v == ph and unset(s.facts, ph)
        asked = [l for l in s.trace if l[0] == 'stop' and l[1] == ph]
        still = any(k[0] == 'truthy' and k[1][0] in ('call', 'mcall') and 'is_stopped' in str(k[1][1:3]) and v2 is False for k, v2 in s.facts.items())
        rep.ob('C19.server', 'forgotten', forgot or still, 'a round that stopped is kept', f.loc())
        rep.ob('C19.server', 'stopped', bool(asked) or v == ph, 'a round is forgotten without stopping it', f.loc())
        if not still and asked:
            w = [i for i, l in enumerate(s.trace) if l[0] == 'write_results']
            rep.ob('C19.server', 'results', len(w) == 1, 'results of a stopped round are written %d times' % len(w), f.loc())
    if not n:
        raise AnalysisBroken('stop_collection_phase has no path')
    rep.assumption('dropping the last reference destroys the data; python does not overwrite freed memory')


def called_only_by(p, g, roots):
    cs = {h for h in p.funcs.values() for nd, k, t in p.calls(h) if k == 'func' and t is g}
    return bool(cs) and all(h in roots or h.cls is g.cls and h is not g and called_only_by(p, h, roots) for h in cs)
