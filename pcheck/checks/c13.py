"""C13: every path of every method of the collection phase, with the states the phase can be
in at each store (see phase.py).  A client leaves the wanted set only with its counts stored
or the error recorded, the error is never forgotten, and a tally is made only when stopped,
without error, from exactly the stored counts."""
from .phase import *

CLEAR = ('.clear', '.pop', '.popitem', '.del')


def check(p, rep):
    rep.rule('C13.all', 'stopping waits for every data collector and share keeper', 1)
    rep.rule('C13.wanted', 'a client is only crossed off with its counts stored, or with the round marked as failed', 2)
    rep.rule('C13.stored', 'only counts a wanted client returned are kept, under its own id', 1)
    rep.rule('C13.stopped', 'a round is stopped only when nothing is wanted any more', 1)
    rep.rule('C13.error', 'a failure is never forgotten', 1)
    rep.rule('C13.abandoned', 'a round stopped before the share keepers started counts as failed', 1)
    rep.rule('C13.request', 'clients are asked for counts exactly while the round has not failed', 1)
    rep.rule('C13.tally', 'a tally is made only of a stopped round without failure, from all stored counts', 1)
    rep.rule('C13.publish', 'tallied counts are only published after a successful tally', 1)
    rep.rule('C13.owner', 'the state of the round is changed only by the round itself', 1)
    runs = run_phase(p, rep, skip=())
    cls = p.cls(CP)
    sd = cls.methods.get('store_data')
    if sd is None or 'write_results' not in cls.methods:
        raise AnalysisBroken('anchor vanished: CollectionPhase.store_data or write_results')
    uid, data, is_start = (('sym', x) for x in sd.params[1:4])

    def is_counts(t):
        t = strip(t)
        return t[0] == 'mcall' and t[1] == data and t[2] == 'get' and t[3][0] == C('Counts') and (len(t[3]) == 1 or t[3][1] == NONE) or \
            t == ('idx', data, C('Counts'))

    for m in sorted(entry_methods(p) & set(runs)):
        for pa in runs[m]:
            tr = pa.trace
            done = pa.c[0] == 'ret'
            err = pa.val('error_flag')
            err_true = is_const(err) and bool(err[2]) or truth(tuple(pa.facts.items()), 'error_flag') is True and err == A('error_flag')
            for i, l in enumerate(tr):
                loc = l[-1]
                if l[0] == 'set' and l[1] == 'state' and is_const(l[2]) and m != '__init__':
                    v = l[2][2]
                    if v == 'stopping' and l[3] != {'stopping'} and done:
                        want = pa.filled('need_counts')
                        rep.ob('C13.all', m, {'dc_uids', 'sk_uids'} <= want, 'stopping only waits for %s' % sorted(want), loc)
                        if 'starting_dcs' in l[3] or 'new' in l[3]:
                            rep.ob('C13.abandoned', m, err == TRUE, 'a round abandoned in state %s does not count as failed' % sorted(l[3]), loc)
                    if v == 'stopped' and l[3] != {'stopped'}:
                        empty = ('*', 'empty', 'need_counts') in tr[:i] and not any(
                            x[0] == 'mut' and x[2] == 'need_counts' and x[1] in ('.add', '.update') for x in tr[:i])
                        empty = empty or truth(l[4], 'need_counts') is False
                        rep.ob('C13.stopped', m, empty or l[3] <= {'new'}, 'the round stops in state %s although counts may be missing' % sorted(l[3]), loc)
                elif l[0] == 'set' and l[1] == 'error_flag':
                    v = strip(l[2])
                    if v == TRUE:
                        rep.ob('C13.error', m, True, loc=loc)
                    elif m == '__init__':
                        rep.ob('C13.error', m, v == FALSE, 'a round begins with error %s' % show(v), loc)
                    else:
                        lost = v == FALSE and l[3] <= {'started', 'starting_sks', 'stopping'} and done and pa.end_states() == {'stopping'} and \
                            any(x[:2] == ('set', 'state') and strip(x[2]) == C('stopping') and x[3] <= {'started', 'starting_sks'} for x in tr)
                        rep.ob('C13.error', m, lost, 'the failure of a round is replaced by %s in states %s' % (show(v), sorted(l[3])), loc)
                elif l[0] == 'mut' and l[2] == 'need_counts' and l[1] in ('.remove', '.discard'):
                    f = l[6]
                    ok = strip(l[3][0]) == uid and m == 'store_data' and fact(f, ('isnone', data)) is False and fact(f, ('truthy', is_start)) is False
                    kept = any(x[0] == 'item' and x[1] == 'final_counts' and strip(x[2]) == uid for x in tr)
                    rep.ob('C13.wanted', m, ok and (kept or err_true or not done),
                           'a client is crossed off %s' % ('although its stop answer did not arrive' if not ok else 'without counts and without marking the round as failed'), loc)
                elif l[0] == 'mut' and l[2] in ('need_counts', 'final_counts') and l[1] not in ('.add', '.update') or \
                        l[0] == 'mut' and l[2] == 'final_counts':
                    rep.ob('C13.wanted' if l[2] == 'need_counts' else 'C13.stored', m, False, '%s changed by %s' % (l[2], l[1]), loc)
                elif l[0] == 'item' and l[1] == 'final_counts':
                    f = l[5]
                    g = member(f, uid, 'need_counts') is True and fact(f, ('truthy', is_start)) is False
                    some = fact(f, ('truthy', l[3])) is True or any(k[0] == 'truthy' and is_counts(k[1]) and v for k, v in f)
                    rep.ob('C13.stored', m, is_counts(l[3]) and strip(l[2]) == uid, 'stores %s for %s' % (show(l[3]), show(l[2])), loc)
                    rep.ob('C13.stored', m + ':guard', g, 'counts of a client that is not wanted are stored', loc)
                    rep.ob('C13.stored', m + ':some', some, 'empty counts are stored as if they were complete', loc)
                elif l[0] == 'set' and l[1] in ('need_counts', 'final_counts') and m != '__init__':
                    if l[1] == 'final_counts':
                        v = strip(l[2])
                        rep.ob('C13.stored', m, m == 'write_results' and v[0] == 'obj' and not v[3], 'the stored counts are replaced by %s' % show(v), loc)
                    else:
                        rep.ob('C13.wanted', m, bool(iterables(l[2])), 'the wanted clients are replaced by %s' % show(l[2]), loc)

    # ---- the stop config
    f = cls.methods.get('get_stop_config')
    if f is None:
        raise AnalysisBroken('anchor vanished: CollectionPhase.get_stop_config')
    u = ('sym', f.params[1])
    eng = Engine(p, inline=lambda g: g.cls is cls, raisers=lambda n: False)
    n = 0
    for s, c in eng.run(f, selfcls=CP):
        if c[0] != 'ret' or c[1] == NONE:
            continue
        n += 1
        fa = tuple(s.facts.items())
        rep.ob('C13.request', 'turn', member(fa, u, 'need_counts') is True and poss(s, s.facts) == {'stopping'},
               'a stop config is given to a client that is not wanted, or in states %s' % sorted(poss(s, s.facts)), f.loc())
        d = dict((k, v) for k, v in c[1][3]) if c[1][0] == 'obj' else {}
        v = d.get(C('send_counters'))
        v = s.heap.get((c[1], '[]', C('send_counters')), v)
        e = truth(fa, 'error_flag')
        ok = v is not None and (strip(v) == ('not', A('error_flag')) or e is not None and v == C(not e))
        rep.ob('C13.request', 'send_counters', ok, 'counts requested: %s' % (v and show(v)), f.loc())
    if not n:
        raise AnalysisBroken('get_stop_config never returns a config')

    # ---- the tally
    f = cls.methods['write_results']
    tally = []
    TC = 'tally_counters'

    def on_call(ev):
        if ev.kind == 'call' and ev.name.split('.')[-1] == TC:
            tally.append(ev)
            return ('tally', ev.result)
        if ev.kind == 'call' and ev.name.split('.')[-1] == 'detach_counts':
            return ('detach', ev.loc())
        if ev.kind == 'call' and ev.name.split('.')[-1] == 'write_json_file':
            b = [strip(a) for a in ev.args]
            return ('write', tuple(b), ev.loc())
        if ev.kind == 'setitem' and ev.args[0] == C('Tally'):
            return ('Tally', strip(ev.args[1]), ev.loc())
    keep = ('write_json_file', 'get_updated_traffic_model', 'get_result_context')
    eng = Engine(p, inline=lambda g: g.cls is cls and g.name not in keep, on_call=on_call, assert_inline=False, raisers=lambda n: False,
                 opaque=('counter.SecureCounters.tally_counters', 'counter.SecureCounters.detach_counts', 'counter.SecureCounters.__init__'),
                 track=lambda a: any(x[0] in ('attr', 'hv') and x[1] == SELF for x in subterms(a)) or TC in show(a))
    res = eng.run(f, selfcls=CP)
    rep.count('paths', len(res))
    for ev in tally:
        fa = tuple(ev.facts.items())
        st = poss(ev.st, ev.facts)
        a = strip(ev.args[-1]) if ev.args else NONE
        fc = A('final_counts')
        whole = a == ('mcall', fc, 'values', (), ()) or a[0] == 'call' and a[1] in ('list', 'tuple') and a[2][0] == ('mcall', fc, 'values', (), ()) or \
            a[0] == 'mcall' and a[1] == fc and a[2] in ('values', 'itervalues') or \
            a[0] == 'comp' and a[3] == fc and a[2] == ('idx', fc, ('elem', fc)) and not a[4]
        rep.ob('C13.tally', 'stopped', st == {'stopped'}, 'a tally is made in states %s' % sorted(st), ev.loc())
        rep.ob('C13.tally', 'no error', truth(fa, 'error_flag') is False, 'a tally is made although the round may have failed', ev.loc())
        rep.ob('C13.tally', 'counts', whole, 'the tally is made of %s' % show(a), ev.loc())
    if not tally:
        raise AnalysisBroken('write_results never tallies')
    for s, c in res:
        ok = any(k[0] == 'truthy' and v and TC in show(k[1]) and k[1][0] in ('call', 'mcall') for k, v in s.facts.items())
        for i, l in enumerate(s.trace):
            if l[0] in ('Tally', 'detach') or l[0] == 'write' and any('detach_counts' in show(x) for x in l[1]):
                rep.ob('C13.publish', l[0], ok, 'counts are published although the tally may have failed', l[-1] if isinstance(l[-1], str) else f.loc())
            if l[0] == 'Tally':
                rep.ob('C13.publish', 'content', 'detach_counts' in show(l[1]), 'published tally is %s' % show(l[1])[:120], l[-1])

    fs = foreign_stores(p, ('state', 'need_counts', 'final_counts', 'error_flag'))
    for a, g, n in fs:
        rep.ob('C13.owner', sq(g), False, 'changes %s of the round' % a, g.loc(n))
    rep.ob('C13.owner', 'package', not fs)

    # results are only written by the phase that stopped
    ts = p.cls('TallyServer')
    f = p.method(ts, 'stop_collection_phase')
    if f is None:
        raise AnalysisBroken('anchor vanished: TallyServer.stop_collection_phase')
    callers = sorted(sq(g) for g in p.funcs.values() for n in ast.walk(g.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'write_results')
    rep.count('callers of write_results', len(callers))
    rep.assumption('the counts a client returns are those it collected (client side: C05 to C08)')
