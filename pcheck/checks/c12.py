"""C12: every path of every method of the collection phase (own methods inlined, loops
summarised), with the set of states the phase can be in at each store.  A state change has
to be one of the allowed ones, with its guard on the same path; shares only enter, move and
leave under their guards.  The tally server's event loop starts a phase only under its own
guards."""
from .phase import *

ALLOWED = {('new', 'starting_dcs'), ('new', 'stopped'), ('starting_dcs', 'starting_sks'), ('starting_dcs', 'stopping'),
           ('starting_sks', 'started'), ('starting_sks', 'stopping'), ('started', 'stopping'), ('stopping', 'stopped')}


def param(p, m, i):
    f = p.cls(CP).methods[m]
    return ('sym', f.params[i])


def check(p, rep):
    rep.rule('C12.order', 'the phase only moves forward through its states', 3)
    rep.rule('C12.all_dcs', 'starting waits for every data collector, and the share keepers are started only after all have sent shares', 1)
    rep.rule('C12.all_sks', 'the phase is started only after every share keeper has confirmed', 1)
    rep.rule('C12.share', 'a data collector share is stored once, whole, for the share keeper it names', 1)
    rep.rule('C12.remove', 'a client is only crossed off when its answer arrived', 2)
    rep.rule('C12.config', 'a start config goes only to a participating client whose turn it is, with only its own shares', 2)
    rep.rule('C12.abandon', 'a phase stopped while data collectors are starting drops the shares it has', 1)
    rep.rule('C12.new', 'a phase starts only when idle, permitted, with enough clients', 1)
    rep.rule('C12.owner', 'phase state is changed only by the phase itself', 1)
    runs = run_phase(p, rep)
    entries = entry_methods(p)
    sd = p.cls(CP).methods.get('store_data')
    if sd is None:
        raise AnalysisBroken('anchor vanished: CollectionPhase.store_data')
    uid, data, is_start = (('sym', x) for x in sd.params[1:4])

    def store_guard(facts, who):
        """the facts say: a start answer of a client of that kind, with data"""
        return fact(facts, ('isnone', data)) is False and fact(facts, ('truthy', is_start)) is True and member(facts, uid, who) is True

    for m in sorted(entries & set(runs)):
        f = p.cls(CP).methods[m]
        for pa in runs[m]:
            tr = pa.trace
            done = pa.c[0] == 'ret'
            for i, l in enumerate(tr):
                if l[0] == 'set' and l[1] == 'state':
                    v = strip(l[2])
                    if not is_const(v):
                        rep.ob('C12.order', m, False, 'state set to %s' % show(v), l[5])
                        continue
                    if m == '__init__':
                        rep.ob('C12.order', m, v == C('new'), 'a phase begins in state %s' % show(v), l[5])
                        continue
                    bad = {o for o in l[3] if o != v[2] and (o, v[2]) not in ALLOWED}
                    rep.ob('C12.order', '%s:%s' % (m, v[2]), not bad, 'state can go from %s to %s' % (', '.join(sorted(bad)), v[2]), l[5])
                    if v[2] in l[3] and l[3] == {v[2]}:
                        continue
                    if v[2] == 'starting_dcs' and done:
                        rep.ob('C12.all_dcs', m, 'dc_uids' in pa.filled('need_shares'), 'the phase starts without waiting for every data collector', l[5])
                    if v[2] == 'starting_sks' and done:
                        em = [j for j, x in enumerate(tr[:i]) if x == ('*', 'empty', 'need_shares')]
                        mid = [x for x in tr[em[-1]:] if x[0] == 'mut' and x[2] == 'need_shares' and x[1] not in ('.add', '.update') or
                               x[0] == 'set' and x[1] == 'need_shares' and 'sk_uids' not in iterables(x[2])] if em else []
                        rem = [x for x in tr[:em[-1]] if x[0] == 'mut' and x[2] == 'need_shares' and x[1] in ('.remove', '.discard')] if em else []
                        bef = [x for x in tr[:em[-1]] if x[0] == 'mut' and x[2] == 'need_shares' and x[1] in ('.add', '.update')] if em else []
                        rep.ob('C12.all_dcs', m + ':empty', bool(em) and not bef, 'share keepers are started while data collector shares may be missing', l[5])
                        after = Path(m, pa.s, pa.c)
                        after.trace = tr[em[-1]:] if em else ()
                        rep.ob('C12.all_sks', m + ':refill', 'sk_uids' in after.filled('need_shares') and not mid,
                               'share keepers are started without waiting for every share keeper', l[5])
                    if v[2] == 'started':
                        nset = [x for x in tr[:i] if x[0] == 'set' and x[1] == 'need_shares']
                        rep.ob('C12.all_sks', m + ':started', truth(l[4], 'need_shares') is False and not nset,
                               'the phase counts as started while share keepers may be missing', l[5])
                    if l[3] & {'starting_dcs'} and v[2] == 'stopping':
                        a = 'clear' if any(x[0] == 'mut' and x[2] == 'encrypted_shares' and x[1] == '.clear' or x[0] == 'set' and x[1] == 'encrypted_shares' for x in tr) else None
                        b = 'clear' if any(x[0] == 'mut' and x[2] == 'need_shares' and x[1] == '.clear' or x[0] == 'set' and x[1] == 'need_shares' for x in tr) else None
                        if done:
                            rep.ob('C12.abandon', m, bool(a and b), 'shares of an abandoned start are kept', l[5])
                elif l[0] == 'share' and l[1] in ('.append', '.extend', '.update', '.add', '.insert'):
                    v = strip(l[3][-1]) if l[3] else NONE
                    el = ('elem', data)
                    own = v == ('idx', data, el) and l[1] == '.append'
                    keyed = any(strip(x) == el for x in subterms(l[2])) and not any(x[0] == 'sym' and x not in (data,) for x in subterms(strip(l[2])))
                    g = store_guard(l[6], 'dc_uids') and member(l[6], uid, 'need_shares') is True
                    rep.ob('C12.share', m, own and keyed, 'stores %s under %s' % (show(v), show(l[2])), l[7])
                    rep.ob('C12.share', m + ':guard', g, 'a share is stored although it is not the first answer of a data collector', l[7])
                    gone = any(x[0] == 'mut' and x[2] == 'need_shares' and x[1] in ('.remove', '.discard') and strip(x[3][0]) == uid for x in tr)
                    rep.ob('C12.share', m + ':once', gone or not done, 'a data collector stays wanted after its share is stored', l[7])
                elif l[0] == 'item' and l[1] == 'encrypted_shares':
                    v = strip(l[3])
                    el = ('elem', data)
                    ok = v[0] == 'obj' and v[1] == 'list' and (not v[3] or list(v[3]) == [('idx', data, el)])
                    new = any(k[0] == 'cmp' and k[1] == 'in' and strip(k[2]) == strip(l[2]) and attr_name(k[3]) == 'encrypted_shares' and not pol for k, pol in l[5])
                    rep.ob('C12.share', m, ok and new and strip(l[2]) == el and store_guard(l[5], 'dc_uids'), 'replaces the shares of a share keeper', l[6])
                elif l[0] == 'mut' and l[2] in ('need_shares',) and l[1] in ('.remove', '.discard', '.pop', '.popitem', '.difference_update', '.intersection_update', '.del'):
                    if l[1] not in ('.remove', '.discard'):
                        rep.ob('C12.remove', m, False, 'clients are crossed off with %s' % l[1], l[7])
                        continue
                    own = strip(l[3][0]) == uid and m == 'store_data'
                    dc = store_guard(l[6], 'dc_uids')
                    sk = store_guard(l[6], 'sk_uids')
                    rep.ob('C12.remove', m, own and (dc or sk), 'a client is crossed off although its start answer did not arrive', l[7])
                    if dc and not sk and done:
                        had = any(x[0] in ('share', 'item') for x in tr)
                        rep.ob('C12.remove', m + ':share', had, 'a data collector is crossed off without keeping its shares', l[7])
                elif l[0] == 'mut' and l[2] in ('need_shares', 'encrypted_shares') and l[1] in ('.clear', '.pop', '.popitem', '.del'):
                    end = pa.end_states()
                    rep.ob('C12.remove', m + ':' + l[2], l[1] == '.clear' and end <= {'stopping', 'stopped'}, '%s forgotten while the phase goes on' % l[2], l[7])
                elif l[0] == 'set' and l[1] in ('need_shares', 'encrypted_shares') and m != '__init__':
                    end = pa.end_states()
                    refill = l[1] == 'need_shares' and iterables(l[2])
                    rep.ob('C12.remove', m + ':' + l[1], bool(refill) or end <= {'stopping', 'stopped'}, '%s replaced while the phase goes on' % l[1], l[5])
                elif l[0] == 'mut' and l[2] == 'need_shares' and l[1] in ('.add', '.update'):
                    end = pa.end_states()
                    want = pa.filled('need_shares')
                    rep.ob('C12.all_dcs' if 'dc_uids' in want else 'C12.all_sks', m + ':who', bool(want) and want <= {'dc_uids', 'sk_uids'} and len(want) == 1,
                           'waits for %s' % sorted(want), l[7])

    # ---- start config
    cls = p.cls(CP)
    f = cls.methods.get('get_start_config')
    if f is None:
        raise AnalysisBroken('anchor vanished: CollectionPhase.get_start_config')
    u = ('sym', f.params[1])

    def on_call(ev):
        if ev.kind == 'setitem' and ev.recv[0] == 'obj' and is_str(ev.args[0]):
            return ('put', ev.recv, ev.args[0][2], ev.args[1], poss(ev.st, ev.facts), tuple(ev.facts.items()), ev.loc())
    eng = Engine(p, inline=lambda g: g.cls is cls, on_call=on_call, assert_inline=False, raisers=lambda n: False, zero_iter=False,
                 track=lambda a: any(x[0] in ('attr', 'hv') and x[1] == SELF for x in subterms(a)) and not any(x[0] == 'elem' for x in subterms(a)))
    sent = 0
    for s, c in eng.run(f, selfcls=CP):
        if c[0] != 'ret' or c[1] == NONE:
            continue
        facts = tuple(s.facts.items())
        states = poss(s, s.facts)
        rep.ob('C12.config', 'turn', member(facts, u, 'need_shares') is True and states <= {'starting_dcs', 'starting_sks'},
               'a start config is given to a client that does not need one (states %s)' % sorted(states), f.loc())
        items = {l[2]: l for l in s.trace if l[0] == 'put' and l[1] == c[1]}
        if c[1][0] == 'obj' and c[1][1] == 'dict':
            for k in c[1][3]:
                if isinstance(k, tuple) and len(k) == 2 and is_str(k[0]):
                    items.setdefault(k[0][2], ('put', c[1], k[0][2], k[1], states, facts, f.loc()))
            for hk, hv in s.heap.items():
                if len(hk) == 3 and hk[0] == c[1] and hk[1] == '[]' and is_str(hk[2]):
                    items.setdefault(hk[2][2], ('put', c[1], hk[2][2], hv, states, facts, f.loc()))
        who = [a for a in ('dc_uids', 'sk_uids') if member(facts, u, a) is True]
        if 'shares' in items:
            sent += 1
            v = strip(items['shares'][3])
            own = v == ('idx', A('encrypted_shares'), u) or v[0] == 'mcall' and v[1] == A('encrypted_shares') and v[2] in ('get', 'pop') and v[3][0] == u
            rep.ob('C12.config', 'shares', own, 'a share keeper is sent %s' % show(v), items['shares'][6])
            rep.ob('C12.config', 'sk turn', states == {'starting_sks'} and 'sk_uids' in who, 'shares are sent in states %s to %s' % (sorted(states), who), items['shares'][6])
        if 'sharekeepers' in items:
            sent += 1
            rep.ob('C12.config', 'dc turn', states == {'starting_dcs'} and 'dc_uids' in who, 'a collection is started in states %s for %s' % (sorted(states), who), items['sharekeepers'][6])
        if states == {'starting_sks'} and 'sk_uids' in who:
            rep.ob('C12.config', 'sk complete', 'shares' in items, 'a share keeper is started without shares', f.loc())
        if states == {'starting_dcs'} and 'dc_uids' in who:
            rep.ob('C12.config', 'dc complete', 'sharekeepers' in items, 'a data collector is started without share keepers', f.loc())
    if sent < 2:
        rep.ob('C12.config', 'both', False, 'no start config for both kinds of client', f.loc())

    # ---- ownership
    fs = foreign_stores(p, ('state', 'need_shares', 'encrypted_shares'))
    for a, g, n in fs:
        rep.ob('C12.owner', sq(g), False, 'changes %s of the phase' % a, g.loc(n))
    rep.ob('C12.owner', 'package', not fs)

    # ---- event loop
    ts = p.cls('TallyServer')
    f = p.method(ts, 'refresh_loop')
    if f is None:
        raise AnalysisBroken('anchor vanished: TallyServer.refresh_loop')
    T = ('self', 'TallyServer')
    starts = []
    PERM = 'round_start_permitted'

    def on_call(ev):
        if ev.kind == 'new' and ev.name == CP:
            starts.append(ev)
            return ('new',)
        if ev.kind == 'call' and ev.name.split('.')[-1] == 'start_new_collection_phase':
            starts.append(ev)
            return ('new',)
    names = ('continue_collecting', PERM, 'get_idle_dcs', 'get_idle_sks', 'start_after_time', 'collection_phase', 'dc_threshold', 'sk_threshold')
    eng = Engine(p, inline=lambda g: g.cls is ts and g.name not in ('refresh_config', 'clear_dead_clients', 'get_status', 'start_new_collection_phase',
                                                                      'stop_collection_phase', 'get_idle_dcs', 'get_idle_sks', 'get_max_all_client_rtt', 'get_max_client_rtt'),
                 on_call=on_call, assert_inline=False, raisers=lambda n: False, zero_iter=False,
                 track=lambda a: any(n in show(a) for n in names))
    eng.run(f, selfcls='TallyServer')
    seen = set()
    for ev in starts:
        fa = ev.facts
        idle = any(k[0] == 'isnone' and k[1][0] in ('attr', 'hv') and k[1][2] == 'collection_phase' and v for k, v in fa.items()) or \
            any(k[0] == 'truthy' and k[1][0] in ('attr', 'hv') and k[1][2] == 'collection_phase' and not v for k, v in fa.items())
        cont = any(k[0] == 'truthy' and k[1][0] == 'call' and k[1][1].endswith('continue_collecting') and v for k, v in fa.items())
        perm = any(k[0] == 'truthy' and (k[1][0] == 'mcall' and k[1][2] == PERM or k[1][0] == 'call' and k[1][1].endswith(PERM)) and v for k, v in fa.items())

        def enough(getter, thr):
            num = lambda t: t[0] == 'len' and t[1][0] in ('call', 'mcall') and (t[1][1] if t[1][0] == 'call' else t[1][2]).endswith(getter)
            lim = lambda t: t[0] in ('idx', 'mcall') and any(x == C(thr) for x in subterms(t))
            for k, v in fa.items():
                if k[0] == 'cmp' and k[1] in ('lt', 'le'):
                    x, y = strip(k[2]), strip(k[3])
                    if k[1] == 'lt' and not v and num(x) and lim(y) or k[1] == 'lt' and v and lim(x) and num(y) or k[1] == 'le' and v and lim(x) and num(y):
                        return True
            return False
        rep.ob('C12.new', 'idle', idle, 'a phase is started while another may be running', ev.loc())
        rep.ob('C12.new', 'continue', cont, 'a phase is started although the configured number of rounds may be over', ev.loc())
        rep.ob('C12.new', 'permitted', perm, 'a phase is started although the noise delay may not have passed', ev.loc())
        rep.ob('C12.new', 'dc threshold', enough('get_idle_dcs', 'dc_threshold'), 'a phase is started with too few data collectors', ev.loc())
        rep.ob('C12.new', 'sk threshold', enough('get_idle_sks', 'sk_threshold'), 'a phase is started with too few share keepers', ev.loc())
        after = any('start_after_time' in show(k) and k[0] == 'cmp' for k in fa)
        rep.ob('C12.new', 'start after', after, 'a phase is started before the configured start time', ev.loc())
        if ev.kind == 'call' and ev.args:
            a = [show(x) for x in ev.args]
            rep.ob('C12.new', 'who', len(a) >= 2 and 'get_idle_dcs' in a[0] and 'get_idle_sks' in a[1], 'the phase is started with %s' % a, ev.loc())
    if not starts:
        raise AnalysisBroken('the event loop never starts a phase')
    snc = p.method(ts, 'start_new_collection_phase')
    if snc is not None:
        made = []

        def on_call(ev):
            if ev.kind == 'new' and ev.name == CP:
                made.append(ev)
                return ('new',)
            if ev.kind == 'call' and ev.name.split('.')[-1] == 'start' and ev.recv is not None:
                return ('start',)
        eng = Engine(p, on_call=on_call, assert_inline=False, raisers=lambda n: False, zero_iter=False, inline=lambda g: g.cls is ts and g.name not in ('refresh_config', 'get_status'))
        for s, c in eng.run(snc, selfcls='TallyServer'):
            rep.ob('C12.new', 'begin', c[0] != 'ret' or [l[0] for l in s.trace] == ['new', 'start'], 'a phase is created as %s' % [l[0] for l in s.trace], snc.loc())
        ini = cls.methods['__init__']
        for ev in made:
            b = dict(zip(ini.params[1:], ev.args))
            b.update(dict(ev.kwargs))
            dcs, sks = ('sym', snc.params[1]), ('sym', snc.params[2])
            rep.ob('C12.new', 'members', mentions(b.get('dc_uids', NONE), dcs) and mentions(b.get('sk_uids', NONE), sks) and not mentions(b.get('dc_uids', NONE), sks),
                   'the phase is made with DCs %s' % show(b.get('dc_uids', NONE)), ev.loc())
        if not made:
            raise AnalysisBroken('start_new_collection_phase makes no phase')
