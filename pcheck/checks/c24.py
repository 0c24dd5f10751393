"""C24: every path of the functions that make a status, take one in, pick clients by it and forget
clients, with the conditions of the path.  A node calls itself idle exactly if it holds nothing; a
record of a client is written only for the client that sent the status, only if its version is
accepted, with the times of its arrival set by the tally server; a client is picked only with the
type and state that are asked for, after the silent clients have been forgotten."""
from ..util import *
from .c29 import KNOWN

TS, SERVER = 'TallyServer', 'PrivCountServerProtocol'
SELF = ('self', TS)
CLIENTS = ('attr', SELF, 'clients')
MUT = {'pop', 'popitem', 'clear', 'update', 'setdefault', '__setitem__', '__delitem__'}


def method(p, cn, m):
    f = p.method(p.cls(cn), m)
    if f is None:
        raise AnalysisBroken('anchor vanished: %s.%s' % (cn, m))
    return f


def own(p, cn, *keep):
    base = set(p.mro(p.cls(cn)))
    return lambda g: (g.cls in base or g.cls is None and sq(g) not in KNOWN) and g.name not in keep


def clients(t):
    t = strip(t)
    return t[0] in ('attr', 'hv') and t[1:3] == (SELF, 'clients')


def record(t):
    """uid term of a record of the clients: clients[uid], clients.get(uid, ..), clients.setdefault(uid, ..)"""
    t = strip(t)
    if t[0] == 'idx' and clients(t[1]):
        return strip(t[2])
    if t[0] == 'mcall' and clients(t[1]) and t[2] in ('get', 'setdefault') and t[3]:
        return strip(t[3][0])
    if t[0] == 'val' and clients(t[1]):
        return ('elem', strip(t[1]))
    return None


def cfield(t, name):
    """uid term if t is that field of a record"""
    t = strip(t)
    if t[0] == 'idx' and t[2] == C(name):
        return record(t[1])
    if t[0] == 'mcall' and t[2] == 'get' and t[3] and t[3][0] == C(name):
        return record(t[1])
    return None


def touched(ev):
    """(uid, key or None, value) if the event changes the clients or a record of them"""
    n = ev.name.split('.')[-1]
    r = ev.recv and strip(ev.recv)
    if r is None or ev.recv[0] == 'copy':
        return None
    if ev.kind in ('setitem', 'delitem') or ev.kind == 'call' and n in MUT and ev.func is None:
        a = [strip(x) for x in ev.args]
        if clients(r):
            return (a[0] if a and n not in ('update', 'clear', 'popitem') else NONE, None, a[-1] if len(a) > 1 else None)
        u = record(r)
        if u is not None:
            return (u, a[0] if a and n != 'update' else None, a[-1] if a else None)
    if ev.kind == 'setattr' and ev.name == '.clients=' and r == SELF:
        return (NONE, None, strip(ev.args[0]))
    return None


def check(p, rep):
    rep.rule('C24.state', 'a node says it is idle exactly if it holds no collection, and active otherwise', 3)
    rep.rule('C24.record', 'a status is recorded for the client that sent it and no other, and only if its version is accepted', 2)
    rep.rule('C24.version', 'a data collector of a version that adds no noise is not accepted', 2)
    rep.rule('C24.stamp', 'when a status arrived and from where is set by the tally server, not by the client', 4)
    rep.rule('C24.kept', 'the fingerprint that a client first had is kept', 1)
    rep.rule('C24.pick', 'clients are picked by their recorded type and state', 1)
    rep.rule('C24.dead', 'a client is forgotten exactly if it was silent for too long', 2)
    rep.rule('C24.round', 'a round is started with the idle clients, picked after the silent ones were forgotten', 2)
    rep.rule('C24.owner', 'only arriving statuses and silence change what is known of the clients', 1)
    n = 0

    # ---- what a node says of itself
    for cn, attr in (('DataCollector', 'aggregator'), ('ShareKeeper', 'keystore'), (TS, 'collection_phase')):
        f = method(p, cn, 'get_status')
        eng = Engine(p, inline=lambda g: False, assert_inline=False, raisers=lambda x: False)
        A = ('attr', ('self', cn), attr)
        seen = set()
        for s, c in eng.run(f, selfcls=cn):
            if c[0] != 'ret':
                continue
            n += 1
            none = s.facts.get(('isnone', A))
            if none is None and s.facts.get(('truthy', A)):
                none = False
            v = state_of(s, strip(c[1]))
            seen.add(v)
            rep.ob('C24.state', cn, none is not None and v == C('idle' if none else 'active'), 'a %s says it is %s where it %s' % (cn, v and show(v), {True: 'holds nothing', False: 'holds a collection', None: 'may hold a collection or not'}[none]), f.loc())
        rep.ob('C24.state', cn + ' both', {C('idle'), C('active')} <= seen, 'a %s only says %s' % (cn, ', '.join(show(x) for x in seen if x)), f.loc())

    # ---- statuses that arrive
    f = method(p, TS, 'set_client_status')
    uid, status = (('sym', x) for x in f.params[1:3])
    some = False

    def oc(ev):
        t = touched(ev)
        if t:
            return ('T', t, tuple(ev.facts.items()), ev.name.split('.')[-1], ev.loc())
    eng = Engine(p, inline=own(p, TS, 'is_valid_client_version'), assert_inline=False, raisers=lambda x: False, on_call=oc)

    def valid(facts):
        for k, v in facts:
            if k[0] == 'truthy' and k[1][0] in ('call', 'mcall') and 'is_valid_client_version' in str(k[1][1:3]):
                a = k[1][2] if k[1][0] == 'call' else k[1][3]
                if uid in a and (status in a or status in [x for q in k[1][3:] if isinstance(q, tuple) for w in q if isinstance(w, tuple) for x in w]):
                    return v
        return None
    for s, c in eng.run(f, selfcls=TS):
        if c[0] != 'ret':
            continue
        n += 1
        ts = [x for x in s.trace if x[0] == 'T']
        for _, (u, key, val), facts, nm, loc in ts:
            rep.ob('C24.record', 'own', u == uid, 'a status changes what is recorded of %s' % show(u), loc)
            rep.ob('C24.record', 'accepted', valid(facts) is True, 'a status is recorded although its version may not be accepted', loc)
            if key is not None:
                rep.ob('C24.record', 'fields', key in (C('time'), C('fingerprint')) or val is not None and mentions(val, status), 'the recorded %s is not that of the status' % show(key), loc)
        put = [i for i, x in enumerate(ts) if x[1][2] == status]
        if put:
            some = True
            old = [k for k, v in s.facts.items() if k[0] == 'isnone' and v is True and cfield(k[1], 'fingerprint') == uid]
            new = [k for k, v in s.facts.items() if k[0] == 'cmp' and k[1] == 'in' and v is False and k[2] == uid and clients(k[3])]
            back = [x for x in ts[put[-1] + 1:] if x[1][1] == C('fingerprint') and x[1][2] is not None and cfield(x[1][2], 'fingerprint') == uid]
            rep.ob('C24.kept', 'fingerprint', bool(old or new or back), 'the fingerprint of a client is replaced', f.loc())
        elif valid(s.facts.items()) is True:
            rep.ob('C24.record', 'whole', False, 'an accepted status is not recorded', f.loc())
    if not some:
        raise AnalysisBroken('TallyServer.set_client_status records no status')

    # ---- versions
    f = method(p, TS, 'is_valid_client_version')
    st = ('sym', f.params[2])
    eng = Engine(p, inline=own(p, TS), assert_inline=False, raisers=lambda x: False)
    took = False
    for s, c in eng.run(f, selfcls=TS):
        if c[0] != 'ret':
            continue
        if s.facts.get(('isnone', st)) is True:
            continue
        n += 1
        r = strip(c[1])
        if is_const(r) and not r[2]:
            continue
        took = took or is_const(r)
        dc = [v for k, v in s.facts.items() if k[0] == 'cmp' and k[1] == 'eq' and C('DataCollector') in k[2:] and mentions(k, st)]
        for old in ('1.0.0', '1.0.1'):
            no = any(v is False and k[0] == 'cmp' and (k[1] == 'eq' and C(old) in k[2:] or k[1] == 'in' and C(old) in list(subterms(k[3]))) and first_word(k[2], st, k[3]) for k, v in s.facts.items())
            rep.ob('C24.version', old, bool(dc) and dc[0] is False or no, 'a data collector of version %s can be accepted' % old, f.loc())
    if not took:
        raise AnalysisBroken('TallyServer.is_valid_client_version accepts nothing')

    # ---- stamps
    f = method(p, SERVER, 'handle_status_event')
    pay = ('sym', f.params[2])

    def oc(ev):
        if ev.kind == 'call' and ev.name.split('.')[-1] == 'set_client_status' and ev.args:
            t = strip(ev.args[-1])
            for k in ('alive', 'rtt', 'clock_skew'):
                v = ev.st.heap.get((t, '[]', C(k)))
                v = v and strip(v)
                good = v is not None and (not mentions(v, t) or k == 'rtt' and own_times(v, t))
                if k == 'alive':
                    good = v is not None and v[0] == 'call' and v[1].split('.')[-1] == 'time'
                rep.ob('C24.stamp', k, good, 'the %s of a status is %s' % (k, v and show(v) or 'that which the client sent'), ev.loc())
            rep.ob('C24.stamp', 'made', mentions(t, pay), 'the status recorded is not that which was sent', ev.loc())
            return ('stamp',)
    eng = Engine(p, inline=own(p, SERVER, 'sendLine'), assert_inline=False, raisers=lambda x: False, on_call=oc)
    if not any('stamp' in [x[0] for x in s.trace] for s, c in eng.run(f, selfcls=SERVER)):
        raise AnalysisBroken('no status reaches the tally server')

    # ---- picking
    for m, typ in (('get_idle_dcs', 'DataCollector'), ('get_idle_sks', 'ShareKeeper')):
        f = method(p, TS, m)

        def oc(ev):
            nm = ev.name.split('.')[-1]
            if ev.kind == 'call' and nm in ('append', 'add', 'insert') and ev.recv is not None and strip(ev.recv)[0] == 'obj':
                return ('A', strip(ev.recv), strip(ev.args[-1]), tuple(ev.facts.items()), ev.loc())
        eng = Engine(p, inline=own(p, TS), assert_inline=False, raisers=lambda x: False, on_call=oc, zero_iter=False)

        def picked(u, facts, loc):
            for k, want in (('type', typ), ('state', 'idle')):
                ok = any(v is True and q[0] == 'cmp' and q[1] == 'eq' and any(cfield(q[i], k) == u and q[5 - i] == C(want) for i in (2, 3)) for q, v in facts)
                rep.ob('C24.pick', '%s %s' % (m, k), ok, '%s picks a client whose %s may not be %s' % (m, k, want), loc)
        some = False
        for s, c in eng.run(f, selfcls=TS):
            if c[0] != 'ret':
                continue
            n += 1
            r = strip(c[1])
            for x in s.trace:
                if x[0] == 'A' and x[1] == r:
                    some = True
                    picked(x[2], x[3], x[4])
            if r[0] == 'comp':
                some = True
                picked(strip(r[2]), flat(r[4]), f.loc())
            elif r[0] != 'obj':
                rep.ob('C24.pick', m, False, '%s gives %s' % (m, show(r)), f.loc())
        if not some:
            raise AnalysisBroken('%s picks no client' % m)

    # ---- silence
    f = method(p, TS, 'clear_dead_clients')

    def silent(k):
        """is k a comparison of the time since the status of a client with a limit: its client and the truth that means silence"""
        if k[0] == 'cmp' and k[1] in ('lt', 'le'):
            for i, dead in ((3, True), (2, False)):
                for x in subterms(k[i]):
                    if x[0] == 'bin' and x[1] == 'Sub' and 'time' in str(strip(x[2]))[:60] and cfield(x[3], 'alive') is not None and not any(cfield(y, 'alive') for y in subterms(k[5 - i])):
                        return cfield(x[3], 'alive'), dead
        return None
    ended = []

    def on_iter(ends, it, elemv, lid, poss, nn, fn):
        for s in ends:
            s = s[0] if isinstance(s, tuple) else s
            if hasattr(s, 'facts'):
                ended.append((s, elemv))

    def oc(ev):
        t = touched(ev)
        if t:
            return ('T', t, tuple(ev.facts.items()), ev.name.split('.')[-1], ev.loc())
    eng = Engine(p, inline=own(p, TS, 'is_client_control_ok', 'is_last_client_event_recent', 'are_dc_events_expected', 'get_client_detail', 'get_client_flag_list', 'get_client_display_name', 'get_max_client_rtt', 'get_checkin_period'),
                 assert_inline=False, raisers=lambda x: False, on_call=oc, on_iter=on_iter, zero_iter=False)
    runs = [s for s, c in eng.run(f, selfcls=TS) if c[0] == 'ret']
    gone = False
    for s in runs:
        for _, (u, key, val), facts, nm, loc in [x for x in s.trace if x[0] == 'T']:
            gone = True
            ok = nm in ('pop', '[]=', 'del', '__delitem__') or 'del' in nm
            rep.ob('C24.dead', 'forgets', ok and key is None and any(silent(k) and silent(k)[0] == u and v is silent(k)[1] for k, v in facts), 'what is known of %s is changed although it may not have been silent' % show(u), loc)
    for s, e in ended:
        n += 1
        sil = [(k, v) for k, v in s.facts.items() if silent(k)]
        t = any(x[0] == 'T' for x in s.trace)
        if not t:
            rep.ob('C24.dead', 'keeps', any(v is (not silent(k)[1]) for k, v in sil), 'a client that was silent for too long is kept', f.loc())
    rep.ob('C24.dead', 'some', gone and bool(ended), 'no client is ever forgotten', f.loc())

    # ---- the round
    f = method(p, TS, 'refresh_loop')

    def oc(ev):
        nm = ev.name.split('.')[-1]
        if ev.kind == 'call' and nm in ('clear_dead_clients', 'get_idle_dcs', 'get_idle_sks', 'start_new_collection_phase'):
            return ('R', nm, tuple(strip(a) for a in ev.args), ev.loc())
    eng = Engine(p, inline=own(p, TS, 'clear_dead_clients', 'get_idle_dcs', 'get_idle_sks', 'start_new_collection_phase', 'refresh_config', 'stop_collection_phase', 'get_status', 'get_max_all_client_rtt'), assert_inline=False, raisers=lambda x: False, on_call=oc)
    began = False
    for s, c in eng.run(f, selfcls=TS):
        if c[0] != 'ret':
            continue
        n += 1
        tr = [x for x in s.trace if x[0] == 'R']
        names = [x[1] for x in tr]
        rep.ob('C24.round', 'forgets', 'clear_dead_clients' in names, 'silent clients are not looked for', f.loc())
        for i, x in enumerate(tr):
            if x[1] in ('get_idle_dcs', 'get_idle_sks'):
                rep.ob('C24.round', 'order', 'clear_dead_clients' in names[:i], 'clients are picked before the silent ones are forgotten', x[3])
            if x[1] == 'start_new_collection_phase':
                began = True
                a = x[2][-2:]
                rep.ob('C24.round', 'clients', len(a) == 2 and all(y[0] in ('call', 'mcall') and 'get_idle_' + w in str(y[1:3]) for y, w in zip(a, ('dcs', 'sks'))), 'a round is started with %s' % [show(y) for y in a], x[3])
    if not began:
        raise AnalysisBroken('TallyServer.refresh_loop starts no round')

    # ---- owner
    roots = [method(p, TS, m) for m in ('__init__', 'set_client_status', 'clear_dead_clients')]
    only_own(p, rep, 'C24.owner', p.cls(TS), ('clients',), roots, 'the clients')
    for g in entry_methods(p, p.cls(TS), skip={r.name for r in roots}):
        if 'clients' not in ast.dump(g.node):
            continue
        hit = []

        def oc(ev):
            t = touched(ev)
            if t and not (ev.kind == 'setattr'):
                hit.append(ev)
        if not any(isinstance(x, ast.Attribute) and x.attr == 'clients' for x in ast.walk(g.node)):
            continue
        Engine(p, inline=lambda x: False, assert_inline=False, raisers=lambda x: False, on_call=oc).run(g, selfcls=TS)
        rep.ob('C24.owner', g.name, not hit, '%s changes what is known of a client' % g.name, hit[0].loc() if hit else g.loc())
    rep.count('paths analysed', n)
    rep.assumption('a client that proved knowledge of the shared secret says who it is (it has no key of its own to prove it)')


def state_of(s, r):
    if r[0] == 'obj':
        v = s.heap.get((r, '[]', C('state')))
        if v is None:
            for k in r[3] if len(r) > 3 and isinstance(r[3], tuple) else ():
                if isinstance(k, tuple) and len(k) == 2 and k[0] == C('state'):
                    v = k[1]
        return v and strip(v)
    return None


def first_word(a, st, b):
    """one of the two is the privcount version in the status, up to the first space"""
    for t in (strip(a), strip(b)):
        if mentions(t, st) and 'privcount_version' in str(t) and t[0] == 'idx' and t[2] == C(0) and strip(t[1])[0] == 'mcall' and strip(t[1])[2] in ('partition', 'split'):
            return True
    return False


def own_times(v, t):
    """a difference of times that the tally server took itself"""
    return all(x[0] != 'idx' or strip(x[1]) != t or x[2] == C('alive') for x in subterms(v))


def flat(conds):
    out = []
    for x in conds:
        if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], bool):
            out.append(x)
        else:
            out.append((x, True))
    return out
