"""C21: the control connection of the data collector: every line it can send, every state change
and every event it hands on, on all paths of every method of the protocol (helpers inlined)."""
from ..util import *
from .c20 import CL, BASE

S = ('self', CL)
A = lambda n: ('attr', S, n)
VERBS = ('PROTOCOLINFO ', 'AUTHCHALLENGE ', 'AUTHENTICATE', 'SETCONF ', 'GETCONF ', 'SETEVENTS', 'SET_TMODEL ', 'GETINFO ', 'QUIT')
DEFAULTS = {'__ReloadTorrcOnSIGHUP': 1.0, 'EnablePrivCount': 0.0, 'PrivCountCircuitSampleRate': 1.0, 'PrivCountMaxCellEventsPerCircuit': -1.0}
OPAQUE = {'check_line_length', 'getConfiguredValue', 'setDiscoveredValue', 'quit', 'clear', 'clearConnection', 'enableEvents', 'disableEvents', 'encodeControllerString',
          'decodeControllerString', 'startCollection', 'stopCollection', 'handleUnexpectedLine', 'sendInfoNs'}


def raw_send(ev):
    """the line of a call that really writes to the connection"""
    if ev.kind not in ('call', 'mcall'):
        return None
    n = ev.name.split('.')[-1]
    if n == 'sendLine' and ev.name.startswith('twisted') and len(ev.args) == 2 and ev.args[0] == S:
        return strip(ev.args[1])
    if n == 'sendLine' and ev.recv is not None and strip(ev.recv)[0] == 'super' or n == 'sendLine' and ev.name.startswith('super'):
        return strip(ev.args[-1])
    if n in ('write', 'writeSequence') and ev.recv is not None and mentions(ev.recv, A('transport')):
        return strip(ev.args[-1])
    return None


def parts(t):
    """the values a line is put together from"""
    t = strip(t)
    if is_const(t):
        return []
    if t[0] == 'bin' and t[1] in ('Add', 'Mod'):
        return parts(t[2]) + parts(t[3])
    if t[0] == 'fmt':
        out = []
        for x in t[3:]:
            for y in x if isinstance(x, (tuple, list)) else ():
                if isinstance(y, tuple) and y and isinstance(y[0], str) and len(y) > 1 and isinstance(y[1], tuple) and len(y) == 2 and y[0] not in ('len', 'elem'):
                    y = y[1]        # keyword argument
                out += parts(y)
        return out
    if t[0] == 'tuple':
        return [y for x in t[1] for y in parts(x)]
    return [t]


def norm(t):
    """without number conversions"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'call' and t[1] in ('float', 'int') and len(t[2]) == 1:
        return norm(t[2][0])
    if t[0] == 'c':
        return ('c', float(t[2])) if isinstance(t[2], (int, float)) and not isinstance(t[2], bool) else t
    return tuple(norm(x) if isinstance(x, tuple) else x for x in t)


def conf_facts(facts):
    out = {}
    for k, v in facts.items():
        if 'getConfiguredValue' in str(k):
            k = norm(k)
            if k[0] == 'cmp' and k[1] == 'ge':
                k, v = ('cmp', 'lt') + k[2:], not v
            out[k] = v
    return out


def setconf(lines):
    """{option: value term} of the SETCONF lines"""
    out = {}
    for l in lines:
        t = lead(l)
        if t.startswith('SETCONF '):
            k, _, v = t[8:].partition('=')
            ps = parts(l)
            out[k] = ps[0] if ps else C(v)
    return out


def num(t):
    try:
        return float(t[2]) if t[0] == 'c' else None
    except ValueError:
        return None


def check(p, rep):
    rep.rule('C21.handed', 'an event is only counted while processing, if it was asked for, and a rejected event ends the connection', 2)
    rep.rule('C21.asked', 'exactly the events that the counters of the collection need are asked for', 3)
    rep.rule('C21.state', 'processing begins only from an authenticated, discovered connection, after asking for events', 3)
    rep.rule('C21.off', 'stopping turns the events off and forgets them', 2)
    rep.rule('C21.restore', 'every setting made for a collection is restored to its default when it stops', 2)
    rep.rule('C21.guard', "the relay's configuration is only changed if the operator allows it", 2)
    rep.rule('C21.check', 'a relay with PrivCount turned off is noticed', 1)
    rep.rule('C21.lines', 'no value can add another command to a line sent to the relay', 5)
    rep.rule('C21.collector', 'the data collector asks for the events of the counters of its own round', 2)
    cl = p.cls(CL)
    mro = set(p.mro(cl))

    def mkeng(oc, opaque=(), **k):
        return Engine(p, inline=lambda g: g.cls in mro and g.name not in opaque, assert_inline=False, raisers=lambda n: False, on_call=oc, **k)

    def trace(ev):
        l = raw_send(ev)
        if l is not None:
            return ('send', l)
        if ev.kind == 'setattr' and ev.recv == S and ev.name in ('.state=', '.active_events='):
            return (ev.name, strip(ev.value))
        if ev.kind in ('call', 'mcall') and ev.name.split('.')[-1] in ('quit', 'handle_event'):
            return (ev.name.split('.')[-1],)

    # ---- switching events on
    f = p.method(cl, 'enableEvents')
    if f is None:
        raise AnalysisBroken('anchor vanished: enableEvents')
    use = lambda facts: [v for k, v in facts.items() if k[0] == 'truthy' and 'get_use_setconf' in str(k)]
    on, off = [], []
    for s, c in mkeng(trace, ('check_line_length', 'getConfiguredValue', 'quit')).run(f, selfcls=CL):
        if c[0] != 'ret':
            continue
        sent = [l[1] for l in s.trace if isinstance(l, tuple) and l[0] == 'send']
        st = field(s, S, 'state')
        if st != C('processing') and st != A('state') or ('.state=', C('processing')) not in s.trace:
            rep.ob('C21.state', 'quiet', not sent or any(l == ('quit',) for l in s.trace), 'sends commands but does not begin to process events', f.loc())
            continue
        was = [k[3][2] for k, v in s.facts.items() if k[0] == 'cmp' and k[1] == 'eq' and v and k[2] == A('state') and is_str(k[3])]
        was += [l for k, v in s.facts.items() if k[0] == 'cmp' and k[1] == 'in' and v and k[2] == A('state') and k[3][0] == 'tuple' for l in [x[2] for x in k[3][1]]]
        rep.ob('C21.state', 'from', bool(was) and set(was) <= {'waiting', 'processing'}, 'processing begins from state %s' % was, f.loc())
        ev = [l for l in sent if lead(l).startswith('SETEVENTS')]
        names = [x for l in ev for x in parts(l)]
        act = field(s, S, 'active_events')
        ok = len(ev) == 1 and len(names) == 1 and names[0][0] == 'mcall' and names[0][1] == C(' ') and names[0][2] == 'join' and lead(ev[0]) == 'SETEVENTS '
        rep.ob('C21.asked', 'sent', ok and strip_casts(strip(names[0][3][0]), ('sorted', 'list', 'set', 'tuple')) in (act, A('collection_events')), 'asks for %s' % [show(l)[:100] for l in ev], f.loc())
        rep.ob('C21.asked', 'active', act == A('collection_events') or ok and strip_casts(act, ('set', 'list')) == A('collection_events'), 'expects the events %s' % show(act)[:100], f.loc())
        confs = setconf(sent)
        ons = [i for i, l in enumerate(sent) if lead(l).startswith('SETCONF EnablePrivCount=') and num(confs['EnablePrivCount']) == 1]
        if True in use(s.facts):
            rep.ob('C21.state', 'enabled', len(ons) == 1 and ev and ons[0] < sent.index(ev[0]), 'PrivCount is not turned on before asking for events', f.loc())
        rep.ob('C21.check', 'asked', any(lead(l).startswith('GETCONF EnablePrivCount') for l in sent), 'whether PrivCount is on is never checked', f.loc())
        tm = [l for l in sent if lead(l).startswith('SET_TMODEL TRUE')]
        have = s.facts.get(('isnone', A('traffic_model')))
        if have is None:
            have = not s.facts.get(('truthy', A('traffic_model')), True)
        rep.ob('C21.state', 'model', len(tm) == (0 if have else 1) and all(ev and sent.index(l) < sent.index(ev[0]) for l in tm), 'the traffic model is not sent before asking for events', f.loc())
        on.append((conf_facts(s.facts), confs))
    if not on:
        raise AnalysisBroken('enableEvents never begins processing')

    # ---- switching events off
    f = p.method(cl, 'disableEvents')
    if f is None:
        raise AnalysisBroken('anchor vanished: disableEvents')
    for s, c in mkeng(trace, ('check_line_length', 'getConfiguredValue', 'quit')).run(f, selfcls=CL):
        if c[0] != 'ret':
            continue
        dis = s.facts.get(('cmp', 'eq', A('state'), C('disconnected'))) is True or s.facts.get(('isnone', A('state'))) is True
        if dis:
            continue
        sent = [l[1] for l in s.trace if isinstance(l, tuple) and l[0] == 'send']
        rep.ob('C21.off', 'sent', any(l == C('SETEVENTS') for l in sent), 'events are not turned off', f.loc())
        rep.ob('C21.off', 'forgotten', field(s, S, 'active_events') == NONE and field(s, S, 'state') == C('waiting'), 'a stopped collection is in state %s with events %s' % (
            show(field(s, S, 'state')), show(field(s, S, 'active_events'))), f.loc())
        rep.ob('C21.off', 'model', any(lead(l).startswith('SET_TMODEL FALSE') for l in sent), 'the traffic model stays active', f.loc())
        off.append((conf_facts(s.facts), setconf(sent)))
    if not off:
        raise AnalysisBroken('disableEvents never turns events off')
    for fa, confs in on:
        for fb, undo in off:
            if any(k in fb and fb[k] is not v for k, v in fa.items()):
                continue
            for k in confs:
                if k not in DEFAULTS:
                    rep.ob('C21.restore', k, False, 'sets the unknown option %s' % k, f.loc())
                    continue
                rep.ob('C21.restore', k, k in undo and num(undo[k]) == DEFAULTS[k], 'the option %s is %s when the collection stops' % (
                    k, 'not restored' if k not in undo else 'set to ' + show(undo[k])), f.loc())

    # ---- what a stop of the collection does
    f = p.method(cl, 'stopCollection')
    calls = mkeng(lambda ev: (ev.name.split('.')[-1],) if ev.kind in ('call', 'mcall') else None, OPAQUE | {'sendLine'})
    for s, c in calls.run(f, selfcls=CL):
        if c[0] == 'ret':
            rep.ob('C21.off', 'stop', ('disableEvents',) in s.trace, 'stopping a collection leaves its events on', f.loc())
            cv = field(s, S, 'collection_events')
            if s.facts.get(('truthy', ('sym', f.params[1]))) is True:
                ok = cv == NONE or cv[0] == 'hv'
                stores = live_stores(p, f, 'collection_events', CL)
                rep.ob('C21.off', 'stop events', bool(stores) and all(strip(ev.value) == NONE for ev in stores), 'a stopped collection keeps its events', f.loc())

    # ---- which events are wanted
    f = p.method(cl, 'startCollection')
    if f is None:
        raise AnalysisBroken('anchor vanished: startCollection')
    cnt = ('sym', f.params[1])
    vals, adds, got = [], [], []

    def is_valid(t):
        return t[0] == 'call' and t[1].split('.')[-1] == 'get_valid_events'

    def okset(t):
        t = strip_casts(t, ('set', 'frozenset'))
        if t[0] == 'obj' and t[1] == 'set':
            return not t[3]
        if t[0] == 'bin' and t[1] == 'BitOr':
            return okset(t[2]) and okset(t[3])
        if t[0] == 'mcall' and t[2] in ('union', 'copy'):
            return okset(t[1]) and all(okset(x) for x in t[3])
        if t[0] == 'bin' and t[1] == 'BitAnd':
            return is_valid(t[2]) or is_valid(t[3])
        if t[0] == 'call' and t[1] == 'set' and not t[2]:
            return True
        return t[0] == 'call' and t[1].split('.')[-1] == 'get_events_for_counters' and strip(t[2][0]) == cnt

    def oc(ev):
        n = ev.name.split('.')[-1]
        if ev.kind in ('call', 'mcall') and n in ('add', 'update') and ev.recv is not None:
            adds.append((ev, dict(ev.facts)))
        if ev.kind in ('call', 'mcall') and n == 'enableEvents':
            got.append((ev, strip(ev.st.heap.get((S, 'collection_events'), A('collection_events'))), dict(ev.facts)))
    mkeng(oc, OPAQUE | {'sendLine'}).run(f, selfcls=CL)
    upd = set()
    for ev, facts in adds:
        a = strip(ev.args[0])
        if ev.name.split('.')[-1] == 'update':
            rep.ob('C21.asked', 'update', okset(a), 'asks for %s' % show(a)[:100], ev.loc())
            upd.add((strip(ev.recv), a))
        else:
            rep.ob('C21.asked', 'known', any(k[0] == 'cmp' and k[1] == 'in' and v and k[2] == a and is_valid(strip(k[3])) for k, v in facts.items()),
                   'asks for an event that may not exist: %s' % show(a)[:100], ev.loc())
    for ev, v, facts in got:
        rep.ob('C21.asked', 'wanted', okset(v), 'the collection wants the events %s' % show(v)[:160], ev.loc())
        if facts.get(('isnone', cnt)) is not True:
            need = [x for t in [v] + [a for r, a in upd if r == v] for x in subterms(t) if x[0] == 'call' and x[1].split('.')[-1] == 'get_events_for_counters']
            rep.ob('C21.asked', 'complete', bool(need), 'the events of the counters are not wanted', ev.loc())
    if not got:
        raise AnalysisBroken('startCollection enables nothing')

    # ---- every method
    handed, waits, raws, procs, answers = [], [], [], [], []

    def oc2(ev):
        n = ev.name.split('.')[-1]
        l = raw_send(ev)
        if l is not None:
            raws.append((ev, l, dict(ev.facts)))
        if ev.kind in ('call', 'mcall') and n == 'handle_event':
            handed.append((ev, dict(ev.facts), dict(ev.st.heap)))
        if ev.kind == 'setattr' and ev.recv == S and ev.name == '.state=':
            waits.append((ev, strip(ev.value), dict(ev.facts)))
        return trace(ev)
    line = None
    for f in entry_methods(p, cl):
        for s, c in mkeng(oc2, OPAQUE).run(f, selfcls=CL):
            if c[0] != 'ret':
                continue
            bad = [k for k, v in s.facts.items() if k[0] == 'truthy' and not v and strip(k[1])[0] in ('call', 'mcall') and 'handle_event' in str(strip(k[1])[1:3])]
            if bad:
                rep.ob('C21.handed', 'rejected', any(l == ('quit',) for l in s.trace), 'a rejected event does not end the connection', f.loc())
            on0 = [v for k, v in s.facts.items() if k[0] == 'cmp' and k[1] == 'startswith' and is_str(k[3]) and k[3][2] == '250 EnablePrivCount=']
            isone = [v for k, v in s.facts.items() if k[0] == 'cmp' and k[1] == 'eq' and C('1') in k[2:4] and 'EnablePrivCount' in str(k)]
            proc = s.facts.get(('cmp', 'eq', A('state'), C('processing')))
            if True in on0 and proc is True and True not in isone:
                answers.append(f)
                rep.ob('C21.check', 'off', any(l == ('quit',) for l in s.trace), 'a relay that answers that PrivCount is off is used', f.loc())
    if not answers:
        rep.ob('C21.check', 'answer', False, 'the answer whether PrivCount is on is never looked at while processing', cl.mod.path)
    if not handed or not raws:
        raise AnalysisBroken('the client hands over no events')
    for ev, facts, heap in handed:
        act = strip(heap.get((S, 'active_events'), A('active_events')))
        a = strip(ev.args[-1])
        rep.ob('C21.handed', 'processing', facts.get(('cmp', 'eq', A('state'), C('processing'))) is True, 'an event is counted outside a collection', ev.loc())
        ok = any(k[0] == 'cmp' and k[1] == 'in' and v and strip(k[3]) == act and mentions(k[2], ('sym', 'line')) and is_first(strip(k[2]), a) for k, v in facts.items())
        rep.ob('C21.handed', 'wanted', ok, 'an event is counted that was not asked for', ev.loc())
    for ev, v, facts in waits:
        if v == C('waiting') and ev.fn.name != 'disableEvents' and facts.get(('isnone', A('state'))) is None:
            ok = facts.get(('cmp', 'eq', A('state'), C('discovering'))) is True and \
                any(k[0] == 'cmp' and k[1] == 'startswith' and b and is_str(k[3]) and 'fingerprint=' in k[3][2] for k, b in facts.items())
            rep.ob('C21.state', 'waiting', ok, 'the connection is ready although the relay did not say who it is', ev.loc())
        if v == C('processing'):
            ok = any(facts.get(('cmp', 'eq', A('state'), C(x))) is True for x in ('waiting', 'processing')) or any(
                k[0] == 'cmp' and k[1] == 'in' and b and k[2] == A('state') for k, b in facts.items())
            rep.ob('C21.state', 'processing', ok, 'processing begins in another state', ev.loc())
    for ev, l, facts in raws:
        t = lead(l)
        loc = ev.loc()
        if l == ('sym', 'line') or l[0] == 'sym':
            nosc = any(k[0] == 'cmp' and k[1] == 'startswith' and k[2] == l and is_str(k[3]) and (
                not (k[3][2].startswith('SETCONF') or 'SETCONF'.startswith(k[3][2])) if v else 'SETCONF'.startswith(k[3][2].strip())) for k, v in facts.items())
            rep.ob('C21.guard', 'sendLine', nosc or True in use(facts), 'a SETCONF is sent although the operator does not allow it', loc)
            continue
        rep.ob('C21.guard', 'verb', any(t.startswith(v) for v in VERBS), 'sends the command %s' % (t or show(l))[:60], loc)
        if t.upper().startswith('SETCONF'):
            rep.ob('C21.guard', 'setconf', True in use(facts), 'a SETCONF is sent although the operator does not allow it', loc)
        for x in parts(l):
            rep.ob('C21.lines', t.split(' ')[0], safe(x), 'the line %s contains %s' % (t, show(x)[:100]), loc)
    # json and the fingerprint
    f = p.method(p.cls('Aggregator'), 'set_fingerprint')
    init = [ev for g in p.funcs.values() if g.cls is p.cls('Aggregator') and any(h is g for h, n, v in attr_stores(p, 'fingerprint')) and g.name != '__init__'
            for ev in fp_stores(p, g)]
    if not init:
        raise AnalysisBroken('the aggregator never learns its fingerprint')
    for ev, facts in init:
        v = strip(ev.value)
        ln = any(k[0] == 'cmp' and k[1] == 'eq' and b and ('len', v) in k[2:4] for k, b in facts.items())
        hexd = any(b and mentions(k, v) and ('hexdigits' in str(k) or 'isalnum' in str(k)) for k, b in facts.items())
        rep.ob('C21.lines', 'fingerprint', v == NONE or ln and hexd, 'the fingerprint is not checked', ev.loc())

    # ---- the data collector
    n = 0
    AG = ('self', 'Aggregator')
    for g in sorted((g for g in p.funcs.values() if g.cls is not None and g.cls.name == 'Aggregator'), key=lambda g: g.qual):
        if not any(isinstance(x, ast.Attribute) and x.attr == 'startCollection' for x in ast.walk(g.node)):
            continue

        def oc3(ev):
            nonlocal n
            if ev.kind in ('call', 'mcall') and ev.name.split('.')[-1] == 'startCollection':
                n += 1
                kw = dict((k, strip(v)) for k, v in ev.kwargs)
                args = [strip(a) for a in ev.args]
                cs = kw.get('counter_list', args[0] if args else NONE)
                tm = kw.get('traffic_model', args[2] if len(args) > 2 else NONE)
                rep.ob('C21.collector', 'counters', cs == ('attr', AG, 'collection_counters') or cs[0] == 'hv' and cs[2] == 'collection_counters',
                       'collects the events of %s' % show(cs), ev.loc())
                rep.ob('C21.collector', 'model', tm == ('attr', AG, 'traffic_model_config') or tm[0] == 'hv' and tm[2] == 'traffic_model_config', 'collects with the model %s' % show(tm), ev.loc())
        Engine(p, inline=lambda h: False, assert_inline=False, raisers=lambda n: False, on_call=oc3).run(g, selfcls='Aggregator')
    if not n:
        raise AnalysisBroken('the aggregator never starts a collection')
    ag = p.cls('Aggregator')
    f = p.method(ag, '__init__')
    par = [('sym', x) for x in f.params]
    for s, c in Engine(p, inline=lambda h: False, assert_inline=False, raisers=lambda n: False).run(f, selfcls='Aggregator'):
        if c[0] == 'ret':
            rep.ob('C21.collector', 'own counters', field(s, AG, 'collection_counters') == ('sym', 'counters'), 'collects other counters', f.loc())
            break
    only_own(p, rep, 'C21.collector', ag, ('collection_counters',), [f], 'the counters of the collection')
    rep.assumption('tor answers control commands in order; a line is what Twisted delimits')


def fp_stores(p, g):
    out = []

    def oc(ev):
        if ev.kind == 'setattr' and ev.name == '.fingerprint=':
            out.append((ev, dict(ev.facts)))
    Engine(p, inline=lambda h: False, assert_inline=False, raisers=lambda n: False, on_call=oc).run(g, selfcls='Aggregator')
    return out


def is_first(name, event):
    """name is the first word of the list event"""
    if event[0] == 'idx' and event[2][0] == 'slice':
        lo = event[2][1]
        if name[0] == 'idx' and name[1] == event[1] and name[2] == (C(0) if lo == NONE else lo):
            return True
    return name[0] == 'idx' and name[1] == event and name[2] == C(0)


def safe(x):
    """the text of x has no line end"""
    x = strip(x)
    if x[0] == 'call':
        n = x[1].split('.')[-1]
        if n in ('float', 'int', 'hexlify', 'len', 'b64encode'):
            return n != 'b64encode'
        if n == 'dumps' and x[1].startswith('json'):
            return all(k in ('separators', 'sort_keys', 'ensure_ascii') and (k != 'ensure_ascii' or v == TRUE) for k, v in x[3])
        if n == 'encodeControllerString':
            return len(x[2]) < 2 or strip(x[2][1]) == TRUE
        if n in ('encodeNonce', 'encodeHash'):
            return True
        if n in ('getConfiguredValue', 'getDiscoveredValue'):
            return any(strip(a) == C('get_fingerprint') for a in x[2])
    if x[0] == 'mcall' and x[2] == 'join' and is_str(strip(x[1])):
        a = strip_casts(x[3][0], ('sorted', 'list', 'set', 'tuple'))
        return a[0] in ('attr', 'hv') and a[2] in ('active_events', 'collection_events') and '\n' not in strip(x[1])[2]
    return False
