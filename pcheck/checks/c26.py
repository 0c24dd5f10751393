"""C26: every path of the message handlers of both ends of the protocol (own methods inlined),
with the calls to the node, the lines that are sent and the conditions of the path.  A command is
handed to the node as it was sent and answered by what the node returned; an answer is handed to
the tally server with the name of the client of the connection; after a status exactly one command
is chosen, in the order stop, start, check in."""
from ..util import *

BASE, SERVER, CLIENT, TS = 'PrivCountProtocol', 'PrivCountServerProtocol', 'PrivCountClientProtocol', 'TallyServer'
HANDLERS = {'STATUS': 'handle_status_event', 'START': 'handle_start_event', 'STOP': 'handle_stop_event', 'CHECKIN': 'handle_checkin_event'}


class Path(object):
    def __init__(self, s, c):
        self.facts, self.ret, self.s = s.facts, strip(c[1]), s
        self.calls = [x[1:] for x in s.trace if x[0] == 'F']
        self.sent = [x[1] for x in s.trace if x[0] == 'S']
        self.trace = s.trace

    def named(self, *names):
        return [x for x in self.calls if x[0] in names]

    def none(self, t):
        """is t None on this path? (None if open)"""
        t = strip(t)
        if t == NONE:
            return True
        if is_const(t) or t[0] in ('obj', 'dict', 'list'):
            return False
        v = self.facts.get(('isnone', t))
        if v is None and self.facts.get(('truthy', t)):
            return False
        return v


def paths(p, cn, m, extra=(), roots=None):
    cls = p.cls(cn)
    f = p.method(cls, m)
    if f is None:
        raise AnalysisBroken('anchor vanished: %s.%s' % (cn, m))
    base = set(p.mro(cls))
    out = []

    def factory(t):
        t = strip(t) if t is not None else None
        return t is not None and t[0] in ('attr', 'hv') and t[1] == ('self', cn) and t[2] == 'factory'

    def oc(ev):
        n = ev.name.split('.')[-1]
        loc = ev.loc()
        if ev.kind == 'call' and n == 'sendLine' and ev.args:
            return ('S', tuple(pieces(ev.args[-1])), loc)
        if ev.kind == 'call' and ev.recv is not None and factory(ev.recv):
            return ('F', n, tuple(strip(a) for a in ev.args), loc)
        if ev.kind == 'call' and (n in ('protocol_succeeded', 'protocol_failed') or n in extra):
            return ('F', n, tuple(strip(a) for a in ev.args), loc)
        if ev.kind == 'setattr' and ev.name == '.client_uid=':
            return ('F', 'client_uid=', tuple(strip(a) for a in ev.args), loc)

    def inline(g):
        return g.cls in base and g.name not in ('protocol_succeeded', 'protocol_failed', 'sendLine') and g.name not in extra
    eng = Engine(p, inline=inline, assert_inline=False, raisers=lambda n: False, on_call=oc, zero_iter=False)
    for s, c in eng.run(f, selfcls=cn):
        if c[0] == 'ret':
            out.append(Path(s, c))
    if not out:
        raise AnalysisBroken('%s.%s never returns' % (cn, m))
    return f, out


def first(t, pay):
    """t is the first word of the payload"""
    t = strip(t)
    if t[0] == 'idx' and t[2] == C(0):
        b = strip(t[1])
        if b[0] == 'mcall' and b[1] == pay and b[2] in ('split', 'partition'):
            return b[2] == 'split' and (not b[3] or b[3][0] in (C(' '), NONE)) or b[2] == 'partition' and b[3] == (C(' '),)
    return False


def rest(t, pay):
    """t is all that follows the first space of the payload"""
    t = strip(t)
    if t[0] == 'idx':
        b = strip(t[1])
        if b[0] == 'mcall' and b[1] == pay:
            return b[2] == 'split' and b[3] == (C(' '), C(1)) and t[2] in (C(1), C(-1)) or b[2] == 'partition' and b[3] == (C(' '),) and t[2] in (C(2), C(-1))
    return False


def loads(t):
    t = strip(t)
    return strip(t[2][0]) if t[0] == 'call' and t[1].split('.')[-1] == 'loads' and len(t[2]) == 1 and len(t) < 4 or t[0] == 'call' and t[1].split('.')[-1] == 'loads' and len(t[2]) == 1 and not t[3] else None


def dumps(t):
    t = strip(t)
    return strip(t[2][0]) if t[0] == 'call' and t[1].split('.')[-1] in ('json_serialise', 'dumps') and len(t[2]) == 1 else None


def success(pa, pay):
    """the payload is the word SUCCESS with data: True, False or None if open"""
    word = data = None
    for k, v in pa.facts.items():
        if k[0] != 'cmp':
            continue
        if k[1] == 'eq' and any(first(k[i], pay) and k[5 - i] == C('SUCCESS') for i in (2, 3)):
            word = v
        if k[1] == 'startswith' and k[2] == pay and k[3] == C('SUCCESS '):
            word = data = v
    data = data if data is not None else several(pa, pay)
    if word is False or data is False:
        return False
    return True if word and data else None


def several(pa, pay):
    """the payload has more than one word"""
    for k, v in pa.facts.items():
        if k[0] == 'cmp' and k[1] == 'in' and k[2] == C(' ') and k[3] == pay:
            return v
        if k[0] == 'cmp' and k[1] == 'eq' and any(k[i][0] == 'len' and split1(k[i][1], pay) and k[5 - i] == C(2) for i in (2, 3)):
            return v
        if k[0] == 'cmp' and k[1] == 'lt' and k[2][0] == 'len' and split1(k[2][1], pay) and k[3] == C(2):
            return not v
        if k[0] == 'cmp' and k[1] == 'lt' and k[3][0] == 'len' and split1(k[3][1], pay) and k[2] == C(1):
            return v
        if k[0] == 'truthy' and (sep(k[1], pay) or rest(k[1], pay) and 'partition' in str(k[1])):
            return v
        if k[0] == 'cmp' and k[1] == 'eq' and any(sep(k[i], pay) and k[5 - i] in (C(''), C(' ')) for i in (2, 3)):
            return v == (C(' ') in k)
    return None


def sep(t, pay):
    t = strip(t)
    return t[0] == 'idx' and t[2] == C(1) and t[1][0] == 'mcall' and t[1][1] == pay and t[1][2] == 'partition'


def split1(t, pay):
    t = strip(t)
    return t[0] == 'mcall' and t[1] == pay and t[2] == 'split' and t[3] == (C(' '), C(1))


def other_verb(pa, typ, verb):
    return any(k[0] == 'cmp' and k[1] == 'eq' and typ in k[2:] and C(verb) in k[2:] and v is False for k, v in pa.facts.items())


def is_time(t):
    t = strip_casts(t)
    return t[0] == 'call' and t[1].split('.')[-1] == 'time'


def text(ps):
    return ''.join(x if isinstance(x, str) else '<%s>' % show(x)[:60] for x in ps)


def check(p, rep):
    rep.rule('C26.command', 'a client hands each start or stop command to its node whole and once, and answers with what the node returned, or FAIL exactly if it returned None', 4)
    rep.rule('C26.status', 'a status is answered by the status of the node, and the status that was sent reaches the other node whole', 2)
    rep.rule('C26.result', 'the tally server is given each answer once, with the client of the connection, and the data only if it was a success', 4)
    rep.rule('C26.next', 'after each status exactly one command is sent: stop if one is due, else start if one is due, else check in', 3)
    rep.rule('C26.uid', 'the client of a connection is the one that its last status named', 2)
    rep.rule('C26.checkin', 'a client that is told to check in replaces its old check in task by one with the given period, and confirms', 1)
    rep.rule('C26.dispatch', 'each message goes to the handler of its kind, whole, and one that is not handled ends the connection', 4)
    rep.rule('C26.phase', 'the tally server passes answers to, and takes commands from, the running round', 4)
    rep.rule('C26.line', 'a message is one line, sent as it was made', 1)
    n = 0

    # ---- client: commands
    for verb, do in (('START', 'do_start'), ('STOP', 'do_stop')):
        f, ps = paths(p, CLIENT, HANDLERS[verb])
        typ, pay = (('sym', x) for x in f.params[1:3])
        n += len(ps)
        for pa in ps:
            if not pa.calls and not pa.sent:
                rep.ob('C26.command', verb + ' ignored', is_const(pa.ret) and not pa.ret[2] and other_verb(pa, typ, verb), 'a %s command is not carried out' % verb, f.loc())
                continue
            d = pa.named(do)
            ok = len(d) == 1 and len(pa.named('do_start', 'do_stop')) == 1 and len(d[0][1]) == 1 and loads(d[0][1][0]) == pay
            rep.ob('C26.command', verb + ' node', ok, 'a %s command reaches the node as %s' % (verb, '; '.join('%s(%s)' % (x[0], ', '.join(show(a) for a in x[1])) for x in pa.calls) or 'nothing'), f.loc())
            if not ok:
                continue
            res = [y for x in pa.s.trace if x[0] == 'F' and x[1] == do for y in [('mcall', ('attr', ('self', CLIENT), 'factory'), do, x[2])]]
            good = len(pa.sent) == 1
            if good:
                s = pa.sent[0]
                if s == (verb + ' FAIL',):
                    good = any(k[0] == 'isnone' and v and of(k[1], do) for k, v in pa.facts.items())
                else:
                    good = len(s) == 2 and s[0] == verb + ' SUCCESS ' and dumps(s[1]) is not None and of(dumps(s[1]), do) and pa.none(dumps(s[1])) is False
            rep.ob('C26.command', verb + ' answer', good, 'a %s command is answered by %s%s' % (verb, ' and '.join(text(s) for s in pa.sent) or 'nothing', ' although the node may have answered otherwise'), f.loc())
            rep.ob('C26.command', verb + ' done', is_const(pa.ret) and bool(pa.ret[2]), 'a %s command that was carried out ends the connection' % verb, f.loc())

    # ---- both: status
    f, ps = paths(p, CLIENT, HANDLERS['STATUS'])
    typ, pay = (('sym', x) for x in f.params[1:3])
    n += len(ps)
    for pa in ps:
        if not pa.sent:
            rep.ob('C26.status', 'client ignored', is_const(pa.ret) and not pa.ret[2] and (other_verb(pa, typ, 'STATUS') or several(pa, pay) is False), 'a status is not answered', f.loc())
            continue
        d = pa.named('set_server_status')
        rep.ob('C26.status', 'client node', len(d) == 1 and len(d[0][1]) == 1 and loads(d[0][1][0]) is not None and rest(loads(d[0][1][0]), pay), 'the status of the server reaches the node as %s' % [show(x[1][0]) for x in d if x[1]], f.loc())
        rep.ob('C26.status', 'client answer', len(pa.sent) == 1 and status_line(pa.sent[0]), 'a status is answered by %s' % ' and '.join(text(s) for s in pa.sent), f.loc())
        rep.ob('C26.status', 'client done', is_const(pa.ret) and bool(pa.ret[2]), 'a status that was answered ends the connection', f.loc())
    f, ps = paths(p, SERVER, 'handshake_succeeded')
    for pa in ps:
        rep.ob('C26.status', 'server begins', len(pa.sent) == 1 and status_line(pa.sent[0]), 'a client that proved itself is sent %s' % (' and '.join(text(s) for s in pa.sent) or 'nothing'), f.loc())

    # ---- server: next command
    f, ps = paths(p, SERVER, HANDLERS['STATUS'])
    typ, pay = (('sym', x) for x in f.params[1:3])
    n += len(ps)
    UID = ('attr', ('self', SERVER), 'client_uid')
    for pa in ps:
        if not pa.sent:
            rep.ob('C26.next', 'ignored', is_const(pa.ret) and not pa.ret[2] and (other_verb(pa, typ, 'STATUS') or several(pa, pay) is False), 'a status is not answered by a command', f.loc())
            continue
        d = pa.named('set_client_status')
        st = d[0][1][-1] if d and d[0][1] else None
        ok = len(d) == 1 and len(d[0][1]) == 2 and loads(st) is not None and rest(loads(st), pay)
        rep.ob('C26.status', 'server node', ok, 'the status of a client reaches the tally server as %s' % [show(y) for x in d for y in x[1]], f.loc())
        if not ok:
            continue
        name = ('idx', strip(st), C('name'))
        rep.ob('C26.uid', 'status', d[0][1][0] == name, 'a status is recorded for %s' % show(d[0][1][0]), f.loc())
        u = [x for x in pa.calls if x[0] == 'client_uid=']
        rep.ob('C26.uid', 'connection', bool(u) and u[-1][1][0] == name, 'the client of the connection is set to %s' % [show(x[1][0]) for x in u], f.loc())
        for c in pa.named('get_stop_config', 'get_start_config'):
            rep.ob('C26.uid', c[0], c[1] == (name,), '%s is asked about %s' % (c[0], [show(y) for y in c[1]]), f.loc())
        names = [x[0] for x in pa.calls]
        rep.ob('C26.next', 'order', names.index('set_client_status') < min([i for i, x in enumerate(names) if x in ('get_stop_config', 'get_start_config')] or [-1]), 'a command is chosen before the status is recorded', f.loc())
        stop = tri(pa, 'get_stop_config')
        start = tri(pa, 'get_start_config')
        good = len(pa.sent) == 1
        if good:
            s = pa.sent[0]
            v = s[0] if s and isinstance(s[0], str) else ''
            arg = s[1] if len(s) == 2 else None
            if v == 'STOP ':
                good = stop is False and arg is not None and dumps(arg) is not None and of(dumps(arg), 'get_stop_config')
            elif v == 'START ':
                good = stop is True and start is False and arg is not None and dumps(arg) is not None and of(dumps(arg), 'get_start_config')
            elif v == 'CHECKIN ':
                good = stop is True and start is True and arg is not None and of(strip_casts(arg), 'get_checkin_period')
            else:
                good = False
        rep.ob('C26.next', 'command', good, 'a status is followed by %s where %s' % (' and '.join(text(s) for s in pa.sent), ', '.join('%s is %s' % (a, {True: 'not due', False: 'due', None: 'open'}[b]) for a, b in (('a stop', stop), ('a start', start)))), f.loc())
        rep.ob('C26.next', 'done', is_const(pa.ret) and bool(pa.ret[2]), 'a client that was sent a command is disconnected', f.loc())

    # ---- server: results
    for verb, put in (('START', 'set_start_result'), ('STOP', 'set_stop_result')):
        f, ps = paths(p, SERVER, HANDLERS[verb])
        typ, pay = (('sym', x) for x in f.params[1:3])
        n += len(ps)
        for pa in ps:
            d = pa.named('set_start_result', 'set_stop_result')
            if not d:
                empty = any(k[0] == 'cmp' and k[1] == 'lt' and k[2] == C(0) and k[3][0] == 'len' and v is False or k[0] == 'truthy' and split1(k[1], pay) and v is False for k, v in pa.facts.items())
                rep.ob('C26.result', verb + ' ignored', is_const(pa.ret) and not pa.ret[2] and (other_verb(pa, typ, verb) or empty), 'an answer to a %s command is not handed on' % verb, f.loc())
                continue
            ok = len(d) == 1 and d[0][0] == put and len(d[0][1]) == 2 and d[0][1][0] == UID
            rep.ob('C26.result', verb + ' once', ok, 'an answer to a %s command is handed on as %s' % (verb, '; '.join('%s(%s)' % (x[0], ', '.join(show(a) for a in x[1])) for x in d)), f.loc())
            if not ok:
                continue
            v = d[0][1][1]
            su = success(pa, pay)
            if v == NONE:
                good = su is False
            else:
                good = su is True and loads(v) is not None and whole(loads(v), pay)
            rep.ob('C26.result', verb + ' data', good, 'the data of an answer to a %s command is %s where it %s' % (verb, show(v), {True: 'was a success', False: 'was no success', None: 'may be a success or not'}[su]), f.loc())
            rep.ob('C26.result', verb + ' goes on', len(pa.sent) == 1 and status_line(pa.sent[0]) and is_const(pa.ret) and bool(pa.ret[2]), 'after an answer to a %s command, the client is sent %s' % (verb, ' and '.join(text(s) for s in pa.sent) or 'nothing'), f.loc())

    # ---- owner of the client name
    h = p.method(p.cls(SERVER), HANDLERS['STATUS'])
    init = [p.method(p.cls(SERVER), m) for m in ('__init__', 'clear')]
    only_own(p, rep, 'C26.uid', p.cls(SERVER), ('client_uid',), [h] + [g for g in init if g], 'the client of the connection')
    for g in init:
        for hh, nd, v in attr_stores(p, 'client_uid'):
            if hh is g:
                rep.ob('C26.uid', 'initial', v is not None and (isinstance(v, ast.Constant) and v.value is None or isinstance(v, ast.Name) and v.id == 'None'), 'a connection begins with a client', g.loc(nd))

    # ---- client: check in
    f, ps = paths(p, CLIENT, HANDLERS['CHECKIN'], extra=('LoopingCall', 'start', 'stop'))
    typ, pay = (('sym', x) for x in f.params[1:3])
    n += len(ps)
    some = False
    for pa in ps:
        if not pa.sent:
            rep.ob('C26.checkin', 'ignored', is_const(pa.ret) and not pa.ret[2] and not pa.named('set_checkin_task', 'LoopingCall'), 'a check in command is accepted without an answer', f.loc())
            continue
        some = True
        names = [x[0] for x in pa.calls]
        lc = pa.named('LoopingCall')
        st = [x for x in pa.calls if x[0] == 'start']
        sets = pa.named('set_checkin_task')
        ok = len(lc) == 1 and len(lc[0][1]) == 1 and 'do_checkin' in str(lc[0][1][0]) and len(st) == 1
        rep.ob('C26.checkin', 'task', ok, 'the check in task is made by %s and started %d times' % ([show(y) for x in lc for y in x[1]], len(st)), f.loc())
        per = st[0][1][0] if st and st[0][1] else None
        rep.ob('C26.checkin', 'period', per is not None and mentions(per, pay), 'the check in task is started with period %s' % (per and show(per)), f.loc())
        rep.ob('C26.checkin', 'kept', bool(sets) and bool(sets[-1][1]) and 'LoopingCall' in str(sets[-1][1][0]), 'the check in task is not kept', f.loc())
        old = [k for k, v in pa.facts.items() if 'get_checkin_task' in str(k) and v and (k[0] == 'truthy' and 'running' in str(k))]
        rep.ob('C26.checkin', 'replaced', not old or 'stop' in names and names.index('stop') < names.index('start'), 'the old check in task goes on beside the new one', f.loc())
        rep.ob('C26.checkin', 'answer', pa.sent == [('CHECKIN SUCCESS',)] and 'protocol_succeeded' in names and is_const(pa.ret) and bool(pa.ret[2]), 'a check in is answered by %s' % ' and '.join(text(s) for s in pa.sent), f.loc())
    rep.ob('C26.checkin', 'accepted', some, 'no check in command is accepted', f.loc())
    f, ps = paths(p, SERVER, HANDLERS['CHECKIN'])
    for pa in ps:
        rep.ob('C26.checkin', 'server', not pa.sent and is_const(pa.ret) and (not pa.ret[2] or bool(pa.named('protocol_succeeded'))), 'the answer to a check in is followed by %s' % ' and '.join(text(s) for s in pa.sent), f.loc())

    # ---- dispatch
    f, ps = paths(p, BASE, 'process_event', extra=tuple(HANDLERS.values()) + ('handle_handshake_event',))
    typ, pay = (('sym', x) for x in f.params[1:3])
    n += len(ps)
    seen = set()
    for pa in ps:
        d = pa.named(*HANDLERS.values())
        for c in d:
            verb = [v for v, m in HANDLERS.items() if m == c[0]][0]
            pos = [k for k, v in pa.facts.items() if k[0] == 'cmp' and k[1] in ('startswith', 'eq') and typ in k[2:] and C(verb) in k[2:] and v]
            seen.add(verb)
            rep.ob('C26.dispatch', verb, bool(pos) and c[1] == (typ, pay) and len(d) == 1, 'the handler of %s is given %s' % (verb, [show(x) for x in c[1]]), f.loc())
        if not d and any(k[0] == 'cmp' and k[1] in ('startswith', 'eq') and typ in k[2:] and k[3] in [C(v) for v in HANDLERS] and v for k, v in pa.facts.items()):
            rep.ob('C26.dispatch', 'dropped', False, 'a message of a known kind is given to no handler', f.loc())
        if d and not pa.named('protocol_failed'):
            rep.ob('C26.dispatch', 'refused', any(k[0] == 'truthy' and v and of(k[1], d[0][0]) for k, v in pa.facts.items()), 'a message that its handler refuses does not end the connection', f.loc())
    for v in HANDLERS:
        rep.ob('C26.dispatch', 'known ' + v, v in seen, 'no path handles %s' % v, f.loc())

    # ---- tally server and its round
    PH = ('attr', ('self', TS), 'collection_phase')
    for m, starting in (('set_start_result', True), ('set_stop_result', False), ('get_start_config', None), ('get_stop_config', None)):
        g = p.method(p.cls(TS), m)
        if g is None:
            raise AnalysisBroken('anchor vanished: %s.%s' % (TS, m))
        base = set(p.mro(p.cls(TS)))

        def oc(ev):
            nm = ev.name.split('.')[-1]
            if ev.kind == 'call' and nm in ('store_data', m):
                return ('P', nm, ev.recv and strip(ev.recv), tuple(strip(a) for a in ev.args), tuple((k, strip(v)) for k, v in ev.kwargs), ev.bound and tuple(sorted((k, strip(v)) for k, v in ev.bound.items() if isinstance(k, str) and isinstance(v, tuple))))
        eng = Engine(p, inline=lambda x: x.cls in base and x is not g, assert_inline=False, raisers=lambda x: False, on_call=oc)
        uid = ('sym', g.params[1])
        for s, c in eng.run(g, selfcls=TS):
            if c[0] != 'ret':
                continue
            n += 1
            pa = Path(s, c)
            run = pa.none(PH)
            cl = [x for x in s.trace if x[0] == 'P']
            if run is True:
                rep.ob('C26.phase', m + ' idle', not cl, 'a round is used where none is running', g.loc())
                if m == 'get_stop_config':
                    act = [v for k, v in s.facts.items() if k[0] == 'cmp' and k[1] == 'eq' and C('active') in k[2:] and mentions(k, uid)]
                    if pa.ret == NONE:
                        rep.ob('C26.phase', m + ' stale', not (act and act[0]), 'a client that is active without a round is not stopped', g.loc())
                    else:
                        sc = strip(s.heap.get((pa.ret, '[]', C('send_counters')), NONE)) if pa.ret[0] == 'obj' else NONE
                        rep.ob('C26.phase', m + ' stale', bool(act) and act[0] and (sc == C(False) or "send_counters" in str(pa.ret) and 'False' in str(pa.ret)), 'without a round, a client is sent %s' % show(pa.ret), g.loc())
                elif starting is None:
                    rep.ob('C26.phase', m + ' none', pa.ret == NONE, 'without a round, a client is sent %s' % show(pa.ret), g.loc())
            elif run is False:
                if starting is None:
                    rep.ob('C26.phase', m, len(cl) == 1 and cl[0][3][-1:] == (uid,) and of(pa.ret, m), 'a client is sent %s' % show(pa.ret), g.loc())
                else:
                    data = ('sym', g.params[2])
                    a, kw = (cl[0][3], dict(cl[0][4])) if len(cl) == 1 else ((), {})
                    a = a[-3:] if len(a) > 2 and a[0] != uid else a
                    fl = kw.get('is_start', a[2] if len(a) > 2 else NONE)
                    got = [kw.get('client_uid', a[0] if a else NONE), kw.get('data', a[1] if len(a) > 1 else NONE)]
                    rep.ob('C26.phase', m, len(cl) == 1 and got == [uid, data] and fl == C(starting), 'an answer is stored as %s' % [show(x) for x in a + tuple(kw.values())], g.loc())
            else:
                rep.ob('C26.phase', m + ' open', not cl, 'a round is used where none may be running', g.loc())

    # ---- lines
    g = p.method(p.cls(BASE), 'sendLine')
    if g is None:
        raise AnalysisBroken('anchor vanished: %s.sendLine' % BASE)

    def oc(ev):
        if ev.kind == 'call' and ev.name.split('.')[-1] == 'sendLine' and ev.func is None:
            return ('L', tuple(strip(a) for a in ev.args))
    eng = Engine(p, inline=lambda x: False, assert_inline=False, raisers=lambda x: False, on_call=oc)
    line = ('sym', g.params[1])
    for s, c in eng.run(g, selfcls=BASE):
        if c[0] == 'ret':
            l = [x for x in s.trace if x[0] == 'L']
            rep.ob('C26.line', 'sent', len(l) == 1 and l[0][1][-1] == line, 'a line is sent as %s' % [show(y) for x in l for y in x[1]], g.loc())
    js = [h for h in p.funcs.values() if sq(h) == 'crypto.json_serialise']
    if js:
        h = js[0]
        eng = Engine(p, inline=lambda x: False, assert_inline=False, raisers=lambda x: False)
        for s, c in eng.run(h):
            if c[0] == 'ret':
                t = strip(c[1])
                kw = dict(t[3]) if t[0] == 'call' and len(t) > 3 else {}
                rep.ob('C26.line', 'json', t[0] == 'call' and t[1].split('.')[-1] == 'dumps' and t[2][:1] == (('sym', h.params[0]),) and not set(kw) & {'indent', 'ensure_ascii', 'default', 'cls', 'skipkeys'}, 'a message is written as %s' % show(t), h.loc())
    else:
        raise AnalysisBroken('anchor vanished: crypto.json_serialise')
    rep.count('paths of the message handlers', n)
    rep.assumption('json.loads returns what json.dumps was given (dictionaries with text keys, lists, numbers, text, None); twisted delivers lines whole and in order')


def of(t, name):
    t = strip(t)
    return t[0] in ('mcall', 'call') and (t[2] if t[0] == 'mcall' else t[1].split('.')[-1]) == name


def tri(pa, name):
    """the answer of that question is None on this path (None if open)"""
    for k, v in pa.facts.items():
        if k[0] == 'isnone' and of(k[1], name):
            return v
    return None


def whole(t, pay):
    t = strip(t)
    return rest(t, pay) or t[0] == 'idx' and t[1] == pay and t[2][0] == 'slice' and t[2][1] == C(len('SUCCESS ')) and all(x in (None, NONE) for x in t[2][2:])


def status_line(s):
    return len(s) == 4 and s[0] == 'STATUS ' and is_time(s[1]) and s[2] == ' ' and dumps(s[3]) is not None and of(dumps(s[3]), 'get_status')
