"""C35: what happens after an unexpected failure, by path: every deferred of a node has an errback
that ends the process, the protocol handlers end it after closing the connection, and no handler
that catches everything surrounds code that counts, blinds, adds noise or tallies."""
from ..util import *
from .c29 import KNOWN

NODES = ('node', 'data_collector', 'share_keeper', 'tally_server', 'protocol', 'connection', 'counter', 'crypto', 'log', 'inject', 'statistics_noise', 'traffic_model', 'tagged_event')
STATE = {'SecureCounters', 'CollectionPhase', 'Noise', 'Aggregator', 'DataCollector', 'ShareKeeper'}
COUNTING = {'generate_blinding_shares', 'detach_blinding_shares', 'import_blinding_share', 'generate_noise', 'increment', 'detach_counts', 'tally_counters', 'do_start', 'do_stop',
            'handle_event', 'start_new_collection_phase', 'stop_collection_phase', 'store_data', 'start', 'stop', 'write_results', 'blind', 'set_start_result', 'set_stop_result'}


def last(ev):
    return ev.name.split('.')[-1]


def check(p, rep):
    rep.rule('C35.deferred', 'every background task of a node has an errback that ends the node', 1)
    rep.rule('C35.callback', 'the errback of a failed task ends the process with an error', 1)
    rep.rule('C35.stop', 'ending a node with a code stops its reactor and leaves with exactly that code', 1)
    rep.rule('C35.protocol', 'an exception in a protocol handler closes the connection and then ends the node', 1)
    rep.rule('C35.swallow', 'no handler that catches everything goes on after code that counts, blinds or tallies', 1)
    deferreds(p, rep)
    stopping(p, rep)
    protocol(p, rep)
    swallow(p, rep)
    rep.assumption('twisted calls the errback of a deferred whose task raised, and stops a looping call that did')
    rep.assumption('os._exit and sys.exit end the process')


def deferreds(p, rep):
    """each deferred from LoopingCall.start or deferLater is given errorCallback on every path"""
    n = 0
    for f in sorted(p.funcs.values(), key=lambda f: f.qual):
        if f.mod.name.split('.')[-1] not in NODES:
            continue
        txt = {x.attr for x in ast.walk(f.node) if isinstance(x, ast.Attribute)} | {x.id for x in ast.walk(f.node) if isinstance(x, ast.Name)}
        if not txt & {'deferLater', 'LoopingCall', 'deferToThread', 'callInThread'} and not ('start' in txt and any('LoopingCall' in show_attr(p, a) for a in txt)):
            continue
        made = []

        def oc(ev):
            m = last(ev)
            if ev.kind != 'call':
                return None
            if m in ('deferLater', 'deferToThread') or m == 'start' and ev.recv is not None and loops(p, ev.recv, f):
                if ev.fn is f or ev.fn.qual == f.qual:
                    made.append((strip(ev.value) if ev.value is not None else None, ev.loc()))
                return ('made', ev.loc(), tuple(strip(a) for a in ev.args), m)
            if m in ('addErrback', 'addCallbacks', 'addBoth'):
                cb = ev.args[-1] if m == 'addCallbacks' else ev.args[0] if ev.args else NONE
                return ('err', strip(ev.recv), strip(cb))
        eng = Engine(p, inline=lambda g: g.cls is f.cls and f.cls is not None and sq(g) not in KNOWN and g.name not in ('refresh_config',), on_call=oc, assert_inline=False, raisers=lambda x: False, zero_iter=False, cap=3000)
        try:
            res = eng.run(f, selfcls=f.cls.name if f.cls is not None else None)
        except AnalysisBroken:
            if not made:
                continue
            raise
        for s, c in res:
            mk = [x for x in s.trace if x[0] == 'made']
            er = [x for x in s.trace if x[0] == 'err']
            good = [x for x in er if stops(p, x[2], eng)]
            for x in mk:
                n += 1
                d = [y for y in good if s.trace.index(y) > s.trace.index(x) and of(y[1], x)]
                rep.ob('C35.deferred', sq(f), bool(d), 'a background task of %s has no errback that ends the node' % sq(f), x[1])
    if not n:
        raise AnalysisBroken('no background task found')
    rep.count('paths that start a background task', n)


def show_attr(p, a):
    """what an attribute of that name is ever set to"""
    if not hasattr(p, '_c35'):
        p._c35 = {}
    if a not in p._c35:
        p._c35[a] = ' '.join(ast.dump(v) for f, n, v in attr_stores(p, a) if v is not None)
    return p._c35[a]


def loops(p, recv, f):
    t = strip(recv)
    if 'LoopingCall' in show(t):
        return True
    return t[0] in ('attr', 'hv') and 'LoopingCall' in show_attr(p, t[2])


def of(t, made):
    """is t the deferred of that call, or what a chained call on it gave"""
    for x in subterms(t):
        if x[0] == 'call' and isinstance(x[1], str) and x[1].split('.')[-1] == made[3] and tuple(strip(a) for a in x[2]) == made[2]:
            return True
        if x[0] == 'mcall' and x[2] == made[3] and tuple(strip(a) for a in x[3]) == made[2]:
            return True
    return False


def stops(p, cb, eng):
    """is it a function that ends the process with an error on every path"""
    g = None
    if cb[0] == 'lambda' and cb[1] in eng.lambdas:
        n, owner = eng.lambdas[cb[1]]
        calls = [x for b in (n.body if isinstance(n.body, list) else [n.body]) for x in ast.walk(b) if isinstance(x, ast.Call)]
        return any(r and r[0] == 'func' and stops(p, ('func', r[1].qual), eng) for r in (p.resolve_dotted(x.func, owner.mod) for x in calls)) and \
            not any(isinstance(x, (ast.If, ast.IfExp, ast.BoolOp, ast.Try)) for x in ast.walk(n))
    if cb[0] in ('func', 'bound'):
        g = p.funcs.get(cb[-1]) or p.fn(cb[-1])
    if g is None:
        return False
    return sq(g) == 'log.errorCallback' or g.name == 'errorCallback' or ends(p, g) is True


ENGARGS = dict(assert_inline=False, raisers=lambda x: False)


def ends(p, f, args=None):
    """True if every path of f calls stop_reactor with a code from 1"""
    def oc(ev):
        if ev.kind == 'call' and last(ev) == 'stop_reactor':
            code = ev.args[0] if ev.args else dict(ev.kwargs).get('exit_code', C(0))
            return ('S', strip(code))
        if ev.kind == 'call' and ev.name in ('os._exit', 'sys.exit'):
            return ('S', strip(ev.args[0]) if ev.args else C(0))
    eng = Engine(p, inline=lambda g: g.mod is f.mod and g.name not in ('stop_reactor', 'log_error'), on_call=oc, **ENGARGS)
    res = eng.run(f, args=args)
    return bool(res) and all(any(x[0] == 'S' and x[1][0] == 'c' and isinstance(x[1][2], int) and 1 <= x[1][2] <= 127 for x in s.trace) for s, c in res)


def stopping(p, rep):
    f = p.fn('privcount.log.errorCallback')
    g = p.fn('privcount.log.stop_reactor')
    if f is None or g is None:
        raise AnalysisBroken('anchor vanished: log.errorCallback or log.stop_reactor')
    rep.ob('C35.callback', 'errorCallback', ends(p, f), 'a failed task does not end the process with an error', f.loc())

    def oc(ev):
        if ev.kind == 'call' and ev.name in ('os._exit', 'sys.exit', 'os.abort'):
            return ('X', ev.name, strip(ev.args[0]) if ev.args else C(0), tuple(sorted(ev.facts.items(), key=repr)), ev.loc())
        if ev.kind == 'call' and last(ev) == 'stop' and 'reactor' in ev.name + show(ev.recv or NONE):
            return ('R',)
    code = g.params[0]
    for val in (C(1), C(2), C(127)):
        for s, c in Engine(p, inline=lambda h: h.mod is g.mod and h is not g, on_call=oc, **ENGARGS).run(g, args={code: val}):
            xs = [x for x in s.trace if x[0] == 'X']
            rep.ob('C35.stop', 'exits', bool(xs) and xs[0][2] == val, 'ending with code %s leaves with %s' % (show(val), show(xs[0][2]) if xs else 'nothing'), g.loc())
            rep.ob('C35.stop', 'reactor', any(x[0] == 'R' for x in s.trace), 'ending a node does not stop its reactor', g.loc())
    for s, c in Engine(p, inline=lambda h: h.mod is g.mod and h is not g, on_call=oc, **ENGARGS).run(g, args={code: NONE}):
        rep.ob('C35.stop', 'none', not any(x[0] == 'X' for x in s.trace) and any(x[0] == 'R' for x in s.trace), 'stopping without a code ends the process', g.loc())
    d = g.node.args.defaults
    rep.ob('C35.stop', 'default', bool(d), 'ending a node has no default code', g.loc())


def protocol(p, rep):
    cls = p.cls('PrivCountProtocol')
    f = p.method(cls, 'process_event')
    if f is None:
        raise AnalysisBroken('anchor vanished: PrivCountProtocol.process_event')

    def oc(ev):
        if ev.kind == 'handler':
            return ('H',)
        if ev.kind == 'call' and last(ev) in ('protocol_failed', 'protocol_succeeded'):
            return ('F', last(ev))
        if ev.kind == 'call' and last(ev) == 'stop_reactor':
            return ('S', strip(ev.args[0]) if ev.args else C(0))
    n = 0
    res = Engine(p, inline=lambda g: g.cls in p.mro(cls) and sq(g) not in KNOWN, on_call=oc, assert_inline=False, all_raise=False).run(f, selfcls='PrivCountServerProtocol')
    for s, c in res:
        tr = s.trace
        if not any(x[0] == 'H' for x in tr):
            continue
        n += 1
        i = [x[0] for x in tr].index('H')
        after = tr[i:]
        rep.ob('C35.protocol', 'ends', any(x[0] == 'S' and x[1][0] == 'c' and isinstance(x[1][2], int) and x[1][2] > 0 for x in after), 'an exception in a protocol handler does not end the node', f.loc())
        kinds = [x[0] for x in after]
        rep.ob('C35.protocol', 'closes', 'F' in kinds and kinds.index('F') < (kinds.index('S') if 'S' in kinds else 99) or after.count(('H',)) > 1, 'an exception in a protocol handler leaves the connection open', f.loc())
    for s, c in res:
        if c[0] == 'exc':
            rep.ob('C35.protocol', 'escapes', any(x[0] == 'S' for x in s.trace) or not any(x[0] == 'H' for x in s.trace) and False, 'an exception of a protocol handler is not handled', f.loc())
    if not n:
        rep.ob('C35.protocol', 'ends', False, 'an exception in a protocol handler is not handled', f.loc())


def swallow(p, rep):
    reach = {}

    def counts(f, seen=()):
        """does f reach code that counts"""
        if f.qual in reach:
            return reach[f.qual]
        if f.name in COUNTING and f.cls is not None and not f.name.startswith('get_'):
            return f
        if f in seen:
            return None
        r = None
        for nd, k, t in p.calls(f):
            if k == 'func':
                r = r or counts(t, seen + (f,))
        reach[f.qual] = r
        return r
    n = 0
    for f in sorted(p.funcs.values(), key=lambda f: f.qual):
        if f.mod.name.split('.')[-1] not in NODES + ('match',):
            continue
        for t in ast.walk(f.node):
            if not isinstance(t, ast.Try):
                continue
            for h in t.handlers:
                names = {x.id for x in ast.walk(h.type) if isinstance(x, ast.Name)} | {x.attr for x in ast.walk(h.type) if isinstance(x, ast.Attribute)} if h.type is not None else {'BaseException'}
                if not names & {'Exception', 'BaseException', 'StandardError'}:
                    continue
                n += 1
                leaves = any(isinstance(x, ast.Raise) for x in ast.walk(ast.Module(body=h.body, type_ignores=[]))) or \
                    any(isinstance(x, ast.Call) and (isinstance(x.func, ast.Name) and x.func.id in ('stop_reactor', 'errorCallback') or isinstance(x.func, ast.Attribute) and x.func.attr in ('_exit', 'exit', 'stop_reactor')) for b in h.body for x in ast.walk(b))
                if leaves:
                    rep.ob('C35.swallow', sq(f), True)
                    continue
                inner = {id(x) for b in t.body for x in ast.walk(b)}
                hit = None
                for nd, k, g in p.calls(f):
                    if id(nd) in inner:
                        if k == 'func' and counts(g):
                            hit = counts(g)
                        elif k != 'func':
                            nm = nd.func.attr if isinstance(getattr(nd, 'func', None), ast.Attribute) else None
                            if nm in COUNTING and nm not in ('start', 'stop'):
                                hit = nm
                rep.ob('C35.swallow', sq(f), hit is None, '%s goes on after any failure of %s' % (sq(f), getattr(hit, 'name', hit)), f.loc(h))
    rep.count('handlers that catch everything', n)
    rep.ob('C35.swallow', 'looked', True)
    rep.ob('C35.swallow', 'functions', True)
