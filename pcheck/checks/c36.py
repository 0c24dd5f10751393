"""C36: every call that opens a connection or a listener, with its address and port as terms over
the configuration, on every path that reaches it; and every path on which a connection
configuration is called valid."""
from ..util import *
from .c29 import KNOWN

OPENERS = {'connectTCP', 'connectSSL', 'connectUNIX', 'listenTCP', 'listenSSL', 'listenUNIX', 'connectUDP', 'listenUDP', 'listenMulticast', 'create_connection', 'urlopen', 'Popen',
           'spawnProcess', 'startTLS', 'adoptStreamConnection', 'adoptStreamPort'}
NET = ('socket.', 'urllib', 'urllib2.', 'httplib.', 'requests.', 'smtplib.', 'ftplib.', 'telnetlib.', 'twisted.internet.endpoints', 'twisted.web')
LOOPBACK = {4: '127.0.0.1', 6: '::1'}
TLS = {'connectSSL', 'listenSSL'}


def last(ev):
    return ev.name.split('.')[-1]


def opener(ev):
    return ev.kind == 'call' and last(ev) in OPENERS


def given(F, key, item):
    v = F.get(('cmp', 'in', C(key), item))
    if v is None:
        for a, pol in F.items():
            if a[0] in ('isnone', 'truthy') and at(a[1]) == ('idx', item, C(key)) and strip(a[1])[0] == 'mcall':
                return pol is (a[0] == 'truthy')
    return v


def at(t):
    """x.get(k) is x[k], where it is there"""
    t = strip(t)
    if t[0] == 'mcall' and t[2] == 'get' and t[3] and (len(t[3]) == 1 or t[3][1] == NONE) and not t[4]:
        return ('idx', strip(t[1]), strip(t[3][0]))
    return t


def plain(facts):
    """the facts, with those about x.get(k) said of x[k] too"""
    F = dict(facts)
    for a, v in facts.items():
        b = a
        for x in subterms(a):
            if x[0] == 'mcall' and at(x) != x:
                b = subst(b, x, at(x))
        if b != a:
            F.setdefault(b, v)
    return F


def check(p, rep):
    rep.rule('C36.item', 'each connection goes to the address and port, or socket, of one valid item of its configuration, or to this machine', 2)
    rep.rule('C36.each', 'every valid item is connected to or listened on', 1)
    rep.rule('C36.default', 'the address used when none is configured is this machine', 2)
    rep.rule('C36.valid', 'a connection configuration is called valid only if each of its items is', 2)
    rep.rule('C36.server', 'a client connects to its tally server by TLS at the configured address, and a tally server listens by TLS with its own key', 1)
    rep.rule('C36.tor', 'a data collector takes events only from its configured event source', 1)
    rep.rule('C36.only', 'nothing else opens a connection', 1)
    rep.rule('C36.close', 'closing closes every connection of the list', 1)
    items(p, rep)
    defaults(p, rep)
    valid(p, rep)
    servers(p, rep)
    only(p, rep)
    closing(p, rep)
    rep.assumption('twisted connects to and listens on the address that it is given')


def conn(p, name):
    f = p.funcs.get('privcount.connection.' + name) or p.fn('privcount.connection.' + name)
    if f is None:
        raise AnalysisBroken('anchor vanished: connection.' + name)
    return f


def engine(p, keep, **k):
    m = p.fn('privcount.connection.connect').mod
    return Engine(p, inline=lambda g: g.mod is m and g.name not in keep, strict_cmp=True, zero_iter=False, assert_inline=False, **k)


KEEP = ('validate_connection_config',)


def items(p, rep):
    for top, kinds in (('connect', ('connectTCP', 'connectUNIX')), ('listen', ('listenTCP', 'listenUNIX'))):
        f = conn(p, top)
        P = {n: ('sym', n) for n in f.params}
        cfg, fac, loc_, ver = [('sym', n) for n in (f.params + [None] * 4)[1:2] + f.params[:1] + f.params[2:4]]
        seen = set()

        def item_of(F):
            """the items that are known to be valid"""
            for a, v in F.items():
                if a[0] == 'truthy' and v and a[1][0] == 'call' and a[1][1].endswith('validate_connection_config'):
                    yield strip(a[1][2][0]), a[1]

        def is_item(x):
            x = strip(x)
            return x == cfg or x[0] == 'elem' and (strip(x[1]) == cfg or strip(x[1])[0] == 'obj') or x[0] == 'idx' and strip(x[1]) == cfg or x[0] == 'obj'

        def looked_at(F, e):
            if any(a[0] == 'truthy' and v is False and a[1][0] == 'call' and a[1][1].endswith('validate_connection_config') and strip(a[1][2][0]) == e for a, v in F.items()):
                return (('K', 'invalid'),)
            return tuple(('K', k) for k in ('port', 'unix') if given(F, k, e) is not None)

        def version(x):
            x = strip(x)
            return x == ver or x[0] == 'obj' or x[0] == 'elem' and (strip(x[1]) == ver or strip(x[1])[0] == 'obj')

        def oc(ev):
            if ev.kind == 'call' and last(ev) == 'validate_connection_config':
                must = strip((ev.bound or {}).get('must_have_ip', dict(ev.kwargs).get('must_have_ip', ev.args[1] if len(ev.args) > 1 else FALSE)))
                rep.ob('C36.each', top + ' required', must in (FALSE, C(0)) or must == ('not', loc_) or top == 'connect' and ev.facts.get(('truthy', loc_)) is False, 'an item without an address may be refused although this machine is its default', ev.loc())
                return None
            if not opener(ev):
                return None
            k, a, F = last(ev), [strip(x) for x in ev.args], ev.facts
            seen.add(k)
            kw = {n: strip(v) for n, v in ev.kwargs}
            rep.ob('C36.item', '%s kind' % k, k in kinds, '%s opens %s' % (top, k), ev.loc())
            vi = [(i, c) for i, c in item_of(F)]
            if k in ('connectTCP', 'listenTCP'):
                host = a[0] if k == 'connectTCP' else kw.get('interface', a[3] if len(a) > 3 else C(''))
                port = a[1] if k == 'connectTCP' else a[0]
                fa = (a[2] if len(a) > 2 else kw.get('factory')) if k == 'connectTCP' else (a[1] if len(a) > 1 else kw.get('factory'))
                pt = at(strip_casts(port))
                item = strip(pt[1]) if pt[0] == 'idx' and pt[2] == C('port') else None
                ok = item is not None and is_item(item)
                rep.ob('C36.item', k + ' port', ok, 'the port is %s' % show(port)[:80], ev.loc())
                rep.ob('C36.item', k + ' factory', fa == fac, 'the connection is given to %s' % show(fa or NONE)[:80], ev.loc())
                if not ok:
                    return ('O', k, None)
                rep.ob('C36.item', k + ' valid', any(i == item for i, c in vi), 'an item is used without checking it', ev.loc())
                if host[0] == 'idx' and strip(host[1]) == item and host[2] == C('ip') or host[0] == 'mcall' and host[2] == 'get' and strip(host[1]) == item and strip(host[3][0]) == C('ip'):
                    rep.ob('C36.item', k + ' ip', given(F, 'ip', item) is True or F.get(('isnone', host)) is False or F.get(('truthy', host)) is True, 'an address is used that may not be given', ev.loc())
                else:
                    default = host[0] == 'idx' and (k == 'connectTCP' and 'IP_CONNECT_DEFAULT' in show(host[1]) and version(host[2]) or
                                                    k == 'listenTCP' and strip(host[1])[0] == 'idx' and 'IP_LISTEN_DEFAULT' in show(host[1]) and version(strip(host[1])[2]) and strip(host[2]) == loc_) \
                        or is_const(host) and host[2] in LOOPBACK.values()
                    rep.ob('C36.item', k + ' default', default, 'the address is %s' % show(host)[:80], ev.loc())
                    rep.ob('C36.item', k + ' absent', given(F, 'ip', item) is False or any(a_[0] in ('isnone', 'truthy') and 'ip' in show(a_[1]) and v is (a_[0] == 'isnone') for a_, v in F.items()), 'the configured address is not used', ev.loc())
                    if k == 'connectTCP':
                        must = any(i == item and (strip(c[2][1]) if len(c[2]) > 1 else dict(c[3]).get('must_have_ip')) == ('not', loc_) for i, c in vi)
                        rep.ob('C36.item', k + ' local', F.get(('truthy', loc_)) is True or must, 'this machine is used although an address is required', ev.loc())
            else:
                path = at(a[0])
                if path != a[0] and given(F, 'unix', strip(path[1])) is not True:
                    path = a[0]
                item = strip(path[1]) if path[0] == 'idx' and path[2] == C('unix') else None
                fa = a[1] if len(a) > 1 else kw.get('factory')
                rep.ob('C36.item', k + ' path', item is not None and is_item(item), 'the socket is %s' % show(path)[:80], ev.loc())
                rep.ob('C36.item', k + ' factory', fa == fac, 'the connection is given to %s' % show(fa or NONE)[:80], ev.loc())
                rep.ob('C36.item', k + ' valid', any(i == item for i, c in vi), 'an item is used without checking it', ev.loc())
            return ('O', k, item)

        def oi(ends, it, elemv, lid, poss, n, fn):
            for s in ends:
                if elemv is not None:
                    s.trace += looked_at(s.facts, strip(elemv))
                for i, c in item_of(s.facts):
                    if elemv is None or i != strip(elemv):
                        continue
                    did = {x[1] for x in s.trace if x[0] == 'O' and x[2] == i}
                    looked = {k for k in ('port', 'unix') if given(s.facts, k, i) is not None}
                    # the valid item is of no interest to this loop, or is used
                    rep.ob('C36.each', top + ' looked', bool(looked), 'a valid item is not looked at', fn.loc())
                    for key, kind in (('port', kinds[0]), ('unix', kinds[1])):
                        if given(s.facts, key, i) is True:
                            local = kind == 'connectTCP' and given(s.facts, 'ip', i) is False and s.facts.get(('truthy', loc_)) is False
                            rep.ob('C36.each', top + ' ' + key, kind in did or local, 'an item with a %s is not used' % key, fn.loc())
            brks, rest = eng.loop_left
            if elemv is not None and any(True for s in ends for i, c in item_of(s.facts) if i == strip(elemv)):
                rep.ob('C36.each', top + ' all', not brks and not rest, 'items may be left out', fn.loc())
        def ocomp(v, dropped, fn):
            for s in dropped:
                for i, c in item_of(s.facts):
                    rep.ob('C36.each', top + ' dropped', any(given(s.facts, k, i) is False for k in ('port', 'unix')), 'a valid item is left out', fn.loc())
        eng = engine(p, KEEP, on_call=oc, on_iter=oi, raisers=lambda x: False, cap=4000)
        eng.on_comp = ocomp
        n = 0
        for s, c in eng.run(f):
            n += 1
            if c[0] == 'ret':
                got = {x[1] for x in s.trace + looked_at(s.facts, cfg) if x[0] == 'K'} | {'port' if 'TCP' in x[1] else 'unix' for x in s.trace if x[0] == 'O'}
                rep.ob('C36.each', top + ' both', 'invalid' in got or got == {'port', 'unix'}, '%s may leave out the %s of an item' % (top, ' and '.join({'port', 'unix'} - got)), f.loc())
        for k in kinds:
            rep.ob('C36.each', '%s %s' % (top, k), k in seen, '%s never uses %s' % (top, k), f.loc())
        rep.count('paths of %s' % top, n)


def defaults(p, rep):
    m = conn(p, 'connect').mod
    tabs = {}
    for n in m.tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('IP_LISTEN_DEFAULT', 'IP_CONNECT_DEFAULT'):
            try:
                tabs[n.targets[0].id] = eval(compile(ast.Expression(n.value), '', 'eval'), {'__builtins__': {}}, {'True': True, 'False': False}), n
            except Exception:
                raise AnalysisBroken('%s is no literal' % n.targets[0].id)
    if 'IP_CONNECT_DEFAULT' in tabs:
        t, n = tabs['IP_CONNECT_DEFAULT']
        rep.ob('C36.default', 'connect', t == LOOPBACK, 'the default addresses to connect to are %s' % t, '%s:%d' % (m.rel if hasattr(m, 'rel') else m.name, n.lineno))
    if 'IP_LISTEN_DEFAULT' in tabs:
        t, n = tabs['IP_LISTEN_DEFAULT']
        rep.ob('C36.default', 'listen', {k: v.get(True) for k, v in t.items()} == LOOPBACK, 'the default addresses to listen on are %s' % t, '%s:%d' % (m.name, n.lineno))
    for name in ('connect', 'listen', 'connect_ip', 'listen_ip'):
        f = p.funcs.get('privcount.connection.' + name)
        if f is None:
            continue
        d = dict(zip(f.params[len(f.params) - len(f.node.args.defaults):], f.node.args.defaults))
        for par, want in (('ip_local_default', True), ('ip_version_default', 4)):
            if par in d:
                v = d[par].value if isinstance(d[par], ast.Constant) else {'True': True, 'False': False}.get(getattr(d[par], 'id', None))
                rep.ob('C36.default', '%s %s' % (name, par), v == want, 'the default of %s is %s' % (par, v), f.loc())


def valid(p, rep):
    f = conn(p, 'validate_connection_config')
    cfg, must = ('sym', f.params[0]), ('sym', f.params[1])
    iters = []

    def oi(ends, it, elemv, lid, poss, n, fn):
        iters.append((list(ends), strip(it) if it is not None else None, elemv, list(eng.loop_left[0]), list(eng.loop_left[1]), fn))
    eng = engine(p, (), on_iter=oi, raisers=lambda n: n in ('int', 'long'))
    res = eng.run(f)
    good = 0
    for s, c in res:
        if c[0] != 'ret':
            continue
        if c[1] == FALSE or c[1] == NONE:
            continue
        good += 1
        rep.ob('C36.valid', 'none', s.facts.get(('isnone', cfg)) is False or s.facts.get(('truthy', cfg)) is True, 'no configuration may be called valid', f.loc())
        rep.ob('C36.valid', 'answer', c[1] == TRUE, 'the answer is %s' % show(c[1])[:60], f.loc())
    if not good or not iters:
        raise AnalysisBroken('validate_connection_config never answers yes')
    keyed, itemed = 0, 0
    for ends, it, elemv, brks, rest, fn in iters:
        for s, c in rest:
            rep.ob('C36.valid', 'early', c[0] == 'exc' or c[0] == 'ret' and c[1] in (FALSE, NONE), 'a configuration is called valid before all of it is checked', fn.loc())
        rep.ob('C36.valid', 'break', not brks, 'a configuration is called valid before all of it is checked', fn.loc())
        key = strip(elemv) if elemv is not None else None
        if key is None:
            continue
        overkeys = any(a[0] == 'cmp' and a[1] == 'eq' and key in a[2:] for s in ends for a in s.facts)
        if not overkeys:
            for s in ends:
                itemed += 1
                rep.ob('C36.valid', 'item', s.facts.get(('isnone', key)) is False or s.facts.get(('truthy', key)) is True, 'an item that is nothing may be called valid', fn.loc())
            continue
        item = None
        x = it
        while x is not None and item is None:
            if x[0] == 'mcall':
                x = strip(x[1])
            elif x[0] == 'call' and x[2]:
                x = strip(x[2][0])
            else:
                item = x
        for s in ends:
            F = plain(s.facts)
            now = {k: None for k in ('port', 'ip', 'unix', 'control_password')}
            for k in now:
                for a in (('cmp', 'eq', key, C(k)), ('cmp', 'eq', C(k), key)):
                    if a in F:
                        now[k] = F[a]

            def val(k):
                return ('idx', item, C(k))

            def set_(k, nonempty=True):
                v = val(k)
                if F.get(('truthy', v)) is True:
                    return True
                n0 = F.get(('isnone', v)) is False
                ln = any(a[0] == 'cmp' and a[1] == 'eq' and w is False and C(0) in a[2:] and any(b[0] == 'call' and b[1] == 'len' and strip(b[2][0]) == v for b in a[2:] if isinstance(b, tuple) and b) for a, w in F.items())
                return n0 and (ln or not nonempty)
            if now['port'] is not False:
                keyed += 1
                pv = ('call', 'int', (val('port'),), ())
                rep.ob('C36.valid', 'port', set_('port', False) and (F.get(('cmp', 'le', pv, C(0))) is False or F.get(('cmp', 'lt', C(0), pv)) is True or F.get(('cmp', 'lt', pv, C(1))) is False or F.get(('cmp', 'le', C(1), pv)) is True),
                       'a port that is missing, no number or not positive may be called valid', fn.loc())
                if F.get(('truthy', must)) is not False:
                    rep.ob('C36.valid', 'needs ip', given(F, 'ip', item) is not False and set_('ip'), 'a port without its address may be called valid', fn.loc())
                elif given(F, 'ip', item) is not False:
                    rep.ob('C36.valid', 'empty ip', set_('ip'), 'an empty address may be called valid', fn.loc())
            if now['ip'] is not False and now['port'] is not True:
                rep.ob('C36.valid', 'ip', any(a[0] in ('isnone', 'truthy') and v is (a[0] == 'truthy') and a[1][0] == 'call' and a[1][1].endswith('validate_ip_address') and strip(a[1][2][0]) == val('ip') for a, v in F.items())
                       or any(x[0] == 'call' and x[1].split('.')[-1] in ('ip_address',) for a in F for x in subterms(a)), 'an address that is none may be called valid', fn.loc())
                rep.ob('C36.valid', 'needs port', given(F, 'port', item) is not False and set_('port', False), 'an address without a port may be called valid', fn.loc())
            if now['unix'] is not False and not (now['port'] or now['ip']):
                rep.ob('C36.valid', 'unix', set_('unix'), 'an empty socket may be called valid', fn.loc())
            if now['control_password'] is not False and not (now['port'] or now['ip'] or now['unix']):
                rep.ob('C36.valid', 'password', set_('control_password'), 'an empty control password may be called valid', fn.loc())
    rep.ob('C36.valid', 'items', keyed > 0 and itemed > 0, 'the items of a configuration are not checked', f.loc())


def servers(p, rep):
    for role, meth, kind in (('DataCollector', 'do_checkin', 'connectSSL'), ('ShareKeeper', 'do_checkin', 'connectSSL'), ('TallyServer', 'run', 'listenSSL')):
        cls = p.cls(role)
        f = p.method(cls, meth)
        SELF = ('self', role)

        def cfg(t, *keys):
            t = strip(t)
            for k in reversed(keys):
                if t[0] == 'mcall' and t[2] == 'get' and t[3]:
                    t = ('idx', t[1], t[3][0])
                if t[0] != 'idx' or strip(t[2]) != C(k):
                    return False
                t = strip(t[1])
            return t == ('attr', SELF, 'config') or t[0] == 'hv' and t[1:3] == (SELF, 'config')

        def oc(ev):
            if not opener(ev):
                return None
            a = [strip(x) for x in ev.args]
            kw = {n: strip(v) for n, v in ev.kwargs}
            rep.ob('C36.server', role + ' tls', last(ev) == kind, '%s uses %s' % (role, last(ev)), ev.loc())
            if last(ev) != kind:
                return ('O', last(ev))
            if kind == 'connectSSL':
                a += [kw.get(n) for n in ('host', 'port', 'factory', 'contextFactory')[len(a):]]
                rep.ob('C36.server', role + ' ip', cfg(a[0], 'tally_server_info', 'ip'), '%s connects to %s' % (role, show(a[0])[:80]), ev.loc())
                rep.ob('C36.server', role + ' port', cfg(strip_casts(a[1]), 'tally_server_info', 'port'), '%s connects to port %s' % (role, show(a[1])[:80]), ev.loc())
                fac, ctx = a[2], a[3]
            else:
                a += [kw.get(n) for n in ('port', 'factory', 'contextFactory')[len(a):]]
                rep.ob('C36.server', role + ' port', cfg(strip_casts(a[0]), 'listen_port'), '%s listens on %s' % (role, show(a[0])[:80]), ev.loc())
                fac, ctx = a[1], a[2]
                c = ctx
                ok = c is not None and c[0] == 'call' and c[1].endswith('ContextFactory') and len(c[2]) >= 2 and cfg(c[2][0], 'key') and cfg(c[2][1], 'cert')
                rep.ob('C36.server', role + ' key', ok, '%s listens with %s' % (role, show(ctx or NONE)[:100]), ev.loc())
            rep.ob('C36.server', role + ' factory', fac == SELF, 'the connections of %s are given to %s' % (role, show(fac or NONE)[:60]), ev.loc())
            rep.ob('C36.server', role + ' context', ctx is not None and 'ContextFactory' in show(ctx), '%s has no TLS context' % role, ev.loc())
            return ('O', last(ev))
        eng = Engine(p, inline=lambda g: g.cls in p.mro(cls) and sq(g) not in KNOWN and g.name != 'refresh_config', on_call=oc, assert_inline=False, raisers=lambda x: False, zero_iter=False)
        some = False
        for s, c in eng.run(f, selfcls=role):
            if c[0] != 'ret':
                continue
            o = [x for x in s.trace if x[0] == 'O']
            some = some or bool(o)
            rep.ob('C36.server', role + ' once', len(o) <= 1 and (bool(o) or meth == 'run'), '%s opens %d connections' % (role, len(o)), f.loc())
        rep.ob('C36.server', role + ' some', some, '%s opens no connection' % role, f.loc())

    # ---- the event source
    dc, ag = p.cls('DataCollector'), p.cls('Aggregator')
    init = p.method(ag, '__init__')
    attr = None
    for s, c in Engine(p, inline=lambda g: False, assert_inline=False, raisers=lambda x: False).run(init, selfcls='Aggregator'):
        for k, v in s.heap.items():
            if len(k) == 2 and k[0] == ('self', 'Aggregator') and strip(v)[0] == 'sym' and 'control' in k[1]:
                attr = (k[1], strip(v)[1])
    if attr is None:
        raise AnalysisBroken('the aggregator keeps no control port')
    A = ('self', 'Aggregator')
    n = 0

    def oc(ev):
        if ev.kind == 'call' and ev.name.endswith('connection.connect'):
            a = [strip(x) for x in ev.args]
            b = ev.bound or {}
            cfgv = strip(b.get('config')) if 'config' in b else a[1]
            rep.ob('C36.tor', 'source', cfgv == ('attr', A, attr[0]) or cfgv[0] == 'hv' and cfgv[2] == attr[0], 'the aggregator connects to %s' % show(cfgv)[:80], ev.loc())
            rep.ob('C36.tor', 'factory', a[:1] == [A] or strip(b.get('factory', NONE)) == A, 'the aggregator does not take its own events', ev.loc())
            return ('C',)
    g = p.method(ag, 'start')
    for s, c in Engine(p, inline=lambda h: h.cls is ag and sq(h) not in KNOWN, assert_inline=False, raisers=lambda x: False, on_call=oc).run(g, selfcls='Aggregator'):
        n += 1
        rep.ob('C36.tor', 'connects', [x for x in s.trace if x == ('C',)] == [('C',)], 'the aggregator connects %d times' % len([x for x in s.trace if x == ('C',)]), g.loc())
    only_own(p, rep, 'C36.tor', ag, [attr[0]], [init], 'the event source of a round')
    h = p.method(dc, 'do_start')
    made = []

    def oc2(ev):
        if ev.kind == 'new' and ev.name.split('.')[-1] == 'Aggregator':
            made.append(ev)
            b = ev.bound or {}
            v = strip(b.get(attr[1], NONE))
            D = ('self', 'DataCollector')
            rep.ob('C36.tor', 'configured', v == ('idx', ('attr', D, 'config'), C('event_source')) or v[0] == 'idx' and v[2] == C('event_source') and strip(v[1])[0] == 'hv', 'the event source of a round is %s' % show(v)[:80], ev.loc())
    Engine(p, inline=lambda x: x.cls is dc and sq(x) not in KNOWN, assert_inline=False, raisers=lambda x: False, on_call=oc2).run(h, selfcls='DataCollector')
    if not made:
        raise AnalysisBroken('DataCollector.do_start makes no aggregator')


ALLOWED = {'connection.connect_ip', 'connection.connect_unix', 'connection.listen_ip', 'connection.listen_unix', 'data_collector.DataCollector.do_checkin', 'share_keeper.ShareKeeper.do_checkin',
           'tally_server.TallyServer.run'}
USERS = {'connect': {'data_collector.Aggregator.start'}, 'listen': set()}


def only(p, rep):
    callers = {}
    for f in p.funcs.values():
        for nd, k, t in p.calls(f):
            if k == 'func':
                callers.setdefault(t.qual, set()).add(f.qual)

    def permitted(f, names, seen=()):
        """in the set, or a helper that only the set uses"""
        if sq(f) in names:
            return True
        cs = callers.get(f.qual, set())
        return bool(cs) and f.qual not in seen and all(permitted(p.funcs[c], names, seen + (f.qual,)) for c in cs)
    n = 0
    for f in sorted(p.funcs.values(), key=lambda f: f.qual):
        mod = f.mod.name.split('.')[-1]
        if mod in ('inject', 'plot') or '.tools' in f.mod.name:
            continue
        for nd, k, t in p.calls(f):
            name = nd.func.attr if isinstance(nd.func, ast.Attribute) else getattr(nd.func, 'id', '')
            full = t if k == 'ext' and isinstance(t, str) else ''
            if name in OPENERS and name not in ('Popen',) and k != 'func':
                n += 1
                rep.ob('C36.only', sq(f), permitted(f, ALLOWED), '%s opens a connection of its own' % sq(f), f.loc(nd))
            elif full.startswith(NET) and full not in ('socket.gethostname',):
                n += 1
                rep.ob('C36.only', sq(f) + ' net', False, '%s uses %s' % (sq(f), full), f.loc(nd))
            elif k == 'func' and sq(t) in ('connection.connect', 'connection.listen'):
                n += 1
                rep.ob('C36.only', sq(f), permitted(f, USERS[t.name]), '%s opens a connection of its own' % sq(f), f.loc(nd))
            elif k == 'func' and sq(t) in ALLOWED and f.mod.name.split('.')[-1] != 'connection' and t.mod.name.split('.')[-1] == 'connection':
                n += 1
                rep.ob('C36.only', sq(f), False, '%s opens a connection of its own' % sq(f), f.loc(nd))
    rep.count('calls that open connections', n)


def closing(p, rep):
    for name, meth in (('disconnect', 'disconnect'), ('stopListening', 'stopListening')):
        f = conn(p, name)
        lst = ('sym', f.params[0])
        its = []

        def oc(ev):
            if ev.kind == 'call' and last(ev) == meth and ev.recv is not None:
                return ('D', strip(ev.recv))

        def oi(ends, it, elemv, lid, poss, n, fn):
            its.append(True)
            for s in ends:
                rep.ob('C36.close', name, any(x[0] == 'D' and x[1] == strip(elemv) for x in s.trace), '%s leaves one open' % name, fn.loc())
            rep.ob('C36.close', name + ' all', not eng.loop_left[0] and not eng.loop_left[1], '%s stops early' % name, fn.loc())
        eng = engine(p, (), on_call=oc, on_iter=oi, raisers=lambda x: False)
        for s, c in eng.run(f):
            ds = [x for x in s.trace if x[0] == 'D']
            for x in ds:
                rep.ob('C36.close', name + ' each', x[1] == lst or x[1][0] == 'elem' and (strip(x[1][1]) == lst or strip(x[1][1])[0] == 'obj'), '%s closes %s' % (name, show(x[1])[:60]), f.loc())
            rep.ob('C36.close', name + ' some', bool(ds), '%s closes nothing' % name, f.loc())
