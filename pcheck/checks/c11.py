"""C11: the delay object is interpreted as a whole (all its methods inlined): every path that
permits a start, or records a stop, is compared with the rule as linear facts over times and
sigmas.  The callers are then checked for what they pass, when they ask, and when they record."""
from .phase import *
from ..lin import lin

CD, SC_ = 'CollectionDelay', ('self', 'CollectionDelay')
PERM, REC = 'round_start_permitted', 'set_delay_for_stop'
LAST, FIRST = ('attr', SC_, 'last_round_end_time'), ('attr', SC_, 'starting_noise_allocation')
SIGMA, NOISE = 'sigma_change_needs_delay', 'noise_change_needs_delay'


def nonneg(facts):
    """linear forms known to be >= 0"""
    out = []
    for k, v in facts.items():
        if k[0] == 'cmp' and k[1] in ('lt', 'le', 'eq'):
            a, b = k[2], k[3]
            if k[1] == 'eq':
                if v:
                    out += [lin(('bin', 'Sub', a, b)), lin(('bin', 'Sub', b, a))]
            elif v:
                out.append(lin(('bin', 'Sub', b, a)))
            else:
                out.append(lin(('bin', 'Sub', a, b)))
    return out


def implied(facts, t):
    """t >= 0 is one of the facts"""
    return lin(t) in nonneg(facts)


def sub(a, b):
    return ('bin', 'Sub', a, b)


def add(*a):
    t = a[0]
    for x in a[1:]:
        t = ('bin', 'Add', t, x)
    return t


def base(t):
    """the counters a (filtered, copied, keyed) collection comes from"""
    t = strip(t)
    while True:
        if t[0] == 'call' and t[1].split('.')[-1] in ('skip_missing_sigmas', 'set', 'list', 'sorted', 'frozenset', 'dict', 'tuple', 'iter') and t[2]:
            t = strip(t[2][0])
        elif t[0] == 'mcall' and t[2] in ('keys', 'iterkeys', 'viewkeys', 'copy') and not t[3]:
            t = strip(t[1])
        else:
            return t


def is_common(t, P, Q):
    t = strip(t)
    while t[0] == 'call' and t[1] in ('set', 'list', 'sorted', 'frozenset', 'tuple') and t[2]:
        t = strip(t[2][0])
    if t[0] == 'call' and t[1].endswith('common_counters'):
        return {base(x) for x in t[2][:2]} == {P, Q}
    if t[0] == 'mcall' and t[2] == 'intersection':
        return {base(t[1]), base(t[3][0])} == {P, Q}
    if t[0] == 'bin' and t[1] == 'BitAnd':
        return {base(t[2]), base(t[3])} == {P, Q}
    return False


def same_keys(facts, P, Q):
    got = set()
    for k, v in facts.items():
        if k[0] != 'cmp' or k[1] != 'eq' or not v:
            continue
        a, b = strip(k[2]), strip(k[3])
        if a[0] == 'len' and b[0] == 'len':
            for x, y in ((a[1], b[1]), (b[1], a[1])):
                if is_common(x, P, Q) and base(y) in (P, Q):
                    got.add(base(y))
        elif a[0] in ('call', 'mcall') and b[0] == a[0] and a[1] != 'len' and {base(a), base(b)} == {P, Q}:
            return True
    return got == {P, Q}


def sigma_ok(facts, P, Q, tol):
    """for an arbitrary counter of both: the proposed sigma is not lower, or by no more than the tolerance"""
    for k, v in facts.items():
        for e in {x for x in subterms(k) if x[0] == 'elem'}:
            if not (is_common(e[1], P, Q) or base(e[1]) in (P, Q)):
                continue

            def sig(B):
                return {x for x in subterms(k) if x[0] == 'idx' and x[2] == C('sigma') and x[1][0] == 'idx' and base(x[1][1]) == B and strip(x[1][2]) == strip(e)}
            for a in sig(P):
                for b in sig(Q):
                    if k[0] == 'truthy' and v is False and k[1][0] == 'call' and k[1][1].endswith('.' + SIGMA) and k[1][2][:3] == (a, b, tol):
                        return True
                    if implied(facts, sub(b, a)) or implied(facts, sub(tol, sub(a, b))):
                        return True
    return False


def change(facts, prev, prop, tol):
    """False: the facts say the noise of prop needs no delay after prev; None: they do not"""
    if fact(facts.items(), ('isnone', prev)) is True:
        return False
    for k, v in facts.items():
        if k[0] == 'truthy' and v is False and k[1][0] == 'call' and k[1][1].endswith('.' + NOISE) and k[1][2][:3] == (prev, prop, tol):
            return False
    P, Q = ('idx', prev, C('counters')), ('idx', prop, C('counters'))
    if same_keys(facts, P, Q) and sigma_ok(facts, P, Q, tol):
        return False
    return None


def arg(ev, f, name):
    b = ev.bound or {}
    if name in b:
        return b[name]
    ps = f.params[1:]
    i = ps.index(name)
    if i < len(ev.args):
        return ev.args[i]
    return dict(ev.kwargs).get(name)


def is_time(t):
    return strip_casts(t)[:2] == ('call', 'time.time')


def cfg_item(t, key):
    t = strip(t)
    return t[0] == 'idx' and t[2] == C(key) and t[1][0] in ('attr', 'hv') and t[1][1][0] == 'self' and t[1][2] == 'config'


def check(p, rep):
    rep.rule('C11.permit', 'a round is permitted only if its noise needs no delay, or the delay has passed since the last round ended', 3)
    rep.rule('C11.record', 'a successful round records its end, and its noise exactly when that starts a new series', 4)
    rep.rule('C11.failed', 'an unsuccessful round records nothing', 1)
    rep.rule('C11.owner', 'the recorded rounds belong to the delay object of the node', 1)
    rep.rule('C11.start', 'a client accepts a start only if the delay permits exactly that noise now', 5)
    rep.rule('C11.noise', 'the noise of the running round is what its start message said', 3)
    rep.rule('C11.stop', 'a client that hands over counts records the round', 5)
    rep.rule('C11.running', 'a start is not even considered while a data collector is collecting', 1)
    rep.rule('C11.use', 'no collection is set up when the start was not permitted', 1)
    rep.rule('C11.server', 'the tally server asks for, and records, the noise of its own round', 6)
    rep.rule('C11.config', 'the delay and the tolerance have validated values', 4)
    cls = p.cls(CD)
    for m in (PERM, REC):
        if m not in cls.methods:
            raise AnalysisBroken('anchor vanished: CollectionDelay.' + m)
    inl = lambda g: g.cls is cls and g.name not in (SIGMA, NOISE)
    S_ = lambda n: ('sym', n)
    mk = lambda **k: Engine(p, inline=inl, opaque=('log.format_delay_time_until',), assert_inline=False, raisers=lambda n: False, zero_iter=False, **k)
    fp, fr = cls.methods[PERM], cls.methods[REC]

    # ---- permission
    eng = mk()
    n = 0
    for s, c in eng.run(fp, selfcls=CD):
        if c[0] != 'ret':
            continue
        for s2, b in eng.branch(s, c[1]):
            if not b:
                n += 1
                continue
            fa = s2.facts
            start, noise, tol = S_('start_time'), S_('noise_allocation'), S_('tolerance')
            none = fact(fa.items(), ('isnone', LAST)) is True
            waited = implied(fa, sub(start, add(LAST, S_('delay_period'), S_('max_client_rtt'))))
            after = implied(fa, sub(start, LAST))
            always = fact(fa.items(), ('truthy', S_('always_delay')))
            free = always is False and change(fa, FIRST, noise, tol) is False
            rep.ob('C11.permit', 'first' if none else 'waited' if waited else 'same noise', none or waited or after and free,
                   'a start is permitted without delay although %s' % ('a delay may always be required' if always is not False else
                                                                       'it may begin before the last round ended' if not after else 'the noise may have changed'), fp.loc())
    rep.ob('C11.permit', 'refusal', n > 0, 'no start is ever refused', fp.loc())
    rep.count('paths', eng.paths)
    d = [a for a in fp.node.args.defaults]
    for f in (fp, fr):
        names = f.params[len(f.params) - len(f.node.args.defaults):]
        for nm, dv in zip(names, f.node.args.defaults):
            if nm == 'tolerance':
                ok = isinstance(dv, ast.Name) or isinstance(dv, ast.Attribute)
                rep.ob('C11.config', f.name + ' default tolerance', ok, 'default tolerance is not the configured default', f.loc())

    # ---- recording
    eng = mk()
    end, noise, tol = S_('end_time'), S_('noise_allocation'), S_('tolerance')
    stored = set()
    for s, c in eng.run(fr, selfcls=CD):
        if c[0] != 'ret':
            continue
        fa = s.facts
        okay = fact(fa.items(), ('truthy', S_('round_successful')))
        last, first = s.heap.get((SC_, 'last_round_end_time'), LAST), s.heap.get((SC_, 'starting_noise_allocation'), FIRST)
        for k in s.heap:
            if k[0] == SC_ and k[1] not in ('last_round_end_time', 'starting_noise_allocation'):
                rep.ob('C11.record', 'field ' + str(k[1]), False, 'records %s' % (k,), fr.loc())
        if okay is not True:
            rep.ob('C11.failed', 'nothing', last == LAST and first == FIRST, 'a round that may have failed records end %s, noise %s' % (show(last), show(first)), fr.loc())
            continue
        rep.ob('C11.record', 'end', strip(last) == end, 'the end of the round is recorded as %s' % show(last), fr.loc())
        none = fact(fa.items(), ('isnone', FIRST)) is True or fact(fa.items(), ('truthy', FIRST)) is False
        same = not none and change(fa, FIRST, noise, tol) is False
        always = fact(fa.items(), ('truthy', S_('always_delay'))) is True
        if none:
            rep.ob('C11.record', 'first', strip(first) == noise, 'the noise of the first round is recorded as %s' % show(first), fr.loc())
        elif always:
            rep.ob('C11.record', 'always', strip(first) in (noise, FIRST), 'recorded noise is %s' % show(first), fr.loc())
        elif same:
            rep.ob('C11.record', 'series', first == FIRST, 'equivalent noise replaces the noise the series began with: it can be lowered a little each round', fr.loc())
        else:
            rep.ob('C11.record', 'changed', strip(first) == noise, 'after a change of noise, the recorded noise is %s' % show(first), fr.loc())
        stored.add((none, same))
    rep.ob('C11.record', 'cases', len(stored) >= 3, 'only %d of 3 cases found' % len(stored), fr.loc())
    rep.count('paths', eng.paths)

    g = cls.methods.get(NOISE)
    if g is not None:
        a, b, tol = (S_(x) for x in g.params[:3])
        for s, c in mk().run(g, selfcls=CD):
            for s2, r in eng.branch(s, c[1]) if c[0] == 'ret' else ():
                if not r:
                    rep.ob('C11.permit', NOISE, change(s2.facts, a, b, tol) is False, 'a change of noise may need no delay', g.loc())
    g = cls.methods.get(SIGMA)
    if g is not None:
        a, b, tol = (S_(x) for x in g.params[:3])
        e2 = mk()
        for s, c in e2.run(g):
            for s2, r in e2.branch(s, c[1]) if c[0] == 'ret' else ():
                if not r:
                    rep.ob('C11.permit', SIGMA, implied(s2.facts, sub(b, a)) or implied(s2.facts, sub(tol, sub(a, b))), 'a lower sigma may be used without delay', g.loc())

    # ---- what "missing sigma" and "common counters" mean
    for q, want in (('counter.skip_missing_sigmas', 'filter'), ('counter.common_counters', 'common')):
        g = p.fn('privcount.' + q)
        e2 = Engine(p, inline=lambda h: h.mod is g.mod and h.cls is None and h.name not in ('extra_counters', 'summarise_list') or h.name == '_common_keys', assert_inline=False, raisers=lambda n: False, zero_iter=False)
        a = S_(g.params[0])
        for s, c in e2.run(g):
            if c[0] != 'ret':
                continue
            r = c[1]
            if want == 'common':
                P, Q = (S_(x) for x in g.params[:2])
                rep.ob('C11.permit', q, is_common(r, P, Q), '%s returns %s' % (q, show(r)), g.loc())
            else:
                items = [(k[2], v) for k, v in s.heap.items() if k[0] == r and k[1] == '[]']
                e = ('elem', a)
                has = any(k == ('cmp', 'in', C('sigma'), ('idx', a, e)) and v for k, v in s.facts.items())
                ok = all(strip(k) == e and strip(v) == ('idx', a, e) for k, v in items) and (bool(items) == has or not any(
                    k[0] == 'cmp' and k[1] == 'in' and k[2] == C('sigma') for k in s.facts))
                rep.ob('C11.permit', q, ok, '%s drops or changes a counter that has a sigma' % q, g.loc())

    # ---- who may touch the records
    for a in ('last_round_end_time', 'starting_noise_allocation'):
        bad = [(f, n) for f, n, v in attr_stores(p, a) if f.cls is not cls]
        for f, n in bad:
            rep.ob('C11.owner', a + ' ' + sq(f), False, 'stores to %s' % a, f.loc(n))
        rep.ob('C11.owner', a, not bad)
    ini = p.cls('PrivCountNode').methods['__init__']
    made = [(f, n, v) for f, n, v in attr_stores(p, 'collection_delay')]
    for f, n, v in made:
        rep.ob('C11.owner', 'collection_delay', f is ini and isinstance(v, ast.Call) and not v.args, 'the delay object is replaced', f.loc(n))
    if not made:
        raise AnalysisBroken('no node has a collection_delay')
    for nm, val in (('last_round_end_time', None), ('starting_noise_allocation', None)):
        inits = [n for f, n, v in attr_stores(p, nm) if f.cls is cls and f.name == '__init__' and isinstance(v, ast.Constant) and v.value is None]
        rep.ob('C11.owner', nm + ' initial', len(inits) == 1, '%s does not begin as None' % nm, cls.methods['__init__'].loc())
    for f in p.funcs.values():
        for n, k, t in p.calls(f):
            if k == 'func' and t.cls is cls and t.name == '__init__' and f is not ini:
                rep.ob('C11.owner', 'instance ' + sq(f), False, 'another delay object', f.loc(n))

    # ---- client start
    cli = p.cls('PrivCountClient')
    f = p.method(cli, 'check_start_config')
    g = p.method(cli, 'check_stop_config')
    if f is None or g is None:
        raise AnalysisBroken('anchor vanished: check_start_config / check_stop_config')
    asks = []

    def on_call(ev):
        if ev.kind == 'call' and ev.name.split('.')[-1] == PERM:
            asks.append(ev)
            return
        if ev.kind == 'call' and ev.name.split('.')[-1] == REC:
            asks.append(ev)
            return ('record', strip(arg(ev, fr, 'round_successful')), strip(arg(ev, fr, 'noise_allocation')), strip(arg(ev, fr, 'start_time')), strip(arg(ev, fr, 'end_time')))
        if ev.kind == 'setattr' and ev.name in ('.last_noise_config=', '.collection_start_time='):
            return ('set', ev.name[1:-1], strip(ev.value))
        if ev.kind == 'setitem' and ev.args[0] == C('Counts'):
            return ('Counts', strip(ev.args[1]))
    new = lambda h: h.cls is cli or sq(h) not in KNOWN
    scfg = S_(f.params[1])
    n = 0
    for me in ('DataCollector', 'ShareKeeper'):
        eng = Engine(p, inline=new, on_call=on_call, assert_inline=False, raisers=lambda n: False, zero_iter=False)
        for s, c in eng.run(f, selfcls=me):
            sets = [l for l in s.trace if l[0] == 'set']
            perm = any(k[0] == 'truthy' and v and k[1][0] in ('call', 'mcall') and (k[1][1] if k[1][0] == 'call' else k[1][2]).split('.')[-1] == PERM for k, v in s.facts.items())
            if c[0] == 'ret' and c[1] != NONE:
                n += 1
                rep.ob('C11.start', 'permitted', perm, 'a start is accepted that the delay may not permit', f.loc())
                d = dict((l[1], l[2]) for l in sets)
                rep.ob('C11.noise', 'stored', d.get('last_noise_config') == ('idx', scfg, C('noise')), 'the noise of the round is taken from %s' % show(d.get('last_noise_config', NONE)), f.loc())
                rep.ob('C11.noise', 'time', is_time(d.get('collection_start_time', NONE)), 'the start time of the round is %s' % show(d.get('collection_start_time', NONE)), f.loc())
            else:
                rep.ob('C11.noise', 'refused', not sets, 'a refused start changes the noise or start time recorded for the running round', f.loc())
    for ev in asks:
        rep.ob('C11.start', 'noise', strip(arg(ev, fp, 'noise_allocation')) == ('idx', scfg, C('noise')), 'asks about noise %s' % show(arg(ev, fp, 'noise_allocation')), ev.loc())
        rep.ob('C11.start', 'now', is_time(arg(ev, fp, 'start_time') or NONE), 'asks about time %s' % show(arg(ev, fp, 'start_time') or NONE), ev.loc())
        conf(rep, 'C11.start', ev, fp)
    if not n:
        raise AnalysisBroken('check_start_config never succeeds')

    # ---- client stop
    del asks[:]
    counts = S_(g.params[2])
    n = 0
    NN, ST = 'last_noise_config', 'collection_start_time'
    for me in ('DataCollector', 'ShareKeeper'):
        me_ = ('self', me)
        eng = Engine(p, inline=new, opaque=('node.PrivCountNode.summarise_config_lists',), on_call=on_call, assert_inline=False, raisers=lambda n: False, zero_iter=False)
        for s, c in eng.run(g, selfcls=me):
            if c[0] != 'ret':
                continue
            sent = any(l[0] == 'Counts' for l in s.trace) or any(k[1] == '[]' and k[2] == C('Counts') for k in s.heap if len(k) == 3) or \
                c[1][0] == 'obj' and any(x[0] == C('Counts') for x in c[1][3] if isinstance(x, tuple) and x)
            if not sent:
                continue
            n += 1
            never = any(fact(s.facts.items(), ('isnone', ('attr', me_, a))) is True for a in (NN, ST, 'collect_period'))
            r = [l for l in s.trace if l[0] == 'record']
            rep.ob('C11.stop', 'recorded', never or len(r) == 1, 'counts are handed over, but the round is recorded %d times' % len(r), g.loc())
            for l in r:
                rep.ob('C11.stop', 'success', eng.known(s, l[1]) is True, 'counts are handed over, but the round may be recorded as unsuccessful', g.loc())
                rep.ob('C11.stop', 'noise', l[2] == ('attr', me_, NN), 'records noise %s' % show(l[2]), g.loc())
                rep.ob('C11.stop', 'times', l[3] == ('attr', me_, ST) and is_time(l[4]), 'records times %s to %s' % (show(l[3]), show(l[4])), g.loc())
    for ev in asks:
        conf(rep, 'C11.stop', ev, fr)
    if not n:
        raise AnalysisBroken('check_stop_config never hands over counts')
    for a in (NN, ST):
        for h, nd, v in attr_stores(p, a):
            if h.name == '__init__' and h.cls is cli:
                continue
            ok = h.cls is cli and only_from(p, h, f)
            rep.ob('C11.noise', '%s in %s' % (a, sq(h)), ok, 'stores to %s outside the start' % a, h.loc(nd))

    # ---- the start and stop commands of the clients
    for role, attr_, kind in (('DataCollector', 'aggregator', 'Aggregator'), ('ShareKeeper', 'keystore', 'SecureCounters')):
        rc = p.cls(role)
        h = p.method(rc, 'do_start')
        if h is None:
            raise AnalysisBroken('anchor vanished: do_start of ' + role)
        hits = []

        def oc(ev):
            if ev.kind == 'call' and ev.name.split('.')[-1] == 'check_start_config':
                hits.append(('check', ev))
            if ev.kind == 'new' and ev.name == kind:
                hits.append(('new', ev))
        eng = Engine(p, inline=lambda q: q.cls is rc or sq(q) not in KNOWN, opaque=(sq(f),), on_call=oc, assert_inline=False, raisers=lambda n: False, zero_iter=False)
        eng.run(h, selfcls=role)
        if not [1 for k, e in hits if k == 'new'] or not [1 for k, e in hits if k == 'check']:
            raise AnalysisBroken('do_start of %s sets up no collection' % role)
        for k, ev in hits:
            if k == 'new':
                acc = any(a[0] in ('isnone', 'truthy') and a[1][0] in ('call', 'mcall') and 'check_start_config' in show(a[1])[:80] and v == (a[0] == 'truthy') for a, v in ev.facts.items())
                rep.ob('C11.use', role, acc, 'a collection is set up although the start may not have been accepted', ev.loc())
            elif role == 'DataCollector':
                A_ = ('attr', ('self', role), attr_)
                idle = fact(ev.facts.items(), ('isnone', A_)) is True or fact(ev.facts.items(), ('truthy', A_)) is False
                rep.ob('C11.running', role, idle, 'a start is considered (and its noise recorded) while a collection may be running', ev.loc())
        others = [(q, n) for q in p.funcs.values() for n, k, t in p.calls(q) if k == 'func' and t is f and (q.cls is rc) and not only_from(p, q, h, me=True)]
        for q, n in others:
            rep.ob('C11.running', role + ' ' + sq(q), False, 'the start checks (which record the noise) are run outside a start command', q.loc(n))

    # ---- tally server
    ts = p.cls('TallyServer')
    del asks[:]
    for m in ('refresh_loop', 'stop_collection_phase'):
        h = p.method(ts, m)
        if h is None:
            raise AnalysisBroken('anchor vanished: TallyServer.' + m)
        ends = []

        def oc(ev):
            nm = ev.name.split('.')[-1]
            if ev.kind == 'call' and nm in (PERM, REC):
                asks.append((nm, ev))
                return (nm,)
            if ev.kind == 'setattr' and ev.name == '.collection_phase=' and ev.value == NONE:
                return ('end',)
        eng = Engine(p, inline=lambda q: sq(q) not in KNOWN, on_call=oc, assert_inline=False, raisers=lambda n: False, zero_iter=False, track=lambda a: 'collection_phase' in show(a) or PERM in show(a))
        for s, c in eng.run(h, selfcls='TallyServer'):
            t = [l[0] for l in s.trace]
            if c[0] == 'ret' and 'end' in t:
                rep.ob('C11.server', 'recorded', t.count(REC) == 1, 'the round ends with %d records of it' % t.count(REC), h.loc())
    for nm, ev in asks:
        F = fp if nm == PERM else fr
        no = strip(arg(ev, F, 'noise_allocation'))
        conf(rep, 'C11.server', ev, F)
        if nm == PERM:
            rep.ob('C11.server', 'asks noise', cfg_item(no, 'noise'), 'asks about %s' % show(no), ev.loc())
            rep.ob('C11.server', 'asks now', is_time(arg(ev, F, 'start_time')), 'asks about time %s' % show(arg(ev, F, 'start_time')), ev.loc())
        else:
            ok = strip(arg(ev, F, 'round_successful'))
            is_err = lambda t: t[0] in ('call', 'mcall') and (t[2] if t[0] == 'mcall' else t[1]).endswith('is_error')
            good = ok[0] == 'not' and is_err(ok[1]) or ok == TRUE and any(a[0] == 'truthy' and is_err(a[1]) and v is False for a, v in ev.facts.items()) or \
                ok == FALSE and any(a[0] == 'truthy' and is_err(a[1]) and v is True for a, v in ev.facts.items())
            rep.ob('C11.server', 'success', good, 'the round is recorded as successful: %s' % show(ok), ev.loc())
            rep.ob('C11.server', 'noise', no[0] in ('call', 'mcall') and 'get_noise_config' in show(no), 'records noise %s' % show(no), ev.loc())
            st = strip(arg(ev, F, 'start_time'))
            rep.ob('C11.server', 'times', 'get_start_ts' in show(st) and is_time(arg(ev, F, 'end_time')), 'records times %s, %s' % (show(st), show(arg(ev, F, 'end_time'))), ev.loc())
    if {nm for nm, ev in asks} != {PERM, REC}:
        raise AnalysisBroken('the tally server does not ask for permission, or record rounds')
    ph = p.cls(CP)
    for m, a in (('get_noise_config', 'noise_config'), ('get_start_ts', 'starting_ts')):
        h = ph.methods.get(m)
        if h is None:
            raise AnalysisBroken('anchor vanished: CollectionPhase.' + m)
        for s, c in Engine(p, inline=lambda q: sq(q) not in KNOWN).run(h, selfcls=CP):
            rep.ob('C11.server', m, c[0] == 'exc' or attr_name(c[1]) == a, '%s returns %s' % (m, show(c[1])), h.loc())
    bad = [(h, n) for h, n, v in attr_stores(p, 'noise_config') if not (h.cls is ph and h.name == '__init__' and isinstance(v, ast.Name))]
    for h, n in bad:
        rep.ob('C11.server', 'phase noise', False, 'the noise of a running round is replaced', h.loc(n))
    for h, n, v in attr_stores(p, 'starting_ts'):
        if v is not None:
            cp = h.cls is ph and h.name in ('__init__', 'start') or h.cls is ph and only_from(p, h, ph.methods['start'])
            rep.ob('C11.server', 'phase start', cp, 'the start time of a running round is replaced', h.loc(n))

    # ---- configuration
    node = p.cls('PrivCountNode')
    gd = p.method(node, 'get_valid_delay_period')
    if gd is None:
        raise AnalysisBroken('anchor vanished: get_valid_delay_period')
    eng = Engine(p, inline=lambda q: sq(q) not in KNOWN, raisers=lambda n: False)
    conf_ = S_(gd.params[0])
    for s, c in eng.run(gd):
        if c[0] != 'ret':
            continue
        v = strip(c[1])
        it = lambda t: t[0] == 'idx' and t[1] == conf_ and t[2] == C('delay_period') or t[0] == 'mcall' and t[1] == conf_ and t[2] == 'get' and t[3][0] == C('delay_period')
        dflt = 24 * 60 * 60
        low = is_num(v) and v[2] >= dflt
        if it(v):
            rep.ob('C11.config', 'configured', implied(s.facts, v), 'a negative delay may be used', gd.loc())
        else:
            rep.ob('C11.config', 'default', low, 'without a valid configured delay, the delay is %s' % show(v), gd.loc())
    want = {'delay_period': 'get_valid_delay_period', 'sigma_decrease_tolerance': 'get_valid_sigma_decrease_tolerance'}
    seen = {}
    for h in p.funcs.values():
        for n in ast.walk(h.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Constant) and t.slice.value in want:
                        k = t.slice.value
                        v = n.value
                        ok = isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == want[k] or local_call(h, v, want[k])
                        rep.ob('C11.config', '%s in %s' % (k, sq(h)), ok, '%s is set without validation' % k, h.loc(n))
                        seen.setdefault(k, set()).add(h.cls.name if h.cls else '')
    for k in want:
        for role in ('TallyServer', 'ShareKeeper', 'DataCollector'):
            rep.ob('C11.config', '%s of %s' % (k, role), role in seen.get(k, ()), '%s does not validate %s' % (role, k))
    tol = p.method(node, 'get_valid_sigma_decrease_tolerance')
    for role, m in (('PrivCountNode', tol), ('PrivCountServer', p.method(p.cls('PrivCountServer'), 'get_valid_sigma_decrease_tolerance'))):
        if m is None:
            raise AnalysisBroken('anchor vanished: get_valid_sigma_decrease_tolerance')
        eng = Engine(p, inline=lambda q: q.name == 'get_valid_sigma_decrease_tolerance' or sq(q) not in KNOWN, assert_inline=True, raisers=lambda n: False)
        for s, c in eng.run(m):
            if c[0] == 'ret':
                fl = [x for k in s.facts for x in subterms(k) if x[0] == 'call' and x[1].endswith('float_accuracy')]
                rep.ob('C11.config', role + ' tolerance', any(implied(s.facts, sub(c[1], x)) for x in fl), 'the tolerance may be below float accuracy', m.loc())
    rep.assumption('time.time() does not go backwards; delays are not remembered across a restart of the node')


def local_call(h, v, name):
    if not isinstance(v, ast.Name):
        return False
    return any(isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == v.id for t in n.targets) and isinstance(n.value, ast.Call) and
               isinstance(n.value.func, ast.Attribute) and n.value.func.attr == name for n in ast.walk(h.node))


def conf(rep, rule, ev, F):
    for nm, key in (('delay_period', 'delay_period'), ('always_delay', 'always_delay'), ('tolerance', 'sigma_decrease_tolerance')):
        v = arg(ev, F, nm)
        rep.ob(rule, F.name + ' ' + nm, v is not None and cfg_item(v, key), '%s is %s' % (nm, 'the default' if v is None else show(v)), ev.loc())


def only_from(p, h, top, me=False):
    """h is top, or (transitively) only called from top"""
    if h is top:
        return True
    seen, work = {h}, [h]
    while work:
        x = work.pop()
        cs = {q for q in p.funcs.values() for n, k, t in p.calls(q) if k == 'func' and t is x}
        if not cs:
            return False
        for q in cs:
            if q is top or q in seen:
                continue
            seen.add(q)
            work.append(q)
    return True
