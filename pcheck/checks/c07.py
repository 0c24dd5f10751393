"""C07: symbolic extraction of the noise value stored for a bin (the sampling helper inlined)
and comparison, in product normal form, with gauss(0, noise_weight * sigma of that counter);
plus dataflow of the sigma and of the weight from the start message to that call: counter
names are never crossed and the weight is the relay's own entry or the default one."""
from .sc import *
from .c06 import run_noise
from .c05 import secret_of, dc_engine, START


def check(p, rep):
    rep.rule('C07.gauss', "each bin's noise is a rounded zero-mean Gaussian with deviation weight * sigma of its own counter", 1)
    rep.rule('C07.weight', 'the weight passed is the configured weight for the relay fingerprint', 1)
    rep.rule('C07.select', "a relay's weight is its own entry, or the default entry when it has none", 1)
    rep.rule('C07.sigma', 'bins and sigma of a combined counter come from the same counter name', 1)
    rep.rule('C07.flow', 'the sigmas and weights that reach the noise are those of the start message', 3)
    rep.rule('C07.fingerprint', 'the fingerprint is fixed before noise is drawn for it', 1)
    f, res, st = run_noise(p, True)
    rep.count('paths', len(res))
    nw = ('sym', f.params[1])
    for ev in st:
        X, k, i = struct_of(ev.recv)
        v = strip(uncast(ev.args[1]))
        ok, why = False, show(v)
        if v[0] == 'call' and v[1] == 'round' and len(v[2]) == 1:
            v = strip(uncast(v[2][0]))
            if v[0] == 'mcall' and v[2] in ('gauss', 'normalvariate') and v[1][0] == 'call' and v[1][1] == 'random.SystemRandom' and len(v[3]) == 2:
                mu, sd = v[3]
                num, den = factors(sd)
                den = [d for d in den if d != ('call', 'math.sqrt', (C(1),), ()) and d != ('call', 'math.sqrt', (C(1.0),), ())]
                sig = ('idx', ('idx', strip(X), strip(k)), C('sigma'))
                ok = is_num(mu) and mu[2] == 0 and sorted(num, key=repr) == sorted([nw, sig], key=repr) and not den
        rep.ob('C07.gauss', 'bin noise', ok, 'noise is %s' % why, ev.loc())
    if not st:
        raise AnalysisBroken('no noise store found')

    # ---- weight passed by the aggregator
    A = p.cls('Aggregator')
    AS = ('self', 'Aggregator')
    gens = []
    eng = Engine(p, inline=lambda g: g.cls is A, assert_inline=False, raisers=lambda n: False, track=lambda a: False,
                 on_call=lambda ev: gens.append(ev) if ev.kind == 'call' and ev.name == 'counter.SecureCounters.generate_noise' else None)
    for nm in ('generate_noise', 'stop', 'set_fingerprint'):
        eng.run(p.method(A, nm), selfcls='Aggregator')
    FP = ('attr', AS, 'fingerprint')
    for ev in gens:
        v = strip(ev.arg(0))
        cur = ev.st.heap.get((AS, 'fingerprint'), FP)
        ok = v[0] == 'call' and v[1] == 'counter.get_noise_weight' and len(v[2]) == 2 and v[2][0] == ('attr', AS, 'noise_weight_config') and v[2][1] in (strip(cur), FP)
        rep.ob('C07.weight', '%s via %s' % (sq(ev.fn), sq(ev.stack[0]) if ev.stack else ''), ok, 'weight is %s' % show(v), ev.loc())
    if not gens:
        rep.ob('C07.weight', 'aggregator', False, 'the aggregator never adds noise', '')
    init = p.method(A, '__init__')
    for g, n, v in attr_stores(p, 'noise_weight_config'):
        if g.cls is A:
            rep.ob('C07.weight', 'store in ' + sq(g), g is init, 'the weight table is replaced', g.loc(n))
    eng = dc_engine(p, lambda ev: None, opaque=('counter.SecureCounters.__init__', 'counter.SecureCounters.generate_blinding_shares'), cap=300)
    for s, c in eng.run(init, selfcls='Aggregator'):
        if c[0] == 'ret':
            v = s.heap.get((AS, 'noise_weight_config'))
            rep.ob('C07.flow', 'aggregator weights', v is not None and strip(v) == ('sym', 'noise_weight'), 'weights are %s' % show(v or NONE), init.loc())
    news = []
    eng = dc_engine(p, lambda ev: news.append(ev) if ev.kind == 'new' and ev.name in ('SecureCounters', 'Aggregator') else None,
                    opaque=('counter.SecureCounters.__init__', 'counter.SecureCounters.generate_blinding_shares'), cap=300)
    eng.run(init, selfcls='Aggregator')
    for ev in news:
        if ev.name == 'SecureCounters':
            rep.ob('C07.flow', 'aggregator counters', strip(ev.arg(0)) == ('sym', 'counters'), 'counters are %s' % show(ev.arg(0)), ev.loc())
    news.clear()
    f = p.fn(START)
    cfg = ('sym', f.params[1])
    eng = dc_engine(p, lambda ev: news.append(ev) if ev.kind == 'new' and ev.name == 'Aggregator' else None,
                    opaque=('data_collector.Aggregator.__init__', 'data_collector.Aggregator.get_shares'), cap=300)
    eng.run(f, selfcls='DataCollector')
    for ev in news:
        b = ev.bound
        w = strip(b.get('noise_weight', NONE))
        rep.ob('C07.flow', 'start weights', w in (('idx', cfg, C('noise_weight')),), 'weights are %s' % show(w), ev.loc())
        c = strip(b.get('counters', NONE))
        rep.ob('C07.flow', 'start counters', c[0] == 'call' and c[1].endswith('.check_start_config') and cfg in c[2], 'counters are %s' % show(c), ev.loc())
    if not news:
        raise AnalysisBroken('no aggregator is created by do_start')
    f = p.fn('node.PrivCountClient.check_start_config')
    sc = ('sym', f.params[1])
    eng = Engine(p, inline=lambda g: False, assert_inline=False, raisers=lambda n: False, track=lambda a: False)
    for s, c in eng.run(f, selfcls='DataCollector'):
        if c[0] == 'ret' and not is_const(c[1]):
            v = strip(c[1])
            ok = v[0] == 'call' and v[1] == 'counter.combine_counters' and v[2][:2] == (('idx', sc, C('counters')), ('idx', ('idx', sc, C('noise')), C('counters')))
            rep.ob('C07.flow', 'accepted counters', ok, 'accepted counters are %s' % show(v), f.loc())

    # ---- weight selection
    f = p.fn('counter.get_noise_weight')
    cf, fp = ('sym', f.params[0]), ('sym', f.params[1])
    eng = Engine(p, inline=lambda g: g.mod is f.mod, assert_inline=False, raisers=lambda n: False)
    own = 0
    star = p.fn('counter.get_noise_weight_default')
    for s, c in eng.run(f):
        if c[0] != 'ret':
            continue
        v = strip(c[1])
        has = s.facts.get(('cmp', 'in', fp, cf))
        if has is None:
            has = next((pol for k, pol in s.facts.items() if k[0] == 'isnone' and mentions(k, ('mcall', cf, 'get', (fp,), ())) or k[0] == 'isnone' and k[1] == ('idx', cf, fp)), None)
            has = None if has is None else not has
        nofp = s.facts.get(('isnone', fp)) is True
        isown = v == ('idx', cf, fp) or v[0] == 'mcall' and v[1] == cf and v[2] == 'get' and v[3][:1] == (fp,)
        dflt = lambda t: t[0] == 'mcall' and t[1] == cf and t[2] == 'get' and t[3][:1] == (C('*'),) or t == ('idx', cf, C('*'))
        if isown:
            own += 1
            ok = has is not False
        elif dflt(v):
            ok = has is False or nofp
        elif v == NONE:
            ok = (has is False or nofp) and any(k[0] == 'isnone' and dflt(k[1]) and pol for k, pol in s.facts.items())
        else:
            ok = False
        rep.ob('C07.select', show(v), ok, 'returns %s when the own entry is %s' % (show(v), {True: 'present', False: 'absent', None: 'unknown'}[has]), f.loc())
    rep.ob('C07.select', 'own entry', own > 0, 'the own weight is never used', f.loc())

    # ---- same counter name for bins and sigma
    f = p.fn('counter.combine_counters')
    B, S = ('sym', f.params[0]), ('sym', f.params[1])
    eng = Engine(p, inline=lambda g: False, assert_inline=False, raisers=lambda n: False, track=lambda a: False, zero_iter=False,
                 on_call=lambda ev: ('set', ev.recv, ev.args[0], ev.args[1]) if ev.kind == 'setitem' else None)
    n = 0
    for s, c in eng.run(f):
        if c[0] != 'ret':
            continue
        top = [l for l in s.trace if l[0] == 'set' and strip(l[1]) == strip(c[1])]
        ok = len(top) == 1
        why = 'result built in %d steps' % len(top)
        if ok:
            k, v = strip(top[0][2]), top[0][3]
            n += 1

            def sub(name, src, other):
                t = secret_named(v, s, name)
                sets = [l for l in s.trace if l[0] == 'set' and l[2] == C(name) and l[1] in (v, ('idx', top[0][1], top[0][2])) or
                        l[0] == 'set' and l[2] == C(name) and strip(l[1]) == strip(v)]
                if sets:
                    t = sets[-1][3]
                if t is None:
                    b = strip(v)
                    t = ('idx', b, C(name))
                t = strip(t)
                return t[0] == 'idx' and t[2] == C(name) and t[1][0] == 'idx' and t[1][2] == k and mentions(t[1][1], src) and not mentions(t[1][1], other)
            okb, oks = sub('bins', B, S), sub('sigma', S, B)
            ok = okb and oks
            why = '%s of a counter come from elsewhere' % ('bins' if not okb else 'sigma')
        rep.ob('C07.sigma', 'combine_counters', ok, why, f.loc())

    # ---- fingerprint
    m = p.method(A, 'set_fingerprint')
    sets = []
    eng = Engine(p, inline=lambda g: g.cls is A and g.name not in ('generate_noise', '_stop_protocol'), assert_inline=False, raisers=lambda n: False,
                 on_call=lambda ev: sets.append(ev) or 'set' if ev.kind == 'setattr' and ev.name == '.fingerprint=' else
                 'noise' if ev.kind == 'call' and ev.name.endswith('Aggregator.generate_noise') else None)
    for s, c in eng.run(m, selfcls='Aggregator'):
        if c[0] == 'ret' and 'noise' in s.trace:
            rep.ob('C07.fingerprint', 'noise after', 'set' in s.trace and s.trace.index('set') < s.trace.index('noise'), 'noise is drawn before the fingerprint is stored', m.loc())
    for ev in sets:
        rep.ob('C07.fingerprint', 'set once', ev.facts.get(('isnone', FP)) is True, 'a stored fingerprint is replaced', ev.loc())
    for g, n, v in attr_stores(p, 'fingerprint'):
        if g.cls is A:
            ok = g is init and isinstance(v, ast.Constant) and v.value is None or sq(g) in eng.inlined | {sq(m)}
            rep.ob('C07.fingerprint', 'store in ' + sq(g), ok, 'the fingerprint is changed elsewhere', g.loc(n))
    rep.assumption('random.SystemRandom().gauss implements a Gaussian')


def secret_named(v, s, name):
    while v[0] == 'copy':
        v = v[1]
    if v[0] == 'obj':
        h = s.heap.get((v, '[]', C(name)))
        if h is not None:
            return h
        for it in v[3] if len(v) > 3 else ():
            if isinstance(it, tuple) and len(it) == 2 and it[0] == C(name):
                return it[1]
    return None
