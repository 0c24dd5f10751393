"""C14: the validators are interpreted path by path.  Whenever one answers "valid", the facts
of that path (comparisons kept NaN-strict) have to contain the rule it stands for; whoever
accepts a configuration has to have had those answers, for the configuration it accepts."""
from ..util import *
from ..lin import lin

MOD, TM = 'privcount.counter.', 'privcount.traffic_model.'


def S_(x):
    return ('sym', x)


def base(t):
    """the collection a sorted/filtered/keyed collection comes from"""
    t = strip(t)
    while True:
        if t[0] == 'call' and t[1].split('.')[-1] in ('skip_missing_sigmas', 'skip_missing_bins', 'set', 'list', 'sorted', 'frozenset', 'dict', 'tuple', 'iter', 'deepcopy', 'combine_counters_keys') and t[2]:
            t = strip(t[2][0])
        elif t[0] == 'mcall' and t[2] in ('keys', 'iterkeys', 'viewkeys', 'copy', 'items', 'iteritems') and not t[3]:
            t = strip(t[1])
        else:
            return t


def lt(f, a, b):
    """a < b is known, by a comparison that a NaN cannot satisfy"""
    return f.get(('cmp', 'lt', a, b)) is True


def le(f, a, b):
    return f.get(('cmp', 'le', a, b)) is True or lt(f, a, b) or f.get(('cmp', 'eq', a, b)) is True or f.get(('cmp', 'eq', b, a)) is True


def ge_int(f, a, b):
    """b <= a for values that are compared with integers"""
    return le(f, b, a) or f.get(('cmp', 'lt', a, b)) is False


def gt_int(f, a, n):
    """a > n"""
    return f.get(('cmp', 'le', a, C(n))) is False or lt(f, C(n), a) or le(f, C(n + 1), a) or f.get(('cmp', 'lt', a, C(n + 1))) is False


def le_int(f, a, b):
    return le(f, a, b) or f.get(('cmp', 'lt', b, a)) is False


def zero(f, v):
    return any(le(f, z, v) for z in (C(0), C(0.0)))


def calls(f, name, pol=True):
    return [k[1] for k, v in f.items() if k[0] == 'truthy' and v is pol and k[1][0] == 'call' and k[1][1].split('.')[-1] == name]


def known_true(f, name, *args):
    """a call name(args...) is known to have answered yes"""
    return any(all(strip(a) == b for a, b in zip(c[2], args)) and len(c[2]) >= len(args) for c in calls(f, name))


def check(p, rep):
    rep.rule('C14.bins', 'counters accepted for collection have bins that do not overlap and can count', 3)
    rep.rule('C14.names', 'unknown counters are accepted only where they are not collected', 1)
    rep.rule('C14.sigmas', 'every accepted sigma is a number that is not negative', 1)
    rep.rule('C14.pairs', 'exactly the same counters have bins and sigmas', 1)
    rep.rule('C14.weights', 'accepted noise weights are bounded, one by one and in sum, for the number of collectors that is needed', 3)
    rep.rule('C14.model', 'an accepted traffic model is complete and its probabilities sum to one', 8)
    rep.rule('C14.start', 'a client starts only with a complete start configuration that passed every check', 5)
    rep.rule('C14.client', 'data collectors never accept unknown counters', 1)
    rep.rule('C14.server', 'the tally server only adopts a configuration that passed the same checks', 2)

    iters = []

    def mk(**k):
        del iters[:]
        return Engine(p, inline=lambda g: False, assert_inline=False, raisers=lambda n: False, strict_cmp=True,
                      on_iter=lambda ends, it, e, lid, poss, n, fn: iters.append((ends, it, e, lid, poss, n, fn)), **k)

    def fn(q):
        f = p.fn(q)
        if f is None:
            raise AnalysisBroken('anchor vanished: ' + q)
        return f

    def accepted(f, eng=None, **k):
        """facts of every path on which f answers yes"""
        eng = eng or mk()
        out = []
        for s, c in eng.run(f, **k):
            if c[0] != 'ret':
                continue
            for s2, b in eng.branch(s, c[1]):
                if b:
                    out.append(s2)
        if not out:
            raise AnalysisBroken('%s never answers yes' % f.qual)
        rep.count('accepting paths', len(out))
        return out

    # ---- sigmas
    f = fn(MOD + 'check_sigmas_config')
    sig, unk = (S_(x) for x in f.params[:2])
    for s in accepted(f, mk(zero_iter=False)):
        v = ('idx', ('idx', sig, ('elem', sig)), C('sigma'))
        rep.ob('C14.sigmas', 'check_sigmas_config', zero(s.facts, v), 'a sigma is accepted that may be negative or not a number', f.loc())
        rep.ob('C14.names', 'check_sigmas_config', truth_of(s.facts, unk) is True or known_true(s.facts, 'check_counter_names', sig),
               'unknown counters are accepted', f.loc())

    # ---- bins
    f = fn(MOD + 'check_bins_config')
    bins, unk = (S_(x) for x in f.params[:2])
    eng = mk(zero_iter=False)
    acc = accepted(f, eng)
    its = list(iters)
    inner = ('idx', ('idx', bins, ('elem', bins)), C('bins'))

    def is_bins(t):
        return base(t) == inner
    for s in acc:
        ok = any(k[0] == 'cmp' and k[1] == 'lt' and v is True and k[2][0] == 'idx' and k[2][2] == C(0) and k[3] == ('idx', k[2][1], C(1))
                 and k[2][1][0] == 'elem' and is_bins(k[2][1][1]) for k, v in s.facts.items())
        rep.ob('C14.bins', 'width', ok, 'a bin is accepted whose lower bound may not be below its upper bound', f.loc())
        rep.ob('C14.names', 'check_bins_config', truth_of(s.facts, unk) is True or known_true(s.facts, 'check_counter_names', bins),
               'unknown counters are accepted', f.loc())
        rep.ob('C14.bins', 'count', truth_of(s.facts, unk) is True or known_true(s.facts, 'check_bin_count_matches_name', bins),
               'the number of bins need not match the counter', f.loc())

    def bound_ok(facts, lo, hi):
        """lo is not below hi"""
        return le(facts, hi, lo) or facts.get(('cmp', 'lt', lo, hi)) is False

    def in_order(facts, e, L):
        """the bin e does not begin before L ends"""
        return bound_ok(facts, ('idx', e, C(0)), ('idx', L, C(1)))
    loops = {}
    for ends, it, e, lid, poss, n, g in its:
        if it is None or e is None:
            continue
        src = [x for x in subterms(it) if x[0] == 'call' and x[1] == 'sorted' and x[2] and is_bins(x[2][0])]
        if not src:
            continue
        e = strip(e)
        es = [e] + [x for x in e[1]] if e[0] == 'tuple' else [e]
        for s in ends:
            L = [('loopvar', v, lid) for v, (k, d) in poss.items() if strip(s.env.get(v, NONE)) in es and k == 'set']
            ok = any(s.facts.get(('isnone', x)) is True or in_order(s.facts, z, x) for x in L for z in es)
            for z in es:                                # the upper bound of the last bin
                U = [('loopvar', v, lid) for v, (k, d) in poss.items() if strip(s.env.get(v, NONE)) == ('idx', z, C(1)) and k == 'set']
                ok = ok or any(s.facts.get(('isnone', x)) is True or bound_ok(s.facts, ('idx', z, C(0)), x) for x in U)
            if e[0] == 'tuple' and len(e[1]) == 2:      # pairs of neighbours
                a, b = e[1]
                ok = ok or in_order(s.facts, strip(b), strip(a)) and it[0] == 'call' and it[1] in ('zip', 'itertools.izip') and nxt(it[2])
                if any(x[0] == 'call' and x[1] == 'enumerate' for x in subterms(it)):
                    ok = ok or not gt_int(s.facts, strip(a), 0) and s.facts.get(('cmp', 'lt', C(0), strip(a))) is False or s.facts.get(('truthy', strip(a))) is False
            for k, v in s.facts.items():                # index and next index
                if k[0] == 'cmp' and k[2][0] == 'idx' and k[3][0] == 'idx':
                    for lo, hi in ((k[2], k[3]), (k[3], k[2])):
                        if lo[2] != C(0) or hi[2] != C(1) or hi[1][0] != 'idx' or not bound_ok(s.facts, lo, hi) or not is_bins(hi[1][1]):
                            continue
                        if lo[1][0] == 'idx' and hi[1][1] == lo[1][1] and lin(('bin', 'Sub', lo[1][2], hi[1][2])) == {None: 1}:
                            ok = True
                        if e[0] == 'tuple' and lo[1] == strip(e[1][-1]) and lin(('bin', 'Sub', e[1][0], hi[1][2])) == {None: 1}:
                            ok = True
            loops.setdefault((g.loc(n)), []).append(ok)
    rep.ob('C14.bins', 'sorted', bool(loops), 'the bins of a counter are not compared in order', f.loc())
    if loops:
        rep.ob('C14.bins', 'overlap', any(all(v) for v in loops.values()), 'a bin is accepted that begins before the bin below it ends', sorted(loops)[0])

    # ---- names and numbers of bins
    f = fn(MOD + 'check_counter_names')
    a = S_(f.params[0])
    for s in accepted(f, mk(zero_iter=False)):
        ok = any(v and k[0] == 'cmp' and k[1] == 'in' and k[2] == ('elem', a) and valid_set(k[3]) for k, v in s.facts.items())
        rep.ob('C14.names', 'check_counter_names', ok, 'a counter is known without being in the set of counters', f.loc())
    f = fn(MOD + 'check_bin_count_matches_name')
    a = S_(f.params[0])
    eng = mk(zero_iter=False)
    acc = accepted(f, eng)
    n = 0
    for ends, it, e, lid, poss, node, g in list(iters):
        if it is None or base(it) != a:
            continue
        for s in ends:
            n += 1
            num = ('len', ('idx', ('idx', a, e), C('bins')))
            single = any(v is True and k[0] == 'truthy' and k[1][0] == 'mcall' and k[1][2] == 'endswith' for k, v in s.facts.items())
            one = s.facts.get(('cmp', 'eq', num, C(1))) is True
            more = gt_int(s.facts, num, 1)
            rep.ob('C14.bins', 'number', one if single else more, 'a %s counter is accepted with the wrong number of bins' % ('single' if single else 'multiple'), g.loc(node))
    if not n:
        raise AnalysisBroken('check_bin_count_matches_name looks at no counter')

    # ---- the pair
    f = fn(MOD + 'check_counters_config')
    b, sg, unk = (S_(x) for x in f.params[:3])
    for s in accepted(f):
        for nm, args in (('check_bins_config', (b, unk)), ('check_sigmas_config', (sg, unk)), ('check_combined_counters', (b, sg))):
            ok = known_true(s.facts, nm, *args) or nm != 'check_combined_counters' and known_true(s.facts, nm, args[0]) and \
                all(len(c[2]) < 2 or strip(c[2][1]) in (unk, FALSE) for c in calls(s.facts, nm))
            rep.ob('C14.pairs', nm, ok, 'counters are accepted without %s' % nm, f.loc())
    f = fn(MOD + 'check_combined_counters')
    b, sg = (S_(x) for x in f.params[:2])
    for s in accepted(f):
        got = set()
        for k, v in s.facts.items():
            if k[0] == 'cmp' and k[1] == 'eq' and v and k[2][0] == 'len' and k[3][0] == 'len':
                for x, y in ((k[2][1], k[3][1]), (k[3][1], k[2][1])):
                    if x[0] == 'call' and x[1].split('.')[-1] == 'combine_counters' and x[2][:2] == (b, sg):
                        got.add(base(y))
        rep.ob('C14.pairs', 'check_combined_counters', got == {b, sg}, 'counters with only bins or only a sigma are accepted', f.loc())
    f = fn(MOD + 'combine_counters')
    b, sg = (S_(x) for x in f.params[:2])
    eng = mk(zero_iter=False)
    for s, c in eng.run(f):
        if c[0] != 'ret':
            continue
        keys = {k[2] for k in s.heap if len(k) == 3 and k[1] == '[]' and k[0] == c[1]}
        ok = bool(keys) and all(any(is_common2(x[1], b, sg) for x in subterms(k) if x[0] == 'elem') for k in keys)
        rep.ob('C14.pairs', 'combine_counters', ok, 'the combined counters are not those with both bins and a sigma', f.loc())

    # ---- noise weights
    f = fn(MOD + 'check_dc_threshold')
    a = S_(f.params[0])
    for s in accepted(f):
        top = [k for k, v in s.facts.items() if k[0] == 'cmp' and (k[2] == a and is_const(k[3]) and k[3][2] and k[3][2] > 1 or k[3] == a and is_const(k[2]) and k[2][2] and k[2][2] > 1)]
        rep.ob('C14.weights', 'threshold', gt_int(s.facts, a, 0) and any(le_int(s.facts, a, x) for k in top for x in k[2:4]),
               'a threshold that is not positive, or not bounded, is accepted', f.loc())
    f = fn(MOD + 'check_noise_weight_value')
    a = S_(f.params[0])
    for s in accepted(f):
        mx = [x for k in s.facts for x in k[2:4] if k[0] == 'cmp' and isinstance(x, tuple) and x[0] == 'call' and x[1].endswith('.max_tally_counter_value')]
        rep.ob('C14.weights', 'value', zero(s.facts, a) and any(le(s.facts, a, x) for x in mx), 'a weight is accepted that may be negative, too large or not a number', f.loc())
    names = ('check_noise_weight_value', 'check_noise_weight_sum')
    f = fn(MOD + 'check_noise_weight_sum')
    a = S_(f.params[0])
    for s in accepted(f):
        rep.ob('C14.weights', 'sum value', known_true(s.facts, names[0], a), 'a sum of weights is accepted without check', f.loc())
    f = fn(MOD + 'check_noise_weight_config')
    w, t = (S_(x) for x in f.params[:2])
    eng = mk(zero_iter=False)
    for s in accepted(f, eng):
        fa = s.facts
        has = [v for k, v in fa.items() if k[0] == 'truthy' and k[1][0] == 'call' and k[1][1].endswith('.has_noise_weight_default') and k[1][2] == (w,)]
        default = has[0] if has else None
        rep.ob('C14.weights', 'dc_threshold', known_true(fa, 'check_dc_threshold', t), 'the threshold is not checked', f.loc())
        rep.ob('C14.weights', 'enough', default is True or ge_int(fa, ('len', w), t), 'fewer weights than collectors are accepted', f.loc())
        vals = [('idx', w, ('elem', w)), ('elem', ('mcall', w, 'values', (), ())), ('elem', ('mcall', w, 'itervalues', (), ()))]
        rep.ob('C14.weights', 'each', any(known_true(fa, names[0], x) for x in vals), 'a weight is accepted without check', f.loc())
        sums = [x for nm in names for c in calls(fa, nm) for x in [strip(c[2][0])] if any(y[0] in ('call', 'sum') and 'sum' in (y[0], y[1]) for y in subterms(x))]
        ok = False
        for x in sums:
            dflt = [y for y in subterms(x) if y[0] == 'call' and y[1].endswith('.get_noise_weight_default') or y[0] == 'mcall' and y[1] == w and y[2] == 'get']
            l = lin(x)
            tot = [y for y in l if y is not None and y[0] in ('call', 'sum') and 'sum' in (y[0], y[1]) and mentions(y, w)]
            rest = {k: v for k, v in l.items() if k not in tot}
            if len(tot) != 1 or l[tot[0]] != 1:
                continue
            if default is False:
                ok = ok or not rest
            else:
                for d in dflt:
                    ok = ok or rest in ({d: -1, ('bin', 'Mult', t, d): 1}, {d: -1, ('bin', 'Mult', d, t): 1}, {('bin', 'Mult', ('bin', 'Sub', t, C(1)), d): 1}, {('bin', 'Mult', d, ('bin', 'Sub', t, C(1))): 1})
        rep.ob('C14.weights', 'sum', ok, 'the sum of weights that may be used is not bounded (checked: %s)' % '; '.join(show(x)[:80] for x in sums), f.loc())

    # ---- traffic models
    f = fn(TM + 'check_traffic_model_config')
    m = S_(f.params[0])
    parts = {}
    for s in accepted(f):
        fa = s.facts
        rep.ob('C14.model', 'missing', fa.get(('isnone', m)) is False or truth_of(fa, m) is True, 'no model is accepted as a model', f.loc())
        there = {}
        for k in ('packet_model', 'stream_model'):
            there[k] = fa.get(('cmp', 'in', C(k), m))
            okc = [c for c in fa if c[0] == 'truthy' and fa[c] and c[1][0] == 'call' and c[1][2] and strip(c[1][2][0]) == ('idx', m, C(k))]
            for c in okc:
                parts[k] = c[1][1]
            rep.ob('C14.model', k, there[k] is False or bool(okc), 'a %s is accepted without check' % k, f.loc())
        rep.ob('C14.model', 'one', True in there.values(), 'an empty model is accepted', f.loc())
    subs = set()
    for k, q in sorted(parts.items()):
        g = p.fn(q if q in p.funcs else 'privcount.' + q)
        if g is None:
            raise AnalysisBroken('check of %s vanished' % k)
        m = S_(g.params[0])
        obs = {'packet_model': ('+', '-', 'F'), 'stream_model': ('$', 'F')}[k]
        for s in accepted(g):
            fa = s.facts
            cs = {c[1].split('.')[-1] for c in (x[1] for x in fa if x[0] == 'truthy' and fa[x] and x[1][0] == 'call') if c[2] and strip(c[2][0]) == m}
            subs |= {c for c in cs}
            want = {'__check_model_common_keys', '__check_model_common_start', '__check_model_common_transition', '__check_model_common_emission'}
            rep.ob('C14.model', k + ' parts', want <= cs, 'a %s is accepted without %s' % (k, sorted(want - cs)), g.loc())
            space = ('idx', m, C('observation_space'))
            got = ('mcall', m, 'get', (C('observation_space'),), ())
            if fa.get(('isnone', got)) is False or any(fa.get(('cmp', 'in', C(o), got)) is True for o in obs):
                space = got
            elif fa.get(('isnone', got)) is True:
                continue
            rep.ob('C14.model', k + ' observations', all(fa.get(('cmp', 'in', C(o), space)) is True or fa.get(('cmp', 'in', C('observation_space'), m)) is False for o in obs),
                   'a %s is accepted without the observations %s' % (k, obs), g.loc())
    g = fn(TM + '__check_model_common_keys')
    m = S_(g.params[0])
    for s in accepted(g):
        need = ('state_space', 'observation_space', 'emission_probability', 'transition_probability', 'start_probability')
        rep.ob('C14.model', 'keys', all(s.facts.get(('cmp', 'in', C(x), m)) is True for x in need), 'an incomplete model is accepted', g.loc())
    for nm, key in (('start', 'start_probability'), ('transition', 'transition_probability')):
        g = fn(TM + '__check_model_common_' + nm)
        m = S_(g.params[0])
        tab = ('idx', m, C(key))
        spc = ('idx', m, C('state_space'))
        eng = mk(zero_iter=False)
        for s in accepted(g, eng):
            fa = s.facts
            if fa.get(('cmp', 'in', C(key), m)) is False:
                continue
            rep.ob('C14.model', nm + ' states', fa.get(('cmp', 'in', ('elem', tab), spc)) is True, 'a state is used that is not in the state space', g.loc())
            if nm == 'start':
                rep.ob('C14.model', 'start sum', any(sums_to_one(c, tab) for c in calls(fa, 'float_value_is_close')), 'start probabilities need not sum to one', g.loc())
        if nm != 'transition':
            continue
        row = ('idx', tab, ('elem', tab))
        n = 0
        for ends, it, e, lid, poss, node, h in list(iters):
            if it is None:
                continue
            for s in ends:
                if any(is_const(x) and x == FALSE for v, x in s.env.items() if v in poss):
                    continue        # this iteration rejects
                n += 1
                if base(it) == row:
                    rep.ob('C14.model', 'transition target', s.facts.get(('cmp', 'in', ('elem', row), spc)) is True, 'a transition to an unknown state is accepted', h.loc(node))
                elif base(it) == tab:
                    end = s.facts.get(('cmp', 'in', C('End'), ('elem', tab))) is True
                    rep.ob('C14.model', 'transition sum', end or any(sums_to_one(c, row) or strip(c[2][0]) == C(0.0) for c in calls(s.facts, 'float_value_is_close')),
                           'the transition probabilities of a state need not sum to one', h.loc(node))
        if not n:
            raise AnalysisBroken('no transition is checked')
    g = fn(TM + '__check_model_common_emission')
    m = S_(g.params[0])
    tab = ('idx', m, C('emission_probability'))
    row = ('idx', tab, ('elem', tab))
    obs, cell = ('elem', row), ('idx', row, ('elem', row))
    for s in accepted(g, mk(zero_iter=False)):
        fa = s.facts
        if fa.get(('cmp', 'in', C('emission_probability'), m)) is False:
            continue
        rep.ob('C14.model', 'emission states', fa.get(('cmp', 'in', ('elem', tab), ('idx', m, C('state_space')))) is True, 'an emission of an unknown state is accepted', g.loc())
    n = 0
    for ends, it, e, lid, poss, node, h in list(iters):
        if it is None:
            continue
        for s in ends:
            fa = s.facts
            if any(is_const(x) and x == FALSE for v, x in s.env.items() if v in poss):
                continue
            if base(it) == row:
                n += 1
                rep.ob('C14.model', 'emission target', fa.get(('cmp', 'in', obs, ('idx', m, C('observation_space')))) is True, 'an emission of an unknown observation is accepted', h.loc(node))
                for o, k in (('F', 1), ('$', 4), ('+', 4), ('-', 4)):
                    if possible(fa, obs, o):
                        ok = any(q[0] == 'cmp' and q[1] == 'eq' and v is True and {q[2], q[3]} == {('len', cell), C(k)} for q, v in fa.items())
                        rep.ob('C14.model', 'emission ' + o, ok, 'an emission of %s is accepted without exactly %d parameters' % (o, k), h.loc(node))
            elif base(it) == tab:
                ok = False
                for c in calls(fa, 'float_value_is_close'):
                    a, b = (strip(x) for x in c[2][:2])
                    for a, b in ((a, b), (b, a)):
                        if b in (C(1.0), C(1)) and a[0] == 'sum' and any(strip_casts(x) == ('idx', cell, C(0)) for x in subterms(a)):
                            ok = True
                        if a == C(0.0) or a == C(0):
                            ok = True       # no observation at all
                rep.ob('C14.model', 'emission sum', ok, 'the emission probabilities of a state need not sum to one', h.loc(node))
    if not n:
        raise AnalysisBroken('no emission is checked')
    g = fn(TM + 'float_value_is_close')
    a, b = (S_(x) for x in g.params[:2])
    for s in accepted(g):
        ok = any(k[0] == 'cmp' and v and k[1] in ('lt', 'le') and k[2][:2] == ('call', 'abs') and lin(k[2][2][0]) in (lin(('bin', 'Sub', a, b)), lin(('bin', 'Sub', b, a))) for k, v in s.facts.items())
        rep.ob('C14.model', 'close', ok, 'values that are far apart, or not numbers, are close', g.loc())

    # ---- the start configuration
    node = p.cls('PrivCountClient')
    f = p.method(node, 'check_start_config')
    if f is None:
        raise AnalysisBroken('anchor vanished: PrivCountClient.check_start_config')
    cfg, unk = (S_(x) for x in f.params[1:3])
    eng = mk()
    n = 0
    for s, c in eng.run(f, selfcls='DataCollector'):
        if c[0] != 'ret':
            continue
        for s2, b in eng.branch(s, c[1]):
            if c[1] == NONE or not b:
                continue
            n += 1
            fa = s2.facts
            it = lambda k: ('idx', cfg, C(k))
            cc = [x for x in calls(fa, 'check_counters_config') if x[2][:2] == (it('counters'), ('idx', it('noise'), C('counters')))]
            def third(x):
                return strip(x[2][2]) if len(x[2]) > 2 else dict(x[3]).get('allow_unknown_counters', FALSE)
            rep.ob('C14.start', 'counters', any(third(x) in (unk, FALSE) for x in cc), 'a start is accepted without checking its counters', f.loc())
            rep.ob('C14.start', 'weights', known_true(fa, 'check_noise_weight_config', it('noise_weight'), it('dc_threshold')), 'a start is accepted without checking its noise weights', f.loc())
            rep.ob('C14.start', 'model', fa.get(('cmp', 'in', C('traffic_model'), cfg)) is False or truth_of(fa, unk) is True or
                   known_true(fa, 'check_traffic_model_config', it('traffic_model')), 'a start is accepted without checking its traffic model', f.loc())
            miss = [k for k in ('counters', 'noise', 'noise_weight', 'dc_threshold', 'collect_period') if fa.get(('cmp', 'in', C(k), cfg)) is not True]
            rep.ob('C14.start', 'complete', not miss, 'a start is accepted without %s' % miss, f.loc())
            rep.ob('C14.start', 'result', c[1][0] == 'call' and c[1][1].split('.')[-1] == 'combine_counters' and c[1][2][:2] == (it('counters'), ('idx', it('noise'), C('counters'))),
                   'a start is accepted with counters %s' % show(c[1])[:100], f.loc())
    if not n:
        raise AnalysisBroken('check_start_config accepts nothing')
    for role, allow in (('DataCollector', False), ('ShareKeeper', True)):
        cls = p.cls(role)
        found = False
        for g in p.funcs.values():
            if g.cls is not cls:
                continue
            for nd, k, t in p.calls(g):
                if k == 'func' and t is f:
                    found = True
                    kw = {x.arg: x.value for x in nd.keywords}
                    v = kw.get('allow_unknown_counters', nd.args[1] if len(nd.args) > 1 else None)
                    ok = allow or v is None or isinstance(v, ast.Constant) and v.value is False or isinstance(v, ast.Name) and v.id == 'False'
                    rep.ob('C14.client', sq(g), ok, '%s accepts unknown counters' % role, g.loc(nd))
                    if len(nd.args) < 1 and 'start_config' not in kw:
                        rep.ob('C14.client', sq(g), False, 'no configuration is checked', g.loc(nd))
        rep.ob('C14.client', role, found, '%s never checks its start configuration' % role, cls.methods['__init__'].loc())

    # ---- the tally server
    ts = p.cls('TallyServer')
    f = p.method(ts, 'refresh_config')
    stores = []

    def oc(ev):
        if ev.kind == 'setattr' and ev.name == '.config=':
            stores.append(ev)
    eng = Engine(p, inline=lambda g: False, assert_inline=True, raisers=lambda n: False, strict_cmp=True, on_call=oc, zero_iter=False,
                 track=lambda a: any(x[0] == 'call' and x[1].split('.')[-1] in ('check_counters_config', 'check_noise_weight_config') for x in subterms(a)))
    eng.run(f, selfcls='TallyServer')
    if not stores:
        raise AnalysisBroken('TallyServer.refresh_config adopts no configuration')
    for ev in stores:
        V = ev.value
        h = ev.st.heap

        def cur(k, b=V):
            return strip(h.get((b, '[]', C(k)), ('idx', b, C(k))))
        cc = calls(ev.facts, 'check_counters_config')
        noise = cur('noise')
        ok = any((len(c[2]) < 3 or strip(c[2][2]) == FALSE) and not any(v != FALSE for k, v in c[3] if k == 'allow_unknown_counters') and
                 strip(c[2][0]) == cur('counters') and (strip(c[2][1]) == ('idx', noise, C('counters')) or strip(c[2][1]) == strip(h.get((noise, '[]', C('counters')), NONE))
                 or 'counters' in show(c[2][1])) for c in cc)
        rep.ob('C14.server', 'counters', ok, 'a configuration is adopted without checking its counters', ev.loc())
        rep.ob('C14.server', 'weights', known_true(ev.facts, 'check_noise_weight_config', cur('noise_weight'), cur('dc_threshold')), 'a configuration is adopted without checking its noise weights', ev.loc())
    rep.count('configurations adopted by the tally server', len(stores))
    rep.assumption('emission probabilities are only checked to be checked (their sum is a runtime quantity of nested lists)')


def nxt(args):
    """zip(X, X[1:]) or zip(X[:-1], X[1:])"""
    if len(args) != 2:
        return False
    return 'slice' in repr(args[1]) or 'islice' in repr(args[1])


def valid_set(t):
    return any(x[0] == 'call' and x[1].endswith('.get_valid_counters') for x in subterms(t)) or 'PRIVCOUNT_COUNTER_EVENTS' in show(t)


def is_common2(t, P, Q):
    t = strip(t)
    while t[0] == 'call' and t[1] in ('set', 'list', 'sorted', 'frozenset', 'tuple') and t[2]:
        t = strip(t[2][0])
    if t[0] == 'call' and t[1].endswith(('common_counters', '_common_keys')):
        return {base(x) for x in t[2][:2]} == {P, Q}
    if t[0] == 'mcall' and t[2] == 'intersection':
        return {base(t[1]), base(t[3][0])} == {P, Q}
    if t[0] == 'bin' and t[1] == 'BitAnd':
        return {base(t[2]), base(t[3])} == {P, Q}
    return False


def sums_to_one(c, tab):
    """close(sum of all values of tab, 1)"""
    a, b = strip(c[2][0]), strip(c[2][1])
    if is_const(a):
        a, b = b, a
    return b in (C(1.0), C(1)) and (a[0] == 'sum' and a[1] in (C(0.0), C(0)) and len(a[2]) == 1 and strip_casts(list(a[2])[0]) == ('idx', tab, ('elem', tab)) and base(a[3]) == tab
                                    or a[0] == 'call' and a[1] in ('sum', 'math.fsum') and mentions(a, tab))


def possible(facts, t, o):
    """can t be the text o, by these facts?"""
    for k, v in facts.items():
        if k[0] == 'cmp' and k[1] == 'eq' and t in k[2:]:
            x = k[3] if k[2] == t else k[2]
            if is_const(x) and (x == C(o)) != v:
                return False
        if k[0] == 'cmp' and k[1] == 'in' and k[2] == t:
            l = k[3]
            items = l[1] if l[0] in ('tuple', 'list', 'set') else l[3] if l[0] == 'obj' and len(l) > 3 else None
            if isinstance(items, (tuple, frozenset)) and all(isinstance(x, tuple) and is_const(x) for x in items) and (C(o) in items) != v:
                return False
    return True
