"""C17: the path conditions of the increment of a counter, of the check of a counter's bins and of the check of the number of
bins, evaluated for every order that the bounds and the value can have (they only compare them), and the bins that
every increment of the collector passes against the number of bins its counter may have."""
import itertools
from ..sym import Engine
from ..util import *
from .. import terms as T
from ..terms import strip as S
from ..world import World, Unknown
from ..counting import table
from . import c32

NAN, INF = float('nan'), float('inf')


def check(p, rep):
    rep.rule('C17.inside', 'a value is counted in a bin exactly if it is not below its lower bound and below its upper bound, or that is infinite', 1)
    rep.rule('C17.single', 'a counter of one bin takes no bin value, every other counter takes one', 1)
    rep.rule('C17.every', 'every bin of the counter is looked at', 1)
    rep.rule('C17.disjoint', 'bins are accepted exactly if each can hold a value and no two overlap', 2)
    rep.rule('C17.number', 'a counter has one bin exactly if it counts or sums, and not if it is a histogram', 2)
    rep.rule('C17.asked', 'every increment passes a bin value exactly if its counter is a histogram', 100)
    increment(p, rep)
    bins(p, rep)
    number(p, rep)
    asked(p, rep)
    rep.assumption('the bins of a counter are [lower, upper, count] lists of numbers (C14 decides that configured bins are checked)')


def is_bins(t, counters, name=None):
    """the list of bins of one of the counters"""
    t = S(t)
    return t[0] == 'idx' and S(t[2]) == T.C('bins') and S(t[1])[0] == 'idx' and S(S(t[1])[1]) == counters and (name is None or S(S(t[1])[2]) == name)


def over(t):
    """the list that is gone through"""
    t = S(t)
    while True:
        if t[0] == 'call' and t[1] in ('list', 'tuple', 'iter', 'sorted', 'reversed', 'enumerate', 'copy.copy', 'copy.deepcopy') and t[2]:
            t = S(t[2][0])
        elif t[0] == 'call' and t[1] in ('xrange', 'range') and len(t[2]) == 1 and S(t[2][0])[0] == 'len':
            t = S(S(t[2][0])[1])
        elif t[0] == 'idx' and t[2][0] == 'slice':
            t = S(t[1])
        elif t[0] == 'mcall' and t[2] in ('keys', 'items', 'iteritems', 'iterkeys'):
            t = S(t[1])
        elif t[0] == 'indices':
            t = S(t[1])
        else:
            return t


def partial(t):
    """whether only a part of the list is gone through"""
    t = S(t)
    return any(x[0] == 'slice' and any(y not in (None, T.NONE) for y in x[1:]) or x[0] == 'call' and x[1] in ('xrange', 'range') and
               (len(x[2]) != 1 or S(x[2][0])[0] != 'len') for x in T.subterms(t))


# ---------------------------------------------------------------- the increment

def limits(conditions):
    """numbers around the constants that values are compared with"""
    out = set()
    for k in conditions:
        for x in T.subterms(k):
            if isinstance(x, tuple) and T.is_const(x):
                c = T.cval(x)
                if isinstance(c, (int, float)) and not isinstance(c, bool) and c == c and abs(c) not in (INF, 0, 1, 2, 0.5):
                    out.update((c - abs(c) / 8.0, c * 1.0, c + abs(c) / 8.0, 2.0 * c, 3.0 * c))
    return tuple(sorted(out))[:20]


def increment(p, rep):
    sc = p.cls('SecureCounters')
    f = p.method(sc, 'increment')
    if f.params[:4] != ['self', 'counter_name', 'bin', 'inc']:
        raise AnalysisBroken('increment has other parameters')
    COUNTERS, NAME = ('attr', ('self', 'SecureCounters'), 'counters'), ('sym', 'counter_name')
    iters, stores = [], []

    def on_call(ev):
        if ev.kind == 'setitem':
            stores.append((S(ev.recv), ev.loc()))
            return ('store', S(ev.recv))
        return None

    def on_iter(ends, it, elemv, lid, poss, n, fn):
        x = over(it)
        if is_bins(x, COUNTERS, NAME):
            brks, rest = eng.loop_left
            left = list(brks) + [s for s, c in rest if c[0] == 'ret']
            iters.append((ends + left, x, partial(it), f.loc(), left))
    eng = Engine(p, inline=lambda g: g.mod is f.mod, assert_inline=True, raisers=lambda n: False, strict_cmp=True, on_call=on_call, on_iter=on_iter, zero_iter=False)
    eng.run(f, selfcls='SecureCounters')
    if not iters:
        raise AnalysisBroken('increment does not go through the bins of its counter')
    bt = iters[0][1]
    ELEM, AT = ('elem', bt), ('idx', bt, ('elem', ('indices', bt)))
    into = [x for x, _ in stores if x in (ELEM, AT) or x[0] == 'idx' and x[1] == bt]
    if not into:
        if any(pt for _, _, pt, _, _ in iters):
            rep.ob('C17.every', 'loop', False, 'only a part of the bins is looked at', iters[0][3])
        raise AnalysisBroken('increment stores into no bin of its counter')
    ends = [s for e, _, _, _, _ in iters for s in e]
    gc = {'privcount.counter.SecureCounters.SINGLE_BIN': T.C(NAN)}

    def outcome(nbins, lo, hi, v):
        """does every path of this world count / may one count"""
        b = [lo, hi, 5]
        lst = [b] + [[NAN, NAN, 0]] * (nbins - 1)
        w = World({COUNTERS: {'K': {'bins': lst}}, NAME: 'K', ('sym', 'bin'): v, ('sym', 'inc'): 3, bt: lst, ELEM: b, AT: b, ('elem', ('indices', bt)): 0}, gc)
        got = set()
        for s in ends:
            ok, unk = w.possible(s.facts)
            if ok and unk:
                raise AnalysisBroken('increment depends on %s' % T.show(unk[0]))
            if ok:
                got.add(any(isinstance(x, tuple) and x[0] == 'store' and (x[1] in (ELEM, AT)) for x in s.trace))
        return got
    vals = (-INF, -1.0, 0.0, 0.5, 1.0, 2.0, INF)
    los, his = (-INF, 0.0, 1.0), (0.5, 1.0, 2.0, INF)
    more = limits(k for s in ends for k in s.facts)
    vals, los, his = vals + more, los + more, his + more
    seen = {}
    for nb in (2, 3):
        for lo, hi, v in itertools.product(los, his, vals):
            if not lo < hi:
                continue
            want = v >= lo and (v < hi or hi == INF)
            kind = 'below' if v < lo else 'at the lower bound' if v == lo else 'at the infinite bound' if v == INF == hi else 'above' if v > hi else \
                'at the upper bound' if v == hi else 'inside'
            seen.setdefault(kind, []).append((outcome(nb, lo, hi, v) == {want}, lo, hi, v))
    for kind, l in sorted(seen.items()):
        bad = [x for x in l if not x[0]]
        rep.ob('C17.inside', kind, not bad, 'value %s and bin [%s, %s]' % (bad[0][3], bad[0][1], bad[0][2]) if bad else '', iters[0][3])
    bad = None
    for lo, hi in ((-INF, INF), (0.0, INF), (1.0, 2.0), (0.0, 1.5), (0.0, 1.0), (1.5, INF)):
        want = lo <= 1.0 and (1.0 < hi or hi == INF)
        if outcome(1, lo, hi, NAN) != {want}:
            bad = 'a count and bin [%s, %s]' % (lo, hi)
        if True in outcome(1, lo, hi, 1.0):
            bad = 'a value is counted in a counter of one bin'
    rep.ob('C17.single', 'one bin', bad is None, bad, iters[0][3])
    bad = [v for n in (2, 3) for lo, hi in ((-INF, INF), (0.0, INF), (0.0, 1.0), (1.0, 2.0)) if True in outcome(n, lo, hi, NAN)]
    rep.ob('C17.single', 'many bins', not bad, 'no value is counted in a counter of many bins', iters[0][3])
    # the loop is left early only once a value has been counted
    early = None
    for e, x, part, loc, left in iters:
        if part:
            early = 'only a part of the bins is looked at'
        for s in left:
            if not any(isinstance(y, tuple) and y[0] == 'store' and y[1] in (ELEM, AT) for y in s.trace):
                early = 'bins after one that does not hold the value are not looked at'
    rep.ob('C17.every', 'loop', early is None, early, iters[0][3])


# ---------------------------------------------------------------- accepted bins

def bins(p, rep):
    f = p.fn('counter.check_bins_config')
    par = f.params[0]
    CFG = ('sym', par)
    loops = []

    def on_iter(ends, it, elemv, lid, poss, n, fn):
        if is_bins(over(it), CFG):
            x = over(it)
            loops.append(([(dict(s.facts), {v: s.env.get(v) for v in poss}) for s in ends], it, x, lid, dict(eng.loop_init), list(poss), f.loc()))
    eng = Engine(p, inline=lambda g: g.mod is f.mod, assert_inline=False, raisers=lambda n: False, strict_cmp=True, on_iter=on_iter, zero_iter=False)
    res = eng.run(f)
    if not loops:
        raise AnalysisBroken('check_bins_config does not go through the bins')
    bad = {}
    nw = 0
    for ends, it, x, lid, init, carried, loc in loops:
        elem = ('elem', x)
        asort = S(it)[0] == 'call' and S(it)[1] == 'sorted' and not any(k == 'reverse' and v != T.FALSE for k, v in S(it)[3])
        if not asort:
            asort = 'sorted' in T.show(it)
        rep.ob('C17.disjoint', 'sorted', asort, 'bins that are not in order are compared with the wrong neighbour', loc)
        for _, env in ends:
            for v, t in env.items():
                if t is not None and T.is_const(t) and isinstance(T.cval(t), bool):
                    raise AnalysisBroken('check_bins_config keeps its verdict in %s' % v)

        def step(vals, E):
            """the values carried after a bin that is accepted"""
            at = {elem: E, ('len', x): 3}
            at.update({('loopvar', v, lid): y for v, y in vals.items()})
            w = World(at)
            out = []
            for facts, env in ends:
                ok, unk = w.possible({k: b for k, b in facts.items() if any(T.mentions(k, a) for a in at) or any(T.mentions(k, ('loopvar', v, lid)) for v in carried)})
                if ok:
                    if unk:
                        raise AnalysisBroken('check_bins_config depends on %s' % T.show(unk[0]))
                    nv = {}
                    for v in carried:
                        try:
                            nv[v] = w.ev(env[v])
                        except (Unknown, KeyError):
                            pass
                    out.append(nv)
            return out

        def accepts(l):
            states = [start]
            for E in l:
                states = [n for s in states for n in step(s, E)]
                if not states:
                    return False
            return True
        start = {}
        for v in carried:
            try:
                start[v] = World({}).ev(init[v])
            except (Unknown, KeyError):
                pass
        pts = (0.0, 1.0, 2.0, 3.0)
        cur = [[a, b] for a in (-INF,) + pts + (NAN,) for b in pts + (INF, NAN)]
        more = limits(k for facts, _ in ends for k in facts)
        cur += [[a, b] for a in pts + more for b in more + (INF,)] if more else []
        few = [[a, b] for a in (-INF, 0.0, 1.0, 2.0) for b in (0.0, 1.0, 2.0, INF)]
        for l in itertools.chain([[a] for a in cur], itertools.product(cur, cur), itertools.product(few, few, few)):
            l = list(l)
            if any(y == y and z == z and a > b for a, b in zip(l, l[1:]) for y, z in [(sum(a), sum(b))]):
                continue
            nw += 1
            good = all(a < b for a, b in l) and all(a[1] <= b[0] for a, b in zip(l, l[1:]))
            acc = accepts(l)
            if acc != good:
                bad.setdefault('accepts' if acc else 'refuses', l)
        if not ends:
            bad['refuses'] = 'of any kind'
    for w in ('accepts', 'refuses'):
        rep.ob('C17.disjoint', w, w not in bad, '%s bins %s' % (w, bad[w]) if w in bad else '', f.loc())
    rep.count('lists of bins, by the order of their bounds', nw)
    # what is accepted has been through the loop
    for s, c in res:
        if c[0] == 'ret' and c[1] != T.FALSE:
            rep.ob('C17.disjoint', 'all', any(k[0] == 'cmp' and k[1] == 'lt' and v and T.mentions(k, ('elem', loops[0][2])) or k[0] == 'cmp' and k[1] == 'le' and not v
                   and T.mentions(k, ('elem', loops[0][2])) for k, v in s.facts.items()),
                   'bins are accepted that were not checked', f.loc())


# ---------------------------------------------------------------- number of bins

def single(name):
    """what the names say: a count or the sum of a traffic model has one bin"""
    t = name.partition('_')[0]
    return t.endswith('Count') or t.endswith('DelayTime') and 'TrafficModel' in t


def number(p, rep):
    f = p.fn('counter.check_bin_count_matches_name')
    CFG = ('sym', f.params[0])
    loops = []

    def on_iter(ends, it, elemv, lid, poss, n, fn):
        if over(it) == CFG or S(it) == CFG:
            loops.append(ends)
            for v, (k, x) in poss.items():
                if k != 'same':
                    raise AnalysisBroken('check_bin_count_matches_name carries %s' % v)
    eng = Engine(p, inline=lambda g: g.mod is f.mod, assert_inline=False, raisers=lambda n: False, strict_cmp=True, on_iter=on_iter, zero_iter=False)
    eng.run(f)
    if not loops:
        # keys()
        raise AnalysisBroken('check_bin_count_matches_name does not go through the counters')
    ends = [s for e in loops for s in e]
    tab, _ = table(p)
    names = sorted(tab) + ['ExitStreamTrafficModelEmissionCount_STATE_+', 'ExitStreamTrafficModelLogDelayTime_STATE_+', 'ExitCircuitTrafficModelTransitionCount_A_B',
                           'ExitStreamTrafficModelSquaredLogDelayTime_A_$', 'ExitCircuitTrafficModelDelayTime_A_$', 'ExitStreamTrafficModelLogDelayTime_ACount_+']
    groups = {}
    ELEM = ('elem', CFG)
    for name in names:
        want = single(name)
        r = {}
        for nb in (1, 2, 3):
            w = World({CFG: {name: {'bins': [0] * nb}}, ELEM: name})
            acc = False
            for s in ends:
                ok, unk = w.possible(s.facts)
                if ok and unk:
                    raise AnalysisBroken('the number of bins depends on %s' % T.show(unk[0]))
                acc = acc or ok
            r[nb] = acc
        import re
        kind = re.findall('[A-Z][a-z0-9]*', name.partition('_')[0])[-1] + (' of a model' if 'TrafficModel' in name else '') + (' template' if '_' in name else '')
        groups.setdefault(kind, []).append((name, r == ({1: True, 2: False, 3: False} if want else {1: False, 2: True, 3: True}), r))
    for kind, l in sorted(groups.items()):
        bad = [x for x in l if not x[1]]
        rep.ob('C17.number', kind, not bad, '%s may have %s bins' % (bad[0][0], ', '.join(str(k) for k, v in bad[0][2].items() if v) or 'no number of') if bad else '', f.loc())
    rep.count('counters', len(names))


# ---------------------------------------------------------------- increments

def asked(p, rep):
    c = c32.increments(p)
    bad, seen = {}, {}
    for (ev, name), l in c.by.items():
        for inc, g, _ in l:
            if not isinstance(inc.args, dict):
                continue
            b = inc.args.get('bin')
            b = T.NONE if b is None else b
            s = b[0] == 'gconst' and b[1].endswith('SINGLE_BIN') or b[0] == 'c' and isinstance(b[2], float) and b[2] != b[2] or b[0] == 'attr' and b[2] == 'SINGLE_BIN'
            seen[name] = inc.loc
            if s != single(name):
                bad[name] = inc.loc
    for name, loc in sorted(seen.items()):
        rep.ob('C17.asked', name, name not in bad, 'counted %s a bin value' % ('with' if single(name) else 'without'), bad.get(name, loc))
