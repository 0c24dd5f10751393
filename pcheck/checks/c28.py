"""C28: the labels of a traffic model: the label a path of the source makes, and the conditions on that path, are evaluated
for models of one state, one observation and one transition of every kind, and for short Viterbi paths of every kind."""
import itertools
import json
import math
from ..sym import Engine
from ..util import *
from ..world import World, Unknown, Raises
from .. import terms as T
from ..counting import table
from .c29 import S, KNOWN

TM = 'privcount.traffic_model'
HMM, MODEL = 'HiddenMarkovModel', 'TrafficModel'
# the prefix of each kind of model: its attribute, what it counts one of, and the method of the collector's events
KINDS = {'packet_hmm': ('packet_model', 'ExitStreamTrafficModel', 'StreamCount', 'increment_packets_counters'),
         'stream_hmm': ('stream_model', 'ExitCircuitTrafficModel', 'CircuitCount', 'increment_streams_counters')}
TOTALS = {k[1]: k[2] for k in KINDS.values()}
SUMS = ('EmissionCount', 'TransitionCount', 'DelayTime', 'LogDelayTime', 'SquaredLogDelayTime')
STATES = ('m10s1', 'Blank', 'Dwell', 'ActiveState', 'sEnd', 'ActiveDwell')
OBS = ('+', '-', '$', 'F')
DYN, STAT = 'get_dynamic_counter_template_label_mapping', 'get_static_counter_template_label_mapping'


def check(p, rep):
    rep.rule('C28.static', 'the static labels of a model are the counters of the table with its prefix, each its own template', 3)
    rep.rule('C28.dynamic', 'a model has the labels of its emissions, possible transitions and start states, each with its template', 19)
    rep.rule('C28.count', 'a Viterbi path counts exactly the emissions, delays and transitions in it', 40)
    rep.rule('C28.labels', 'only labels of the model are counted', 40)
    rep.rule('C28.total', 'each model has the prefix of its events, counts one for each event, and then the path of the event', 6)
    rep.rule('C28.register', 'the labels of each model are registered for the event of its prefix, before the counters are checked', 4)
    rep.rule('C28.config', 'exactly the labels of both models whose template is given get the noise of that template, and one bin of all values', 3)
    rep.rule('C28.read', 'a model is updated from all of its own labels, and from no other', 19)
    static(p, rep)
    dynamic(p, rep)
    count(p, rep)
    total(p, rep)
    register(p, rep)
    config(p, rep)
    read(p, rep)
    rep.assumption('Tor answers with states and observations of the model it was given')


# ---------------------------------------------------------------- worlds

def is_inc(obs, state):
    if obs in ('+', '-') or obs == '$' and 'Dwell' in state:
        return 'log'
    if obs == '$' and 'Active' in state:
        return 'delay'


def models():
    """models of one emission, one transition and one start state"""
    for prefix in TOTALS:
        for state, obs in itertools.product(STATES, OBS):
            yield prefix, state, obs, 'm10s1', 'sEnd', 0.5, 1.0
        for tp, sp in ((0.0, 1.0), (1.0, 0.0), (0.0, 0.0), (1e-6, 1e-6), (1.0, 1.0)):
            for src, dst in (('Dwell', 'ActiveState'), ('m10s1', 'm10s1'), ('sEnd', 'sEnd')):
                yield prefix, 'm10s1', '+', src, dst, tp, sp


SELF = ('self', HMM)


def attr(n):
    return ('attr', SELF, n)


def world(prefix, state, obs, src, dst, tp, sp, more=None):
    box = {}
    emit, trans, start = {state: {obs: (1.0, 2.0, 3.0, 4.0)}}, {src: {dst: tp}}, {src: sp}
    at = {attr('prefix'): prefix, attr('emit_p'): emit, attr('trans_p'): trans, attr('start_p'): start, attr('state_s'): sorted({state, src, dst}), attr('obs_s'): [obs]}
    at.update(more or {})

    def elem(t):
        v = box['w'].ev(t)
        if isinstance(v, (dict, list, tuple)) and len(v) == 1:
            return list(v)[0]
        raise Unknown(T.show(t))
    box['w'] = World(at, {}, elem)
    return box['w']


def expected(prefix, state, obs, src, dst, tp, sp):
    d = {'%sEmissionCount_%s_%s' % (prefix, state, obs): prefix + 'EmissionCount_<STATE>_<OBS>'}
    k = is_inc(obs, state)
    for n in {'log': ('LogDelayTime', 'SquaredLogDelayTime'), 'delay': ('DelayTime',), None: ()}[k]:
        d['%s%s_%s_%s' % (prefix, n, state, obs)] = '%s%s_<STATE>_<OBS>' % (prefix, n)
    if tp > 0.0:
        d['%sTransitionCount_%s_%s' % (prefix, src, dst)] = prefix + 'TransitionCount_<SRCSTATE>_<DSTSTATE>'
    if sp > 0.0:
        d['%sTransitionCount_START_%s' % (prefix, src)] = prefix + 'TransitionCount_START_<STATE>'
    return d


def engine(p, **k):
    stop = k.get('opaque_to')
    return Engine(p, inline=lambda g: g.mod.name == TM and not (stop and stop(g)) and (g.cls is not None or sq(g) not in KNOWN) and not (g.cls is not None and g.cls.name in k.get('stop', ())), assert_inline=False,
                  raisers=lambda n: False, strict_cmp=True, zero_iter=False, **{a: b for a, b in k.items() if a not in ('stop', 'opaque_to')})


def mapping(p, rep, rule, name):
    """(key, value, facts, loc) of every label that the mapping gets"""
    f = p.method(p.cls(HMM), name)
    got, other = [], []

    def oc(ev):
        if ev.kind == 'setitem' or ev.kind == 'call' and ev.recv is not None and ev.recv[0] == 'obj' and ev.name.split('.')[-1] == 'setdefault':
            got.append((ev.recv, S(ev.args[0]), S(ev.args[1]), dict(ev.st.facts), ev.loc()))
        elif ev.kind in ('delitem',) or ev.kind == 'call' and ev.recv is not None and ev.recv[0] == 'obj' and ev.name.split('.')[-1] in ('pop', 'clear', 'popitem', 'update'):
            other.append(ev)

    left = []

    def oi(ends, it, elemv, lid, poss, n, fn):
        left.extend((s, n) for s in e.loop_left[0])
        left.extend((s, n) for s, c in e.loop_left[1])
    e = engine(p, on_call=oc, on_iter=oi)
    res = e.run(f, selfcls=HMM)
    if not got or not res:
        raise AnalysisBroken('%s makes no label' % name)
    rets = {S(c[1]) for s, c in res if c[0] == 'ret'}
    for ev in other:
        rep.ob(rule, 'removed', False, 'labels are changed by %s' % ev.name, ev.loc())
    for r in rets:
        rep.ob(rule, 'answer', all(S(g[0]) == r for g in got), '%s answers %s' % (name, T.show(r)[:60]), f.loc())
        if r[0] == 'obj' and len(r) > 3 and r[3]:
            raise AnalysisBroken('the labels of %s are not set one by one' % name)
    return f, got, left


def labels(w, got, rep, rule, where):
    """what the mapping is in the world"""
    d = {}
    for recv, k, v, facts, loc in got:
        may, unk = w.possible(facts)
        if not may:
            continue
        if unk:
            rep.ob(rule, where, False, 'label %s depends on %s' % (T.show(k)[:60], T.show(unk[0])[:80]), loc)
            continue
        try:
            d.setdefault(w.ev(k), set()).add((w.ev(v), loc))
        except (Unknown, Raises) as e:
            rep.ob(rule, where, False, 'label %s: %s' % (T.show(k)[:60], str(e)[:60]), loc)
    return d


def compare(rep, rule, key, d, exp, loc):
    bad = []
    for k in sorted(set(d) | set(exp), key=str):
        vs = d.get(k, set())
        if k not in exp:
            bad.append(('label %s is no label of the model' % k, sorted(vs)[0][1]))
        elif not vs:
            bad.append(('the model has no label %s' % k, loc))
        elif {v for v, _ in vs} != {exp[k]}:
            bad.append(('label %s has template %s' % (k, sorted(vs)[0][0]), sorted(vs)[0][1]))
    rep.ob(rule, key, not bad, bad[0][0] if bad else '', bad[0][1] if bad else loc)


def gone(rep, rule, f, left, ws):
    """no loop over the model ends early"""
    for s, n in left:
        for w in ws:
            if w.possible(s.facts)[0]:
                rep.ob(rule, 'all', False, 'the rest of the model is left out', '%s:%d' % (f.mod.rel, n.lineno) if hasattr(f.mod, 'rel') else f.loc())
                return


def static(p, rep):
    f, got, left = mapping(p, rep, 'C28.static', STAT)
    t, _ = table(p)
    for prefix, tot in sorted(TOTALS.items()):
        exp = {n for n in t if n.startswith(prefix)}
        own = {prefix + x for x in SUMS + (tot,)}
        rep.ob('C28.static', prefix + ' table', exp == own, 'the counters of %s differ from its labels: %s' % (prefix, sorted(exp ^ own)[:3]), 'privcount/counter.py')
        w = world(prefix, 'm10s1', '+', 'm10s1', 'sEnd', 0.5, 1.0)
        d = labels(w, got, rep, 'C28.static', prefix)
        for x in sorted(own | set(d)):
            compare(rep, 'C28.static', '%s label %s' % (prefix, x), {x: d[x]} if x in d else {}, {x: x} if x in own else {}, f.loc())
        gone(rep, 'C28.static', f, left, [w])


def dynamic(p, rep):
    f, got, left = mapping(p, rep, 'C28.dynamic', DYN)
    for m in models():
        w = world(*m)
        compare(rep, 'C28.dynamic', ' '.join(map(str, m)), labels(w, got, rep, 'C28.dynamic', 'conditions'), expected(*m), f.loc())
        gone(rep, 'C28.dynamic', f, left, [w])
    rep.count('labels set', len(got))


# ---------------------------------------------------------------- counting a path

PKTS = [['m10s1', '+', 35432], ['m2s4', '-', 0], ['m2s4', '+', 1], ['m4sEnd', 'F', 0], ['Dwell', '$', 20], ['ActiveState', '$', 12], ['ActiveDwell', '$', 0],
        ['ActiveState', '+', 3], ['Blank', '$', 7], ['sEnd', 'F', 9], ['ActiveState', '$', 0]]


def paths():
    for x in PKTS:
        yield [x]
        yield [x, ['m4s2', '-', 100]]
        yield [['m4s2', '-', 100], x]
        yield [['m4s2', '-', 100], x, ['m1s1', '+', 2]]
        yield [x, x]
    yield [['a', 'b']]
    yield [['m10s1', '+', 5], ['b']]
    yield [[], ['m10s1', '+', 5]]
    yield [['m10s1', '+', 5], [], ['m10s1', '-', 5]]


def more_paths(ends):
    """paths whose delays, lengths and states are around the constants that increments depend on"""
    nums, strs = set(), set()
    for s in ends:
        for k in list(s.facts) + [t[j] for t in s.trace if t[0] == 'inc' for j in (1, 2)]:
            for x in T.subterms(k):
                if isinstance(x, tuple) and T.is_const(x):
                    v = T.cval(x)
                    if isinstance(v, (int, float)) and not isinstance(v, bool) and v == v and 1 < v < 1e15:
                        nums.add(v)
                    elif isinstance(v, str) and 0 < len(v) < 40 and v.replace('_', '').isalnum():
                        strs.add(v)
    for c in sorted(nums)[:12]:
        ds = {int(c) - 1, int(c), int(c) + 1, 2 * int(c) + 3}
        if c < 34:
            ds |= {int(math.exp(c)), int(math.exp(c + 1)), int(math.exp(c)) + 2}
        for d in sorted(ds):
            for st, ob in (('m10s1', '+'), ('Dwell', '$'), ('Active', '$')):
                yield [['m4s2', '-', 100], [st, ob, d]]
        if c <= 40 and c == int(c):
            yield [['m10s1', '+', 5]] * (int(c) + 2)
    for v in sorted(strs - {'+', '-', '$', 'F'})[:8]:
        for st in {v, v + 'x', 'x' + v}:
            for ob in ('+', '$'):
                yield [[st, ob, 3], ['m4s2', '-', 100], [st, ob, 40]]


def counted(prefix, path, i):
    """the increments for packet i of the path"""
    if len(path[i]) < 3:
        return []
    state, obs, delay = path[i]
    out = [('EmissionCount', 1), ('EmissionCount_%s_%s' % (state, obs), 1)]
    l = 0 if delay < 1 else int(round(math.log(delay)))
    k = is_inc(obs, state)
    for n, v in {'log': (('LogDelayTime', l), ('SquaredLogDelayTime', l * l)), 'delay': (('DelayTime', delay),), None: ()}[k]:
        out += [(n, v), ('%s_%s_%s' % (n, state, obs), v)]
    if i == 0:
        out.append(('TransitionCount_START_%s' % state, 1))
    if i + 1 < len(path) and len(path[i + 1]) >= 3:
        out += [('TransitionCount', 1), ('TransitionCount_%s_%s' % (state, path[i + 1][0]), 1)]
    return sorted((prefix + n, v) for n, v in out)


def inc_params(p):
    f = p.method(p.cls('SecureCounters'), 'increment')
    return [x for x in f.params if x != 'self'], f


def inc_args(ps, ev):
    d = dict(zip(ps, ev.args))
    d.update(dict(ev.kwargs))
    return d


def inc_event(p, ps, f, ev):
    return ev.kind == 'call' and (ev.func is f or ev.recv is not None and ev.name.split('.')[-1] == f.name)


def path_world(prefix, path, i):
    w0 = world(prefix, 'm10s1', '+', 'm10s1', 'sEnd', 0.5, 1.0)
    at = dict(w0.atoms)
    at[('sym', 'viterbi_result')] = json.dumps(path, separators=(';', ':'))
    box = {}

    def elem(t):
        if t[0] == 'indices':
            if box['w'].ev(t[1]) == path:
                return i
            raise Unknown(T.show(t))
        v = box['w'].ev(t)
        if v == path:
            return path[i]
        if v == list(range(len(path))):
            return i
        if v == [(k, x) for k, x in enumerate(path)]:
            return (i, path[i])
        raise Unknown(T.show(t))
    box['w'] = World(at, {}, elem)
    return box['w']


def count(p, rep):
    f = p.method(p.cls(HMM), 'increment_counters')
    ps, incf = inc_params(p)
    if 'viterbi_result' not in f.params or 'secure_counters' not in f.params:
        raise AnalysisBroken('increment_counters has other parameters')
    iters, outside = [], []
    defaults = {a: d for a, d in zip(reversed(incf.params), reversed(incf.node.args.defaults))} if hasattr(incf.node, 'args') else {}

    def oc(ev):
        if not inc_event(p, ps, incf, ev):
            return
        d = inc_args(ps, ev)
        if not ev.loops:
            outside.append(ev)
        inc = d.get('inc')
        if inc is None:
            n = defaults.get('inc')
            inc = C(n.value) if isinstance(n, ast.Constant) else NONE
        rep.ob('C28.count', 'bin', is_single(d.get('bin')), 'a label is counted in bin %s' % T.show(d.get('bin', NONE))[:40], ev.loc())
        rep.ob('C28.count', 'counters', S(ev.recv) == ('sym', 'secure_counters'), 'counted in %s' % T.show(ev.recv)[:40], ev.loc())
        return ('inc', S(d.get('counter_name', NONE)), S(inc), ev.loc())

    def oi(ends, it, elemv, lid, poss, n, fn):
        iters.append((ends, S(it) if it is not None else None, n, list(e.loop_left[0]) + [s for s, c in e.loop_left[1]], fn))
    e = engine(p, on_call=oc, on_iter=oi)
    e.run(f, selfcls=HMM)
    for ev in outside:
        rep.ob('C28.count', 'once', False, 'counts %s once for the whole path' % T.show(ev.args[0] if ev.args else NONE)[:80], ev.loc())
    mine = [x for x in iters if any(t[0] == 'inc' for s in x[0] + x[3] for t in s.trace)]
    if not mine or len(mine) > 1:
        raise AnalysisBroken('increment_counters has %d loops that count' % len(mine))
    ends, it, n, left, fn = mine[0]
    rep.count('ways through one packet', len(ends))
    for prefix in sorted(TOTALS):
        for path in itertools.chain(paths(), more_paths(ends)):
            if it is not None:
                w = path_world(prefix, path, 0)
                try:
                    v = w.ev(it)
                except (Unknown, Raises):
                    v = w.ev(it[1]) if it[0] == 'indices' else None
                want = (path, [(k, x) for k, x in enumerate(path)], list(range(len(path))))
                rep.ob('C28.count', 'path', v in want, 'the packets of the path are not those of %s' % T.show(it)[:60], '%s:%d' % (fn.loc().split(':')[0], n.lineno))
            for i in range(len(path)):
                w = path_world(prefix, path, i)
                key = '%s %s %d' % (prefix, json.dumps(path), i)
                outs = set()
                for s in left:
                    may, unk = w.possible(s.facts)
                    if may:
                        outs.add(('left', '%s:%d' % (fn.loc().split(':')[0], n.lineno)))
                for s in ends:
                    may, unk = w.possible(s.facts)
                    if not may:
                        continue
                    if unk:
                        outs.add(('unknown', T.show(unk[0])[:90]))
                        continue
                    try:
                        outs.add(tuple(sorted((w.ev(t[1]), w.ev(t[2])) for t in s.trace if t[0] == 'inc')))
                    except (Unknown, Raises) as x:
                        outs.add(('unknown', str(x)[:90]))
                exp = tuple(counted(prefix, path, i))
                loc = f.loc()
                if len(outs) == 1 and list(outs)[0] == exp:
                    rep.ob('C28.count', key, True, '', loc)
                    rep.ob('C28.labels', key, True, '', loc)
                    continue
                o = sorted(outs, key=str)[0] if outs else ()
                if o[:1] == ('left',):
                    msg, loc = 'the rest of the path is not counted', o[1]
                elif o[:1] == ('unknown',):
                    msg = 'what is counted depends on %s' % o[1]
                else:
                    extra = [x for x in o if x not in exp]
                    miss = [x for x in exp if x not in o]
                    msg = 'for packet %d of %s, counts %s instead of %s' % (i, json.dumps(path), extra[:2] if extra else 'no ' + str(miss[:2]), miss[:2] or 'nothing') if extra or miss else 'counts something twice'
                    for x in extra[:1]:
                        for s in ends:
                            for t in s.trace:
                                if t[0] == 'inc':
                                    try:
                                        if w.ev(t[1]) == x[0]:
                                            loc = t[3]
                                    except (Unknown, Raises):
                                        pass
                rep.ob('C28.count', key, False, msg, loc)
                # the labels counted for this packet are labels of a model with this packet
                st = {prefix + x for x in SUMS}
                if o[:1] not in (('left',), ('unknown',)):
                    state, obs = (path[i] + ['', ''])[:2]
                    nxt = path[i + 1][0] if i + 1 < len(path) and path[i + 1] else 'sEnd'
                    lab = st | set(expected(prefix, state, obs, state, nxt, 1.0, 1.0))
                    alien = [x[0] for x in o if x[0] not in lab]
                    rep.ob('C28.labels', key, not alien, 'counts %s, no label of the model' % alien[:1], loc)


def is_single(b):
    if b is None:
        return False
    b = S(b)
    return b[0] == 'gconst' and b[1].endswith('SINGLE_BIN') or b[0] == 'c' and isinstance(b[2], float) and b[2] != b[2] or T.show(b) == 'nan'


# ---------------------------------------------------------------- both models

def hmm_of(t):
    """the model a term is: 'packet_hmm' or 'stream_hmm'"""
    t = S(t)
    return t[2] if t[0] == 'attr' and t[1] == ('self', MODEL) and t[2] in KINDS else None


def nulls(facts):
    """{model: None or not} that the path knows, and the other conditions"""
    d, o = {}, []
    for k, v in facts.items():
        h = hmm_of(k[1]) if k[0] in ('isnone', 'truthy') else None
        if h:
            d[h] = v if k[0] == 'isnone' else not v
        else:
            o.append(k)
    return d, o


def total(p, rep):
    f = p.method(p.cls(MODEL), '__init__')
    seen = {}

    def oc(ev):
        if ev.kind == 'setattr' and S(ev.recv) == ('self', MODEL) and ev.name.strip('.=') in KINDS:
            a = ev.name.strip('.=')
            v = ev.args[0]
            ok = None
            if S(v) != NONE:
                pre = ev.st.heap.get((v, '.prefix')) or ev.st.heap.get((S(v), '.prefix')) or ev.st.heap.get((S(v), '.', 'prefix'))
                seen.setdefault(a, []).append((v, ev))
    e = engine(p, on_call=oc)
    res = e.run(f, selfcls=MODEL)
    for a, (key, prefix, tot, meth) in sorted(KINDS.items()):
        if a not in seen:
            raise AnalysisBroken('%s has no %s' % (MODEL, a))
        for s, c in res:
            known = s.facts.get(('cmp', 'in', C(key), ('sym', 'model_config')))
            v = s.heap.get((('self', MODEL), '.', a))
            if v is None:
                vs = [x for k, x in s.heap.items() if k[0] == ('self', MODEL) and k[-1] == a]
                v = vs[0] if vs else None
            if v is None:
                continue
            v = S(v)
            if known is False:
                rep.ob('C28.total', a + ' none', v == NONE, '%s is %s without %s' % (a, T.show(v)[:40], key), f.loc())
            elif known is True or v != NONE:
                hv = {k[-1]: S(x) for k, x in s.heap.items() if S(k[0]) == v}
                rep.ob('C28.total', a + ' prefix', hv.get('prefix') == C(prefix), '%s has the prefix %s' % (a, T.show(hv.get('prefix', NONE))[:60]), f.loc())
                src = ('idx', ('sym', 'model_config'), C(key))
                want = {'state_s': 'state_space', 'obs_s': 'observation_space', 'start_p': 'start_probability', 'trans_p': 'transition_probability', 'emit_p': 'emission_probability'}
                for x, y in sorted(want.items()):
                    rep.ob('C28.total', '%s %s' % (a, x), hv.get(x) == ('idx', src, C(y)), '%s of %s is %s' % (x, a, T.show(hv.get(x, NONE))[:60]), f.loc())
    ps, incf = inc_params(p)
    for a, (key, prefix, tot, meth) in sorted(KINDS.items()):
        g = p.method(p.cls(MODEL), meth)
        n = {'done': 0, 'skip': 0}

        def oc2(ev):
            if inc_event(p, ps, incf, ev):
                d = inc_args(ps, ev)
                rep.ob('C28.total', meth + ' bin', is_single(d.get('bin')), 'counted in bin %s' % T.show(d.get('bin', NONE))[:40], ev.loc())
                return ('inc', S(d.get('counter_name', NONE)), S(d.get('inc', C(1))), S(ev.recv), bool(ev.loops))
            if ev.kind == 'call' and ev.func is not None and ev.func.cls is not None and ev.func.cls.name == HMM:
                fp = [x for x in ev.func.params if x != 'self']
                d = dict(zip(fp, [S(x) for x in ev.args]))
                d.update({k: S(v) for k, v in ev.kwargs})
                return ('hmm', ev.func.name, S(ev.recv), d.get('viterbi_result'), d.get('secure_counters'), bool(ev.loops))
        for s, c in engine(p, stop=(HMM,), on_call=oc2).run(g, selfcls=MODEL):
            if c[0] not in ('ret', 'exc') and c is not None:
                continue
            d, o = nulls(s.facts)
            tr = sorted((t for t in s.trace if t[0] in ('inc', 'hmm')), key=str)
            cnt = ('sym', 'secure_counters')
            want = sorted([('inc', C(prefix + tot), C(1), cnt, False), ('hmm', 'increment_counters', ('attr', ('self', MODEL), a), ('sym', 'viterbi_result'), cnt, False)], key=str)
            if d.get(a) is True:
                n['skip'] += 1
                rep.ob('C28.total', meth + ' without', not tr, 'counts without a model', g.loc())
            else:
                n['done'] += 1
                rep.ob('C28.total', meth, tr == want and not o, '%s counts %s' % (meth, [T.show(x) if isinstance(x, tuple) else x for t in tr for x in t[1:3]][:4] or 'nothing')
                       if tr != want else '%s counts only if %s' % (meth, T.show(o[0])[:60]) if o else '', g.loc())
        if not n['done']:
            raise AnalysisBroken('%s counts nothing' % meth)
    # the events of the collector
    fields = {'increment_packets_counters': 'ViterbiPathPackets', 'increment_streams_counters': 'ViterbiPathStreams'}
    for meth, fld in sorted(fields.items()):
        callers = [h for h in p.funcs.values() if h.cls is not None and h.mod.name == 'privcount.data_collector' and any(
            isinstance(x, ast.Attribute) and x.attr == meth for x in ast.walk(h.node))]
        for h in callers:
            def oc3(ev):
                if ev.kind == 'call' and ev.name.split('.')[-1] == meth:
                    v = S(ev.args[0]) if ev.args else S(dict(ev.kwargs).get('viterbi_result', NONE))
                    ok = v[0] == 'call' and v[1].endswith('get_string_value') and v[2] and S(v[2][0]) == C(fld) or v[0] == 'idx' and v[2] == C(fld)
                    rep.ob('C28.total', meth + ' field', ok or v[0] == 'sym' and len(callers) > 0 and v[1] in h.params, '%s gets %s' % (meth, T.show(v)[:80]), ev.loc())
            Engine(p, inline=lambda g: False, assert_inline=False, raisers=lambda n: False, strict_cmp=True, on_call=oc3).run(h, selfcls=h.cls.name)


def register(p, rep):
    f = p.method(p.cls(MODEL), 'register_counters')
    t, _ = table(p)
    got = []

    def oc(ev):
        if ev.kind == 'call' and ev.func is not None and ev.func.name == 'register_dynamic_counter':
            got.append((S(ev.args[0]), ev.args[1] if len(ev.args) > 1 else dict(ev.kwargs).get('counter_events', NONE), dict(ev.st.facts), ev.loc()))
    left = []

    def oi(ends, it, elemv, lid, poss, n, fn):
        left.extend(e.loop_left[0] + [s for s, c in e.loop_left[1]])
    e = engine(p, stop=(HMM,), on_call=oc, on_iter=oi)
    res = e.run(f, selfcls=MODEL)
    rep.ob('C28.register', 'all', not left, 'not all labels are registered', f.loc())
    done = {}
    for k, evs, facts, loc in got:
        a = k[1][2][0] if k[0] == 'elem' and k[1][0] == 'call' and k[1][1].endswith(DYN) and k[1][2] else k[1][1] if k[0] == 'elem' and k[1][0] == 'mcall' and k[1][2] == DYN else None
        h = hmm_of(a) if a else None
        d, o = nulls(facts)
        rep.ob('C28.register', 'label', h is not None and not o, 'registers %s' % T.show(k)[:80] if not o else 'registers a label only if %s' % T.show(o[0])[:60], loc)
        if h is None or o:
            continue
        E = S(evs)
        names = {x[2] for x in E[3] if x[0] == 'c'} if E[0] == 'obj' and len(E) > 3 else None
        want = t[KINDS[h][1] + 'EmissionCount']
        rep.ob('C28.register', h + ' event', names == set(want), 'the labels of %s are registered for %s' % (h, T.show(E)[:60]), loc)
        done.setdefault(h, []).append(d)
    for h in sorted(KINDS):
        other = [x for x in KINDS if x != h][0]
        ds = done.get(h, [])
        ok = all(any(all(d.get(k, v) == v for k, v in (w or {}).items()) for d in ds) for w in ({h: False, other: False}, {h: False, other: True}))
        rep.ob('C28.register', h, ok, 'the labels of %s are not always registered' % h, f.loc())
    rf = p.fn('privcount.counter.register_dynamic_counter')
    sets = []

    def oc4(ev):
        if ev.kind == 'setitem' and 'PRIVCOUNT_COUNTER_EVENTS' in T.show(ev.recv):
            sets.append((S(ev.args[0]), S(ev.args[1]), dict(ev.st.facts), ev.loc()))
    Engine(p, inline=lambda g: False, assert_inline=False, raisers=lambda n: False, strict_cmp=True, on_call=oc4).run(rf)
    rep.ob('C28.register', 'name', bool(sets) and all(k == ('sym', rf.params[0]) for k, v, fa, l in sets), 'a dynamic counter is registered under another name', rf.loc())
    # before the counters are checked
    for cls, meth in (('PrivCountClient', 'check_start_config'), ('TallyServer', 'refresh_config')):
        g = p.method(p.cls(cls), meth)
        n = [0]

        def oc5(ev):
            nm = ev.name.split('.')[-1]
            if ev.kind == 'call' and nm == 'register_counters':
                return ('registered',)
            if ev.kind == 'new' and ev.name.split('.')[-1] == MODEL or ev.kind == 'call' and nm == MODEL:
                return ('model',)
            if ev.kind == 'call' and nm in ('check_counters_config', 'check_noise_config', 'are_events_expected') and ev.func is not None and ev.func.mod.name == 'privcount.counter':
                tr = [x[0] for x in ev.st.trace if x in (('model',), ('registered',))]
                if 'model' in tr:
                    n[0] += 1
                    rep.ob('C28.register', meth, 'registered' in tr, 'the counters are checked before the labels of the model are registered', ev.loc())
        Engine(p, inline=lambda x: sq(x) not in KNOWN and x.mod is g.mod, assert_inline=False, raisers=lambda n: False, strict_cmp=True, on_call=oc5).run(g, selfcls=cls)
        if not n[0]:
            rep.ob('C28.register', meth, False, '%s checks no counters after it makes a traffic model' % meth, g.loc())


# ---------------------------------------------------------------- noise and bins

def sources(d, trace, loc, bad, depth=0):
    """the mappings of which the dict is the union"""
    d = S(d)
    if d[0] == 'call' and d[1].split('.')[-1] in (DYN, STAT) and d[2]:
        h = hmm_of(d[2][0])
        return {(d[1].split('.')[-1], h)}
    if d[0] == 'mcall' and d[2] in (DYN, STAT):
        return {(d[2], hmm_of(d[1]))}
    if d[0] == 'copy' or d[0] == 'call' and d[1] in ('dict', 'copy', 'deepcopy', 'copy.deepcopy') and len(d[2]) == 1:
        return sources(d[1] if d[0] == 'copy' else d[2][0], trace, loc, bad, depth + 1)
    out = set()
    if d[0] == 'obj' and depth < 6:
        for t in trace:
            if t[0] == 'set' and t[1] == d:
                k, v = t[2], t[3]
                about = [q for q, b in t[4] if T.show(k) in T.show(q)]
                if about:
                    bad.append('a label is left out depending on %s' % T.show(about[0])[:60])
                if k[0] == 'elem' and v == ('idx', k[1], k):
                    out |= sources(k[1], trace, loc, bad, depth + 1)
                else:
                    bad.append('label %s gets template %s' % (T.show(k)[:50], T.show(v)[:50]))
            if t[0] == 'update' and t[1] == d:
                out |= sources(t[2], trace, loc, bad, depth + 1)
        return out
    bad.append('the labels are those of %s' % T.show(d)[:60])
    return out


def config(p, rep):
    NC = ('idx', ('sym', 'templated_noise_config'), C('counters'))
    for meth, what in (('get_noise_init_config', 'noise'), ('get_bins_init_config', 'bins')):
        f = p.method(p.cls(MODEL), meth)
        if f.params[1:2] != ['templated_noise_config']:
            raise AnalysisBroken('%s has other parameters' % meth)

        def oc(ev):
            if ev.kind == 'setitem':
                d, o = nulls(ev.st.facts)
                return ('set', S(ev.recv), S(ev.args[0]), val(ev.args[1], ev.st), tuple(sorted(((k, ev.st.facts[k]) for k in o), key=str)), ev.loc(), ev.args[1])
            if ev.kind == 'call' and ev.recv is not None and ev.name.split('.')[-1] == 'update' and ev.args:
                return ('update', S(ev.recv), S(ev.args[0]))
        left = []

        def oi(ends, it, elemv, lid, poss, n, fn):
            left.extend(s for s in e.loop_left[0] + [s for s, c in e.loop_left[1]] if fn is f)
        e = engine(p, stop=(HMM,), on_call=oc, on_iter=oi)
        res = e.run(f, selfcls=MODEL)
        for s in left:
            rep.ob('C28.config', what + ' all', False, 'not all labels get %s' % what, f.loc())
        cases = {}
        nones = 0
        for s, c in res:
            if c[0] != 'ret':
                continue
            r = S(c[1])
            d, o = nulls(s.facts)
            if r == NONE:
                nones += 1
                bad_noise = any('counters' in T.show(k) for k in o)
                rep.ob('C28.config', what + ' none', bad_noise, '%s answers None for a valid noise config' % meth, f.loc())
                continue
            key = (d.get('packet_hmm'), d.get('stream_hmm'))
            cases.setdefault(key, []).append((s, r))
        if len(cases) < 3:
            raise AnalysisBroken('%s has %d cases' % (meth, len(cases)))
        for key, l in sorted(cases.items(), key=str):
            want = {(n, h) for h, isn in zip(('packet_hmm', 'stream_hmm'), key) if isn is not True for n in (DYN, STAT)}
            got, bad, cond = set(), [], set()
            for s, r in l:
                for t in s.trace:
                    if t[0] != 'set' or t[1] != r:
                        continue
                    k, v, facts = t[2], t[3], dict(t[4])
                    if k[0] != 'elem':
                        bad.append('%s gets %s' % (T.show(k)[:50], what))
                        continue
                    X = k[1]
                    tmpl = ('idx', X, k)
                    got |= sources(X, s.trace, t[5], bad)
                    given = facts.pop(('cmp', 'in', tmpl, NC), None)
                    if given is not True:
                        bad.append('a label gets %s though its template is not given' % what)
                    about = [q for q in facts if T.mentions(q, k)] if hasattr(T, 'mentions') else [q for q in facts if T.show(k) in T.show(q)]
                    if about:
                        bad.append('a label gets %s only if %s' % (what, T.show(about[0])[:60]))
                    if what == 'noise' and v != ('idx', NC, tmpl):
                        bad.append('a label gets the noise %s' % T.show(v)[:60])
                    if what == 'bins' and v != BINS and val(t[6], s) != BINS:
                        bad.append('a label gets the bins %s' % (v,))
            rep.ob('C28.config', '%s %s' % (what, key), not bad and got == want, bad[0] if bad else 'labels of %s get %s, not those of %s' % (
                sorted(x[0][4:11] + ' ' + str(x[1]) for x in got), what, sorted(x[0][4:11] + ' ' + str(x[1]) for x in want)), f.loc())


BINS = ('dict', (('bins', ((0.0, float('inf')),)),))


def val(t, st):
    """a term, or the value of a literal in the heap"""
    v = S(t)

    def lit(x):
        x = S(x)
        if x[0] == 'c':
            return x[2]
        if x[0] == 'call' and x[1] == 'float' and S(x[2][0]) == C('inf'):
            return float('inf')
        if x[0] == 'tuple':
            return tuple(lit(y) for y in x[1])
        if x[0] == 'obj' and x[1] == 'list':
            return tuple(lit(y) for y in x[3])
        return None
    if v[0] == 'obj' and v[1] == 'dict':
        if len(v) > 3 and v[3] and not [k for k in st.heap if S(k[0]) == v]:
            return ('dict', tuple(sorted((S(k)[2], lit(x)) for k, x in v[3] if S(k)[0] == 'c')))
        ks = [(S(k[2]), x) for k, x in st.heap.items() if S(k[0]) == v and k[1] == '[]']
        if ks and all(k[0] == 'c' for k, x in ks):
            return ('dict', tuple(sorted((k[2], lit(x)) for k, x in ks)))
    return v


# ---------------------------------------------------------------- the update of the model

def read(p, rep):
    f = p.method(p.cls(HMM), 'update_from_tallies')
    if 'tallies' not in f.params:
        raise AnalysisBroken('update_from_tallies has no tallies')
    TA = ('sym', 'tallies')
    used = {}
    whole = []

    def scan(t, facts, loc):
        if not isinstance(t, tuple):
            return
        if t and t[0] == 'idx' and len(t) == 3 and S(t[1]) == TA:
            used.setdefault(S(t[2]), []).append((facts, loc))
        if t and t[0] == 'mcall' and len(t) > 3 and S(t[1]) == TA and t[2] == 'get':
            used.setdefault(S(t[3][0]), []).append((facts, loc))
        for x in t:
            scan(x, facts, loc)

    def oc(ev):
        if ev.kind in ('setitem', 'setattr'):
            facts = dict(ev.st.facts)
            for x in ev.args:
                scan(x, facts, ev.loc())
    # functions of the program that never see the tallies only combine what was read
    e = engine(p, on_call=oc, opaque_to=lambda g: sq(g) in KNOWN and 'tallies' not in g.params)
    e.run(f, selfcls=HMM)
    if not used:
        raise AnalysisBroken('update_from_tallies reads no tallies')
    rep.count('labels read', len(used))
    for m in models():
        w = world(*m, more={TA: AnyTally()})
        names = {}
        for k, l in used.items():
            for facts, loc in l:
                may, unk = w.possible({a: b for a, b in facts.items() if not (T.show(TA) in T.show(a))})
                if not may:
                    continue
                try:
                    names[w.ev(k)] = loc
                except (Unknown, Raises) as x:
                    rep.ob('C28.read', 'label', False, 'reads %s' % T.show(k)[:80], loc)
        exp = set(expected(*m))
        poss = set(expected(*(m[:5] + (1.0, 1.0))))
        miss, alien = sorted(exp - set(names)), sorted(set(names) - poss)
        rep.ob('C28.read', ' '.join(map(str, m)), not miss and not alien, 'the update does not use %s' % miss[0] if miss else 'the update uses %s' % alien[0] if alien else '',
               names[alien[0]] if alien else f.loc())


class AnyTally(dict):
    def __contains__(self, k):
        return True

    def __getitem__(self, k):
        return 5.0
