"""C30: the way of every list from its file to its bin: the keys, parameters and attributes it passes, the order in which
the lists are kept in each of them, the counters whose bins are made for them and those counted in them."""
from ..sym import Engine
from ..util import *
from .. import terms as T
from ..counting import table
from . import c32
from .c29 import S, KNOWN, FORMS

TS, DC = 'privcount.tally_server', 'privcount.data_collector'


def check(p, rep):
    rep.rule('C30.load', 'each list is loaded from its file, in the order of the files, in the form of its kind', 3)
    rep.rule('C30.process', 'list i is the i-th that is processed, and its suffixes have the number i', 3)
    rep.rule('C30.changed', 'processed lists are kept only if all lists are the same, in the same order', 1)
    rep.rule('C30.bins', 'the counters of the lists have one bin for each list, and one for no match', 4)
    rep.rule('C30.chain', 'the processed lists reach the collectors under their own name, all of them and in order', 8)
    rep.rule('C30.prepare', 'a collector prepares the lists it was sent, in order', 8)
    rep.rule('C30.counters', 'the counters that get bins for a kind of list are those counted in them', 8)
    rep.rule('C30.as', 'prefixes are looked up in the map of the IP version they were loaded for', 2)
    config(p, rep)
    bins(p, rep)
    states = set()
    ch = chain(p, rep, states)
    counters(p, rep, ch, states)
    maps(p, rep)
    rep.assumption('the order of lists survives JSON')


def eng(p, mods, **k):
    return Engine(p, inline=lambda g: sq(g) not in KNOWN or g.mod.name in mods, assert_inline=False, raisers=lambda n: False, strict_cmp=True, **k)


def args(p, ev):
    """{parameter: term} of a call of a function of the program"""
    f = ev.func
    ps = [x for x in f.params if x not in ('self', 'cls')] if f.cls is not None and f.params[:1] in (['self'], ['cls']) else list(f.params)
    d = dict(zip(ps, [S(x) for x in ev.args]))
    d.update({k: S(v) for k, v in ev.kwargs})
    return d


# ---------------------------------------------------------------- the tally server: files to lists

def config(p, rep):
    f = p.fn(TS + '.TallyServer.load_match_config')
    P = lambda n: ('sym', n)
    for n in ('old_config', 'new_config', 'files_key', 'lists_key', 'exacts_key', 'suffixes_key', 'suffix_separator', 'counter_filter'):
        if n not in f.params:
            raise AnalysisBroken('load_match_config has no %s' % n)
    new, old = P('new_config'), P('old_config')
    files = ('idx', new, P('files_key'))
    order = {}
    n = {'load': 0, 'exact': 0, 'suffix': 0}

    def stored(st, key, proc=False):
        """the objects kept under the key of the new config"""
        out = []
        for c in ([new, P('new_processed_config')] if proc else [new]):
            v = st.heap.get((c, '[]', key))
            if v is not None:
                out.append(S(v))
        return out

    def index_of(t, lists):
        """t is element i of the lists: i (as a term), or None"""
        if t[0] == 'idx' and S(t[1]) in lists and S(t[2]) == ('elem', ('indices', files)):
            return S(t[2])
        if t[0] == 'idx' and S(t[1]) in lists and any(S(t[2]) == ('elem', ('indices', l)) for l in lists):
            return S(t[2])
        if t[0] == 'elem' and S(t[1]) in lists:
            return ('elem', ('indices', S(t[1])))
        return None

    def loaded(t):
        """t is the content of the file: its name, and the form asked for"""
        t = S(t)
        if t[0] == 'idx' and t[2] == C(1):
            t = S(t[1])
            if t[0] == 'call' and t[1].endswith('load_match_list'):
                g = p.fn(t[1].lstrip('!'))
                d = dict(zip(g.params, t[2]))
                d.update(dict(t[3]))
                return {k: S(v) for k, v in d.items()}
        return None
    pend = []

    def oc(ev):
        nm = ev.name.split('.')[-1]
        if ev.kind == 'call' and ev.recv is not None and ev.args:
            d = loaded(ev.args[0])
            rec = S(ev.recv)
            if nm in ('append', 'insert', 'extend') and (d is not None or nm != 'append' and rec in stored(ev.st, P('lists_key'))):
                n['load'] += 1
                if d is None or nm != 'append':
                    rep.ob('C30.load', 'all', False, 'the lists get %s' % T.show(ev.args[0])[:80], ev.loc())
                    return ('load', None)
                rep.ob('C30.load', 'kept', rec in stored(ev.st, P('lists_key')), 'a list is kept elsewhere', ev.loc())
                rep.ob('C30.load', 'file', d.get('file_path', d.get(list(d)[0])) == ('elem', files), 'the list is loaded from %s' % T.show(d.get('file_path', NONE))[:80], ev.loc())
                for a in FORMS:
                    if a in f.params:
                        rep.ob('C30.load', a, d.get(a) == P(a), 'a list is loaded with %s as %s' % (T.show(d.get(a, NONE))[:60], a), ev.loc())
                pend.append((ev.loops[-1][1] if ev.loops else None, 'load', ev.loc()))
                return ('load', S(ev.args[0]))
        if ev.kind == 'call' and ev.func is not None and nm in ('exact_match_prepare_collection', 'suffix_match_prepare_collection'):
            a = args(p, ev)
            lists = stored(ev.st, P('lists_key'))
            i = index_of(a.get('exact_collection', a.get('suffix_collection', NONE)), lists)
            w = 'exact' if nm.startswith('exact') else 'suffix'
            ex = a.get('existing_exacts' if w == 'exact' else 'existing_suffixes', NONE)
            if ex == NONE:
                return None
            n[w] += 1
            rep.ob('C30.process', w + ' list', i is not None, 'processes %s' % T.show(a.get('exact_collection', a.get('suffix_collection', NONE)))[:80], ev.loc())
            rep.ob('C30.process', w + ' kept', ex in stored(ev.st, P(w + 'es_key' if w == 'suffix' else 'exacts_key'), True), 'the processed lists are put into %s' % T.show(ex)[:60], ev.loc())
            if w == 'suffix':
                rep.ob('C30.process', 'number', a.get('collection_tag') in (i, ('elem', ('indices', files))) and i is not None, 'list %s gets the number %s' % (T.show(i or NONE)[:40], T.show(a.get('collection_tag', NONE))[:60]), ev.loc())
                rep.ob('C30.process', 'separator', a.get('separator') == P('suffix_separator'), 'suffixes are split at %s' % T.show(a.get('separator', NONE))[:40], ev.loc())
            pend.append((ev.loops[-1][1] if ev.loops else None, w, ev.loc()))
            return ('did', w)
        if ev.kind == 'setitem' and S(ev.recv) in (new, P('new_processed_config')) and S(ev.args[0]) in (P('lists_key'), P('exacts_key'), P('suffixes_key')):
            return ('set', S(ev.args[0]), S(ev.args[1]))

    def oi(ends, it, elemv, lid, poss, nn, fn):
        t = S(it) if it is not None else NONE
        e = elemv
        asc = t[0] == 'call' and t[1] in ('xrange', 'range') and len(t[2]) == 1 and t[2][0][0] == 'len' or t == files or t[0] in ('obj', 'call') and (t[0] == 'obj' or t[1] == 'enumerate') or t[0] == 'idx'
        order[lid] = asc
    E = eng(p, (TS,), on_call=oc, on_iter=oi, zero_iter=False)
    res = E.run(f)
    for w in n:
        if not n[w]:
            raise AnalysisBroken('load_match_config never does %s' % w)
    for lid, w, loc in pend:
        rep.ob('C30.load' if w == 'load' else 'C30.process', w + ' order', order.get(lid) is True, 'lists are not taken in the order of the files', loc)
    for s, c in res:
        if c[0] != 'ret':
            continue
        nofiles = s.facts.get(('cmp', 'in', P('files_key'), new)) is False or any(
            v is False and k[0] == 'cmp' and k[1] == 'lt' and S(k[2]) == C(0) and S(k[3]) == ('len', files) for k, v in s.facts.items()) or any(
            v is False and k[0] == 'truthy' and oldval(k[1], new, P('files_key')) for k, v in s.facts.items()) or any(
            v and k[0] == 'cmp' and k[1] == 'eq' and set(map(S, k[2:4])) == {C(0), ('len', files)} for k, v in s.facts.items())
        tr = [x for x in s.trace if isinstance(x, tuple) and x]
        did = {x[1] for x in tr if x[0] == 'did'}
        loads = [x for x in tr if x[0] == 'load']
        if not loads and nofiles:
            rep.ob('C30.changed', 'no files', not did, 'lists without files', f.loc())
            continue
        rep.ob('C30.load', 'once', len(loads) == 1, 'a file is loaded %d times' % len(loads), f.loc())
        want = {w for w, k in (('exact', P('exacts_key')), ('suffix', P('suffixes_key'))) if s.facts.get(('isnone', k)) is not True}
        if did >= want:
            continue
        same = False
        lists = stored(s, P('lists_key'))
        for k, v in s.facts.items():
            if v and k[0] == 'cmp' and k[1] == 'eq':
                for a, b in ((S(k[2]), S(k[3])), (S(k[3]), S(k[2]))):
                    if (a in lists or ('idx', new, P('lists_key')) == a) and oldval(b, old, P('lists_key')):
                        same = True
        rep.ob('C30.changed', 'same', same, 'lists are not processed, although they may differ from the old ones', f.loc())
        for w in want - did:
            key = P('exacts_key' if w == 'exact' else 'suffixes_key')
            last = [x[2] for x in tr if x[0] == 'set' and x[1] == key]
            ok = bool(last) and any(oldval(last[-1], o, key) for o in (old, P('old_processed_config')))
            absent = any(s.facts.get(('isnone', o)) is True for o in (old, P('old_processed_config')))
            rep.ob('C30.changed', 'kept ' + w, ok or absent, 'the unchanged lists are replaced by %s' % (T.show(last[-1])[:60] if last else 'nothing'), f.loc())


def oldval(t, old, key):
    t = S(t)
    return t == ('idx', old, key) or t[0] == 'mcall' and t[2] == 'get' and S(t[1]) == old and S(t[3][0]) == key


# ---------------------------------------------------------------- bins

def num(t):
    return strip_casts(S(t), ('float', 'int'))


def bins(p, rep):
    f = p.fn(TS + '.TallyServer.load_match_config')
    new = ('sym', 'new_config')
    files = ('idx', new, ('sym', 'files_key'))
    counts = (('len', files), ('len', ('idx', new, ('sym', 'lists_key'))))
    cf = ('sym', 'counter_filter')
    st = {'n': 0, 'iter': 0}

    def passes(facts, name):
        out = [v for k, v in facts.items() if k[0] == 'truthy' and T.mentions(k[1], cf) and T.mentions(k[1], name) and k[1][0] in ('call', 'apply', 'mcall')]
        return out[0] if out else None

    def oc(ev):
        if ev.kind == 'call' and ev.recv is not None and S(ev.recv)[0] == 'comp' and ev.name.endswith('append') and ev.args:
            return ('more', S(ev.recv), ev.args[0])
        if ev.kind == 'setitem' and S(ev.args[0]) == C('bins'):
            r = S(ev.recv)
            st['n'] += 1
            names = [l[0] for l in ev.loops]
            nm = S(r[2]) if r[0] == 'idx' else None
            rep.ob('C30.bins', 'counter', nm is not None and passes(ev.st.facts, nm) is True, 'bins are made for %s' % T.show(r)[:80], ev.loc())
            return ('bins', r, S(ev.args[1]))

    def shape(s, L, n):
        """the bins of the list object L are one for each of n, and one above"""
        if L[0] not in ('obj', 'bin', 'comp'):
            return 'are %s' % T.show(L)[:100]
        extra = []
        while L[0] == 'bin' and L[1] == 'Add':
            r = S(L[3])
            extra = list(r[3] if r[0] == 'obj' else r[1]) + extra
            L = S(L[2])
        if L[0] == 'comp':
            app = [(('each', L[2], L[3]), ())] + [(x[2], ()) for x in s.trace if isinstance(x, tuple) and x and x[0] == 'more' and x[1] == L]
        else:
            app = list(s.heap.get((L, '#app'), ()))
            if L[0] == 'obj' and L[3]:
                return 'begin with %s' % T.show(L)[:60]
        app += [(x, ()) for x in extra]
        if len(app) != 2:
            return 'are of %d kinds' % len(app)
        (a, la), (b, lb) = app
        if a[0] == 'each':
            a = a[1]
        a, b = pair(s, a), pair(s, b)
        if a is None or b is None:
            return 'are not pairs'
        i = num(a[0])
        over = i[0] == 'elem' and (i[1][0] == 'indices' and ('len', i[1][1]) == n or i[1][0] == 'call' and i[1][1] in ('range', 'xrange') and i[1][2] in ((n,), (C(0), n)))
        if not over:
            return 'begin at %s' % T.show(i)[:60]
        if num(a[1]) not in (('bin', 'Add', i, C(1)), ('bin', 'Add', C(1), i), ('bin', 'Add', i, C(1.0))):
            return 'end at %s' % T.show(a[1])[:60]
        if num(b[0]) != n or num(b[1]) != C(float('inf')):
            return 'end with %s, %s' % (T.show(b[0])[:40], T.show(b[1])[:40])
        return None

    def pair(s, t):
        t = S(t)
        xs = t[3] if t[0] == 'obj' and t[1] == 'list' else t[1] if t[0] == 'tuple' else None
        return xs if xs is not None and len(xs) == 2 else None
    objs = {}

    def oi(ends, it, elemv, lid, poss, nn, fn):
        if it is None or S(it) not in (('idx', new, ('sym', 'counters_key')),) and not (S(it)[0] == 'mcall' and S(it)[1] == ('idx', new, ('sym', 'counters_key'))):
            return
        e0 = S(elemv)
        st['iter'] += 1
        for s in ends:
            got = [x for x in s.trace if isinstance(x, tuple) and x and x[0] == 'bins']
            nm = [x for x in [e0] + ([S(y) for y in e0[1]] if e0[0] == 'tuple' else [])]
            ok = [v for x in nm for v in [passes(s.facts, x)] if v is not None]
            none = s.facts.get(('isnone', cf)) is True
            rep.ob('C30.bins', 'all', bool(got) or False in ok or none, 'a counter of the lists keeps its bins', f.loc())
            for _, r, L in got:
                bad = None
                for n in counts:
                    bad = shape(s, L, n)
                    if bad is None:
                        break
                rep.ob('C30.bins', 'shape', bad is None, 'the bins %s' % bad, f.loc())
    res = eng(p, (TS,), on_call=oc, on_iter=oi, zero_iter=False).run(f)
    if not st['n'] or not st['iter']:
        raise AnalysisBroken('no bins are made for lists')


# ---------------------------------------------------------------- the way to the collectors

def init_params(p, cls):
    f = p.method(p.cls(cls), '__init__')
    return f, [x for x in f.params if x != 'self']


def new_args(p, ev, cls):
    _, ps = init_params(p, cls)
    d = dict(zip(ps, [S(x) for x in ev.args]))
    d.update({k: S(v) for k, v in ev.kwargs})
    return d


def as_sent(t):
    """(config key, sub key or None) the term is, all of it and in order"""
    t = S(t)
    while True:
        if t[0] == 'call' and t[1] in ('list', 'copy', 'deepcopy', 'copy.copy', 'copy.deepcopy', 'dict', 'tuple') and len(t[2]) == 1:
            t = S(t[2][0])
        elif t[0] == 'copy':
            t = S(t[1])
        elif t[0] == 'mcall' and t[2] == 'copy' and not t[3]:
            t = S(t[1])
        elif t[0] == 'comp' and not t[4] and as_elem(t[2], t[3]):
            t = S(t[3])
        elif t[0] == 'mcall' and t[2] == 'get' and t[3]:
            return S(t[1]), S(t[3][0])
        elif t[0] == 'idx':
            return S(t[1]), S(t[2])
        else:
            return t, None


def as_elem(t, src):
    t = S(t)
    while t[0] == 'call' and t[1] in ('list', 'sorted', 'tuple', 'set', 'frozenset') and len(t[2]) == 1:
        t = S(t[2][0])
    return t == ('elem', S(src))


def chain(p, rep, states):
    """{attribute of the aggregator: (config key, sub key)}"""
    # 1. the phase is made from the config
    made = []

    def oc(ev):
        if ev.kind == 'new' and ev.name.split('.')[-1] == 'CollectionPhase':
            made.append((new_args(p, ev, 'CollectionPhase'), ev.st.copy(), ev.loc()))
    eng(p, (), on_call=oc).run(p.fn(TS + '.TallyServer.start_new_collection_phase'), selfcls='TallyServer')
    if not made:
        raise AnalysisBroken('no collection phase is made')
    # 2. the phase keeps it
    f, ps = init_params(p, 'CollectionPhase')
    kept = {}
    for s, c in eng(p, ()).run(f, selfcls='CollectionPhase'):
        if c[0] == 'ret':
            for k, v in s.heap.items():
                if len(k) == 2 and k[0][0] == 'self':
                    kept.setdefault(k[1], set()).add(S(v))
    # 3. the start config is made from the phase
    sent = {}

    def oc3(ev):
        if ev.kind == 'setitem' and S(ev.args[0])[0] == 'c' and isinstance(S(ev.args[0])[2], str):
            v = S(ev.args[1])
            v0, sub = as_sent(v)
            if v0[0] == 'attr' and v0[1][0] == 'self' and sub is None:
                sent.setdefault(S(ev.args[0])[2], set()).add(v0[2])
            elif v0[0] == 'self' or True:
                sent.setdefault(S(ev.args[0])[2], set()).add(None)
    # attributes of self appear as idx/attr terms
    cl = p.cls('CollectionPhase')
    for g in p.funcs.values():
        if g.cls is cl and g.name == 'get_start_config':
            eng(p, (), on_call=oc3).run(g, selfcls=cl.name)
    # 4. the aggregator is made from the start config
    agg = []

    def oc4(ev):
        if ev.kind == 'new' and ev.name.split('.')[-1] == 'Aggregator':
            agg.append((new_args(p, ev, 'Aggregator'), ev.loc()))
    eng(p, (), on_call=oc4).run(p.fn(DC + '.DataCollector.do_start'), selfcls='DataCollector')
    if not agg:
        raise AnalysisBroken('no aggregator is made')
    # 5. and prepares its objects
    prep = prepare(p, rep, states)
    out = {}
    for attr, (par, sub) in sorted(prep.items()):
        ways = set()
        for a, loc in agg:
            src, key = as_sent(a.get(par, NONE))
            ok = src == ('sym', 'config') and key is not None and key[0] == 'c'
            rep.ob('C30.chain', attr + ' received', ok, '%s is prepared from %s' % (attr, T.show(a.get(par, NONE))[:80]), loc)
            if not ok:
                continue
            ats = sent.get(key[2], set())
            rep.ob('C30.chain', attr + ' sent', len(ats) == 1 and None not in ats, 'the start config has no single %s' % key[2], f.loc())
            for at in ats - {None}:
                vals = kept.get(at, set())
                rep.ob('C30.chain', attr + ' kept', len(vals) == 1 and all(v[0] == 'sym' for v in vals), 'the phase keeps %s as %s' % (at, [T.show(v)[:40] for v in vals]), f.loc())
                for v in vals:
                    for d, st, loc2 in made:
                        t = d.get(v[1], NONE) if v[0] == 'sym' else NONE
                        subs = [st.heap.get((t, '[]', C(sub)))] if sub is not None else []
                        base, ck = as_sent(t)
                        good = base[0] == 'attr' and base[2] == 'config' and ck is not None and ck[0] == 'c'
                        if good and subs and subs[0] is not None:
                            b2, k2 = as_sent(subs[0])
                            b2, k3 = as_sent(b2) if k2 == C(sub) else (None, None)
                            good = k2 == C(sub) and k3 == ck
                        rep.ob('C30.chain', attr + ' configured', good, '%s are sent as %s' % (T.show(t)[:80], key[2]), loc2)
                        if good:
                            ways.add((ck[2], sub))
        if len(ways) == 1:
            out[attr] = ways.pop()
        else:
            rep.ob('C30.chain', attr + ' one way', False, 'is made from %s' % sorted(ways, key=str), f.loc())
    return out


def prepare(p, rep, states):
    """{attribute: (parameter, sub key)} of the match objects of the aggregator"""
    f, ps = init_params(p, 'Aggregator')
    out = {}
    objs = {}
    asc = {}

    def oc(ev):
        nm = ev.name.split('.')[-1]
        if ev.kind == 'call' and ev.func is not None and nm == 'exact_match_prepare_collection':
            a = args(p, ev)
            src, sub = a.get('exact_collection', NONE), None
            coll = None
            if src[0] == 'elem':
                coll = S(src[1])
            elif src[0] == 'idx' and S(src[2])[0] == 'elem' and S(src[2])[1][0] == 'indices':
                coll = S(src[1])
                if not same_coll(S(src[2])[1][1], coll):
                    coll = None
            ex = a.get('existing_exacts', NONE)
            return ('prep', ex, coll, ev.loops[-1][1] if ev.loops else None, ev.loc())

    def same_coll(a, b):
        x, y = as_sent(a), as_sent(b)
        return S(a) == S(b) or x == y and x[1] is not None

    def oi(ends, it, elemv, lid, poss, nn, fn):
        t = S(it) if it is not None else NONE
        asc[lid] = not any(x[0] == 'call' and x[1] in ('reversed', 'sorted', 'set', 'frozenset') for x in T.subterms(t)) and not (t[0] == 'call' and t[1] in ('xrange', 'range') and len(t[2]) > 1)
        if it is not None:
            for s in ends:
                ap = [x for x in s.trace if isinstance(x, tuple) and x and x[0] == 'prep' and x[3] == lid]
                if any(isinstance(x, tuple) and x and x[0] == 'prep' and x[3] == lid for s2 in ends for x in s2.trace):
                    rep.ob('C30.prepare', 'every list', len(ap) == 1, 'a list is prepared %d times' % len(ap), f.loc())
    n = 0
    alts = {}
    for s, c in eng(p, (), on_call=oc, on_iter=oi, zero_iter=False).run(f, selfcls='Aggregator'):
        if c[0] != 'ret':
            continue
        preps = [x for x in s.trace if isinstance(x, tuple) and x and x[0] == 'prep']
        said = tuple((k[2][2], b) for k, b in s.facts.items() if k[0] == 'cmp' and k[1] == 'in' and k[2][0] == 'c' and k[3][0] == 'elem')
        own = {k[1]: S(v) for k, v in s.heap.items() if len(k) == 2 and k[0][0] == 'self'}
        states.add((tuple(sorted((k, v == TRUE) for k, v in own.items() if v in (TRUE, FALSE))), said,
                    frozenset(k for k, v in own.items() if any(x[1] == v for x in preps) or v[0] == 'sym')))
        for k, v in s.heap.items():
            if len(k) != 2 or k[0][0] != 'self':
                continue
            v = S(v)
            if k[1].endswith('_exact_objs') or any(x[1] == v for x in preps):
                mine = [x for x in preps if x[1] == v]
                for _, ex, coll, lid, loc in mine:
                    n += 1
                    src, sub = (None, None)
                    if coll is not None:
                        src, sub = as_sent(coll) if coll[0] != 'sym' else (coll, None)
                    ok = src is not None and src[0] == 'sym' and src[1] in ps
                    rep.ob('C30.prepare', k[1], ok, '%s is prepared from %s' % (k[1], T.show(coll or NONE)[:80]), loc)
                    rep.ob('C30.prepare', k[1] + ' order', asc.get(lid) is True, '%s is prepared in another order' % k[1], loc)
                    if ok:
                        alts.setdefault(k[1], set()).add((src[1], sub[2] if sub is not None else None))
                rep.ob('C30.prepare', k[1] + ' one source', len(mine) <= 1, '%s is prepared from several lists' % k[1], f.loc())
                alts.setdefault(k[1], set())
            elif k[1].endswith('suffix_obj'):
                if v[0] == 'sym':
                    alts.setdefault(k[1], set()).add((v[1], None))
                else:
                    rep.ob('C30.prepare', k[1], v[0] == 'obj' and not v[3], '%s is %s' % (k[1], T.show(v)[:60]), f.loc())
    for a, v in alts.items():
        rep.ob('C30.prepare', a + ' is prepared', len(v) == 1, '%s is prepared from %s' % (a, sorted(v, key=str)), f.loc())
        if len(v) == 1:
            out[a] = list(v)[0]
    if not n:
        raise AnalysisBroken('the aggregator prepares no lists')
    return out


# ---------------------------------------------------------------- which counters

def holds(p, mod, node, name):
    """the value of the filter for the name"""
    if isinstance(node, ast.Lambda):
        return val(p, mod, node.body, {node.args.args[0].arg: name})
    if isinstance(node, (ast.Name, ast.Attribute)):
        nm = node.id if isinstance(node, ast.Name) else node.attr
        for g in p.funcs.values():
            if g.name == nm and g.mod is mod:
                ps = [x for x in g.params if x not in ('self', 'cls')]
                return body(p, mod, g.node.body, {ps[0]: name})
    raise AnalysisBroken('%s:%s: filter not understood' % (mod.name, getattr(node, 'lineno', '?')))


class Ret(Exception):
    pass


def body(p, mod, stmts, env):
    r = run_body(p, mod, stmts, env)
    return r[1] if r is not None else None


def run_body(p, mod, stmts, env):
    for s in stmts:
        if isinstance(s, ast.Return):
            return ('ret', val(p, mod, s.value, env) if s.value is not None else None)
        if isinstance(s, ast.If):
            r = run_body(p, mod, s.body if val(p, mod, s.test, env) else s.orelse, env)
            if r is not None:
                return r
        elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            env[s.targets[0].id] = val(p, mod, s.value, env)
        elif isinstance(s, (ast.Pass, ast.Expr)):
            pass
        else:
            raise AnalysisBroken('%s:%s: filter not understood' % (mod.name, s.lineno))
    return None


def val(p, mod, e, env):
    v = lambda x: val(p, mod, x, env)
    if isinstance(e, ast.Constant):
        return e.value
    if isinstance(e, ast.Name):
        if e.id in env:
            return env[e.id]
        if isinstance(mod.consts.get(e.id), ast.AST):
            return v(mod.consts[e.id])
        if e.id in ('True', 'False', 'None'):
            return {'True': True, 'False': False, 'None': None}[e.id]
    if isinstance(e, ast.BoolOp):
        r = None
        for x in e.values:
            r = v(x)
            if bool(r) != isinstance(e.op, ast.And):
                return r
        return r
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return not v(e.operand)
    if isinstance(e, ast.IfExp):
        return v(e.body) if v(e.test) else v(e.orelse)
    if isinstance(e, (ast.Tuple, ast.List)):
        return tuple(v(x) for x in e.elts)
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        return v(e.left) + v(e.right)
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
        a, b = v(e.left), v(e.comparators[0])
        op = type(e.ops[0]).__name__
        ops = {'In': lambda: a in b, 'NotIn': lambda: a not in b, 'Eq': lambda: a == b, 'NotEq': lambda: a != b, 'Is': lambda: a is b, 'IsNot': lambda: a is not b,
               'Gt': lambda: a > b, 'GtE': lambda: a >= b, 'Lt': lambda: a < b, 'LtE': lambda: a <= b}
        return ops[op]()
    if isinstance(e, ast.Call):
        if isinstance(e.func, ast.Attribute) and e.func.attr in ('startswith', 'endswith', 'find', 'count', 'index', 'lower'):
            r = v(e.func.value)
            if isinstance(r, str):
                return getattr(r, e.func.attr)(*[v(x) for x in e.args])
        if isinstance(e.func, ast.Name) and e.func.id in ('any', 'all') and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)) and len(e.args[0].generators) == 1:
            g = e.args[0].generators[0]
            xs = [val(p, mod, e.args[0].elt, dict(env, **{g.target.id: x})) for x in v(g.iter) if all(val(p, mod, c, dict(env, **{g.target.id: x})) for c in g.ifs)]
            return any(xs) if e.func.id == 'any' else all(xs)
        if isinstance(e.func, ast.Name) and e.func.id in ('bool', 'len'):
            return {'bool': bool, 'len': len}[e.func.id](v(e.args[0]))
        nm = e.func.id if isinstance(e.func, ast.Name) else e.func.attr if isinstance(e.func, ast.Attribute) else None
        for g in p.funcs.values():
            if g.name == nm and g.mod is mod:
                ps = [x for x in g.params if x not in ('self', 'cls')]
                d = dict(zip(ps, [v(x) for x in e.args]))
                d.update({k.arg: v(k.value) for k in e.keywords})
                return body(p, mod, g.node.body, d)
    raise AnalysisBroken('%s:%s: filter not understood' % (mod.name, getattr(e, 'lineno', '?')))


def counters(p, rep, ch, states):
    names = sorted(table(p)[0])
    f = p.fn(TS + '.TallyServer.refresh_config')
    lm = p.fn(TS + '.TallyServer.load_match_config')
    loads = {}

    def oc(ev):
        if ev.kind == 'call' and ev.func is lm:
            loads.setdefault(id(ev.node), (args(p, ev), ev.node, ev.loc(), set()))[3].add(S(args(p, ev).get('new_processed_config', ('sym', 'new_config'))))
    eng(p, (), on_call=oc).run(f, selfcls='TallyServer')
    if not loads:
        raise AnalysisBroken('no lists are configured')
    kinds = {}
    for a, node, loc, procs in loads.values():
        flt = [k.value for k in node.keywords if k.arg == 'counter_filter']
        i = lm.params.index('counter_filter')
        if not flt and len(node.args) > i:
            flt = [node.args[i]]
        if not flt:
            raise AnalysisBroken('%s: no counter filter' % (loc,))
        have = {n for n in names if holds(p, f.mod, resolve(f, flt[0]), n)}
        for w in ('exacts_key', 'suffixes_key'):
            k = a.get(w)
            if k is not None and k != NONE:
                kinds.setdefault(k[2], []).append((w, have, loc, a))
    # which counters are counted in the bins of which attribute
    inc = c32.increments(p)
    used = {}
    counted = {name for ev, name in inc.by}
    for (ev, name), l in inc.by.items():
        if name not in names:
            continue
        for i, g, bad in l:
            b = i.args.get('bin')
            for at in attrs(b):
                used.setdefault(at, {}).setdefault(name, i.loc)
    for at in sorted(used):
        if at not in ch:
            rep.ob('C30.counters', at, False, '%s is searched, but not made from configured lists' % at, f.loc())
    # a counter belongs to the kind of its exact or its suffix lists
    want = {}
    for at, (ck, sub) in sorted(ch.items()):
        ks = kinds.get(sub if sub is not None else ck, [])
        rep.ob('C30.counters', at + ' configured', len(ks) == 1, '%s: %d lists are configured as %s' % (at, len(ks), sub or ck), f.loc())
        if len(ks) != 1:
            continue
        w, have, loc, a = ks[0]
        grp = want.setdefault(id(ks[0][3]), [have, loc, set(), []])
        grp[2] |= set(used.get(at, {}))
        grp[3].append(at)
        rep.ob('C30.counters', at + ' separated', (w == 'suffixes_key') == at.endswith('suffix_obj'), '%s is made from %s' % (at, w), loc)
    for have, loc, cnt, ats in want.values():
        for n in sorted(have - cnt):
            if n in counted:
                rep.ob('C30.counters', '+'.join(ats), False, '%s gets bins for lists it is not counted in' % n, loc)
        for n in sorted(cnt - have):
            rep.ob('C30.counters', '+'.join(ats), False, '%s is counted in lists, but gets no bins for them' % n, loc)
        rep.ob('C30.counters', '+'.join(ats), bool(have), 'no counter has bins for them', loc)
        rep.count('counters with bins for lists', len(have))
    needs(p, rep, inc, states)
    for n in names:
        if n.endswith('List') and n in counted:
            rep.ob('C30.counters', 'a list', any(n in h for h, _, _, _ in want.values()), '%s is counted in lists, but none are configured for it' % n, f.loc())


def resolve(f, node):
    """a name that is assigned once in the function"""
    if isinstance(node, ast.Name):
        xs = [n.value for n in ast.walk(f.node) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == node.id for t in n.targets)]
        if len(xs) == 1:
            return xs[0]
        for n in ast.walk(f.node):
            if isinstance(n, ast.FunctionDef) and n.name == node.id:
                return n
    return node


def attrs(b):
    """the match objects a bin is computed from"""
    out = set()
    if not isinstance(b, tuple):
        return out
    if b and b[0] == 'match_bin' and b[1][0] == 'attr':
        return {b[1][2]}
    if len(b) > 2 and b[0] == 'call' and isinstance(b[1], str) and b[1].endswith('suffix_match') and b[2] and b[2][0][0] == 'attr':
        return {b[2][0][2]}
    for x in b:
        out |= attrs(x)
    return out


def needs(p, rep, inc, states):
    """a match object that is only prepared for some counters is prepared for all that need it, and they are counted"""
    f, _ = init_params(p, 'Aggregator')
    by = {}
    for (ev, name), l in inc.by.items():
        for i, g, bad in l:
            fl = tuple(sorted((k[1][2], v) for k, v in i.g.items() if k[0] == 'truthy' and k[1][0] == 'attr' and k[1][1] == ('self',)))
            by.setdefault(name, set()).add((fl, frozenset(attrs(i.args.get('bin')) | attrs(tuple(i.g)))))
    for name, ways in sorted(by.items()):
        if not any(at for _, at in ways):
            continue
        for flags, said, there in states:
            if any((t in name) != b for t, b in said):
                continue        # not collected here
            fl = dict(flags)
            on = [at for w, at in ways if all(fl.get(k, v) == v for k, v in w)]
            rep.ob('C30.prepare', 'counted', bool(on), '%s may be collected, but is not counted' % name, f.loc())
            for at in {x for y in on for x in y}:
                rep.ob('C30.prepare', at + ' needed', at in there, '%s may not be prepared where %s is counted' % (at, name), f.loc())


def maps(p, rep):
    f, ps = init_params(p, 'Aggregator')
    n = 0

    def oc(ev):
        nonlocal n
        if ev.kind == 'setitem':
            v = S(ev.args[1])
            if v[0] == 'call' and v[1].endswith('ipasn_prefix_match_prepare_string'):
                n += 1
                k = strip_casts(S(ev.args[0]), ('int',))
                src = S(v[2][0])
                ok = src[0] == 'idx' and S(src[2]) == k and k[0] == 'elem' or src[0] == 'value' and src[1:] == k[1:]
                rep.ob('C30.as', 'map', ok, 'the map of %s is prepared as %s' % (T.show(src)[:60], T.show(k)[:40]), ev.loc())
                rep.ob('C30.as', 'key', S(ev.args[0])[0] == 'call' and S(ev.args[0])[1] == 'int', 'the map is kept as %s' % T.show(S(ev.args[0]))[:60], ev.loc())
    eng(p, (), on_call=oc).run(f, selfcls='Aggregator')
    if not n:
        raise AnalysisBroken('no prefix maps are prepared')
    g = p.fn(TS + '.TallyServer.load_as_prefix_file')

    def oc2(ev):
        if ev.kind == 'setitem' and S(ev.recv) == ('sym', 'new_as_prefix_maps'):
            ok = S(ev.args[0]) == ('sym', 'ip_version') and any(x[0] == 'call' and x[1].endswith('load_as_prefix_map') and S(x[2][0]) == ('sym', 'file_path') for x in T.subterms(S(ev.args[1])))
            rep.ob('C30.as', 'loaded', ok, '%s is kept as the map of %s' % (T.show(ev.args[1])[:60], T.show(ev.args[0])[:40]), ev.loc())
    eng(p, (), on_call=oc2).run(g)
