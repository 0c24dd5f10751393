"""C29: path facts of every answer of the matching functions: what is known about the searched object where a match, no
match, or a list number is answered, and which writes build the structures that are searched."""
from ..sym import Engine
from ..util import *
from ..counting import matchers
from .. import terms as T, fields

M = 'privcount.match.'


def check(p, rep):
    rep.rule('C29.first', 'the bin of an exact match is the position of the first list that contains it, and inf if none does', 1)
    rep.rule('C29.exact', 'an object matches exactly if its lower case form, or for onion addresses its hash, is in the list', 1)
    rep.rule('C29.prepare', 'an exact list is the set of the lower case forms of its items, without those of earlier lists', 4)
    rep.rule('C29.suffix', 'a suffix match follows the components of the name from the last to the first, and ends at the first tag', 3)
    rep.rule('C29.split', 'names are compared by their lower case components, last one first, without outer separators', 1)
    rep.rule('C29.tree', 'a suffix is added to the tree exactly where its components lead, unless a shorter one is there', 5)
    rep.rule('C29.tag', 'a list number is told apart from a branch of the tree', 1)
    rep.rule('C29.as', 'an address belongs to the AS of its prefix', 1)
    rep.rule('C29.load', 'items are loaded in the form they are searched in', 5)
    first(p, rep)
    exact(p, rep)
    prepare(p, rep)
    split(p, rep)
    suffix(p, rep)
    tree(p, rep)
    prefix(p, rep)
    load(p, rep)
    rep.assumption('pyasn looks up the longest prefix; hash functions are what they are called')


def S(t):
    return T.strip(t)


def eng(p, f, **k):
    k.setdefault('inline', lambda g: sq(g) not in KNOWN)
    return Engine(p, assert_inline=False, raisers=lambda n: False, strict_cmp=True, **k)


def bound(p, t):
    """{parameter: term} of a call term of a function of the program"""
    f = p.fn(t[1].lstrip('!'))
    d = dict(zip(f.params, t[2]))
    d.update(dict(t[3]))
    return f, d


def sets(facts):
    """[(element, set, known)] of all facts about membership"""
    return [(S(k[2]), S(k[3]), v) for k, v in facts.items() if k[0] == 'cmp' and k[1] == 'in']


def first(p, rep):
    fs = matchers(p)
    if not fs:
        raise AnalysisBroken('no function of the data collector calls exact_match')
    for f in fs:
        ps = [x for x in f.params if x != 'self']
        objs = ('sym', ps[0])
        lists = set()

        def matched(facts):
            out = []
            for k, v in facts.items():
                if k[0] == 'truthy' and k[1][0] == 'call' and k[1][1].endswith('.exact_match'):
                    _, d = bound(p, ('call', M + 'exact_match') + tuple(k[1][2:]))
                    out.append((S(d.get('exact_obj', NONE)), S(d.get('search_obj', NONE)), S(d.get('match_onion_md5', FALSE)), v))
            return out

        def fair(m):
            return m[0] == ('elem', objs) and m[1] == ('sym', ps[1]) and (len(ps) < 3 or m[2] == ('sym', ps[2]))

        def oi(ends, it, elemv, lid, poss, n, fn):
            t = S(it) if it is not None else NONE
            asc = t in (objs, ('call', 'enumerate', (objs,), ())) or elemv == ('elem', ('indices', objs)) and t[0] == 'call' and t[1] in ('xrange', 'range') and t[2] in ((('len', objs),), (C(0), ('len', objs)))
            if elemv is not None and T.mentions(elemv, objs):
                rep.ob('C29.first', f.name + ' order', asc, 'the lists are searched in another order (%s)' % T.show(t)[:80], f.loc())
                lists.add(lid)
                for s in ends:
                    rep.ob('C29.first', f.name + ' goes on', any(fair(m) and m[3] is False for m in matched(s.facts)), 'a list is passed over that may contain the object', f.loc())
        res = eng(p, f, on_iter=oi).run(f)
        if not lists:
            raise AnalysisBroken('%s does not go through its lists' % f.name)
        for s, c in res:
            if c[0] != 'ret':
                continue
            v = strip_casts(S(c[1]), ('float', 'int'))
            hit = any(fair(m) and m[3] for m in matched(s.facts))
            if v == C(float('inf')):
                rep.ob('C29.first', f.name + ' none', not any(m[3] for m in matched(s.facts)), 'a match is answered with no list', f.loc())
            else:
                rep.ob('C29.first', f.name + ' found', v == ('elem', ('indices', objs)) and hit, 'answers %s' % T.show(v)[:80], f.loc())


def low(t, facts):
    """the term x if t is the lower case form of x (or x itself where x has none)"""
    t = S(t)
    if t[0] == 'call' and t[1].endswith('lower_if_hasattr'):
        return S(t[2][0])
    if t[0] == 'mcall' and t[2] == 'lower' and not t[3]:
        return S(t[1])
    if facts is not None and any(k[0] == 'cmp' and k[1] == 'hasattr' and S(k[2]) == t and v is False or k[0] == 'hasattr' and S(k[1]) == t and v is False or
                                 k[0] == 'truthy' and k[1][0] == 'call' and k[1][1] == 'hasattr' and S(k[1][2][0]) == t and v is False for k, v in facts.items()):
        return t
    return None


def exact(p, rep):
    f = p.fn(M + 'exact_match')
    obj, x, md5 = (('sym', n) for n in f.params[:3])
    h = p.funcs.get(M + 'lower_if_hasattr')
    if h is not None:
        for s, c in Engine(p, inline=lambda g: False, assert_inline=False).run(h):
            if c[0] == 'ret':
                o = ('sym', h.params[0])
                v = S(c[1])
                rep.ob('C29.exact', 'lower', low(v, None) == o or v == o and low(o, s.facts) == o, 'the lower case form is %s' % T.show(v)[:60], h.loc())
    e = eng(p, f, inline=lambda g: g.mod is f.mod and g.name != 'lower_if_hasattr')
    n = 0

    def kind(k, facts):
        if low(k, facts) == x:
            return 'plain'
        if low(k, None) is not None:
            k = low(k, None)
        if k[0] == 'mcall' and k[2] == 'hexdigest' and not k[3]:
            a = S(k[1])
            if a[0] == 'call' and a[1] == 'hashlib.md5':
                b = S(a[2][0])
                if b[0] == 'bin' and b[1] == 'Add' and b[3] == C('.onion') and low(b[2], facts) == x:
                    return 'hash'
        return None
    for s0, c in e.run(f):
        if c[0] != 'ret':
            continue
        for s, val in split_value(e, s0, c[1]):
            n += 1
            d = {}
            for k, o, v in sets(s.facts):
                w = kind(k, s.facts)
                if o != obj or w is None:
                    rep.ob('C29.exact', 'looks up', False, 'looks for %s in %s' % (T.show(k)[:80], T.show(o)[:40]), f.loc())
                else:
                    d[w] = v
            none = s.facts.get(('isnone', obj)) is True
            on = s.facts.get(('truthy', md5))
            if val:
                ok = not none and (d.get('plain') is True or d.get('hash') is True and on is True)
            else:
                ok = none or d.get('plain') is False and (on is False or d.get('hash') is False)
            rep.ob('C29.exact', 'answers %s' % val, ok, 'answers %s where that is not known' % val, f.loc())
    if not n:
        raise AnalysisBroken('exact_match never answers')


def split_value(e, s, t):
    t = S(t)
    if t in (TRUE, FALSE):
        return [(s, t == TRUE)]
    return [(s2, v) for s2, v in e.branch(s, t)]


def lowered(t, coll):
    """t is a collection of the lower case forms of the items of coll"""
    t = S(t)
    while t[0] == 'call' and t[1] in ('frozenset', 'set', 'list', 'tuple', 'sorted') and len(t[2]) == 1:
        t = S(t[2][0])
    return t[0] == 'comp' and len(t) > 3 and low(t[2], None) == ('elem', coll) and S(t[3]) == coll and not (len(t) > 4 and t[4])


def prepare(p, rep):
    f = p.fn(M + 'exact_match_prepare_collection')
    coll, exist = ('sym', f.params[0]), ('sym', 'existing_exacts')
    if 'existing_exacts' not in f.params:
        raise AnalysisBroken('exact_match_prepare_collection has no existing lists')

    def oc(ev):
        if ev.kind == 'call' and ev.recv is not None and S(ev.recv) == exist:
            return ('exist', ev.name.split('.')[-1], S(ev.args[0]) if ev.args else NONE)
    n = 0

    def adds(s):
        return [x for x in s.trace if isinstance(x, tuple) and x and x[0] == 'exist']
    less, each = {}, ('elem', exist)

    def oi(ends, it, x, lid, poss, n, fn):
        # every earlier collection is taken out
        if it is not None and S(it) == exist and not any(e.loop_left):
            for v in poss:
                L = ('loopvar', v, lid)
                if lowered(e.loop_init.get(v, NONE), coll) and ends and all(
                        S(y.env.get(v, NONE)) in (('bin', 'Sub', L, each), ('mcall', L, 'difference', (each,), ())) for y in ends):
                    less.update((y, e.loop_init[v]) for y in (poss[v][1] if poss[v][0] == 'set' else [('loopout', v, lid)]))
                    less[('loopout', v, lid)] = e.loop_init[v]
    e = eng(p, f, on_call=oc, on_iter=oi, zero_iter=False)
    for s, c in e.run(f):
        if c[0] != 'ret':
            continue
        n += 1
        v = S(c[1])
        plain = lowered(v, coll)
        diff = v[0] == 'mcall' and v[2] == 'difference' and lowered(v[1], coll) and v[3] == (('star', exist),) or \
            not plain and c[1] in less
        a = adds(s)
        if s.facts.get(('isnone', exist)) is True:
            rep.ob('C29.prepare', 'alone', plain and not a, 'the set of a single list is %s' % T.show(v)[:100], f.loc())
        else:
            rep.ob('C29.prepare', 'disjoint', diff, 'a list keeps items that an earlier list contains: %s' % T.show(v)[:100], f.loc())
            rep.ob('C29.prepare', 'kept', len(a) == 1 and a[0][1] == 'append' and (a[0][2] in (v, S(c[1])) or lowered(a[0][2], coll)), 'the list is not added to the earlier ones as it is searched', f.loc())
        rep.ob('C29.prepare', 'hashed', T.show(less.get(c[1], v)).startswith(('frozenset', 'set')), 'the collection is not a set', f.loc())
    if not n:
        raise AnalysisBroken('exact_match_prepare_collection never returns')


def parts(t):
    """(separator or None, operations, source) of the components of a name, last one first"""
    t = S(t)
    rev = False
    while True:
        if t[0] == 'call' and t[1] in ('list', 'tuple') and len(t[2]) == 1 and not isinstance(t[2][0], str) and S(t[2][0])[0] in ('call', 'mcall', 'slice'):
            u = S(t[2][0])
            if u[0] == 'mcall' and u[2] in ('lower', 'strip'):
                break
            t = u
        elif t[0] == 'call' and t[1] == 'reversed':
            rev, t = not rev, S(t[2][0])
        elif t[0] == 'idx' and t[2] == ('slice', NONE, NONE, C(-1)):
            rev, t = not rev, S(t[1])
        elif t[0] == 'slice' and t[-1] == C(-1) or t[0] == 'slice' and len(t) > 4 and t[4] == -1:
            rev, t = not rev, S(t[1])
        else:
            break
    sep = None
    if t[0] == 'mcall' and t[2] == 'split' and len(t[3]) == 1:
        sep, t = S(t[3][0]), S(t[1])
    elif t[0] == 'call' and t[1] == 'list':
        t = S(t[2][0])
    ops = set()
    while t[0] == 'mcall' and t[2] in ('lower', 'strip'):
        ops.add((t[2],) + tuple(S(x) for x in t[3]))
        t = S(t[1])
    return rev, sep, ops, t


def split(p, rep):
    f = p.fn(M + 'suffix_match_split')
    x, sep = ('sym', f.params[0]), ('sym', f.params[1])
    n = 0
    for s, c in eng(p, f).run(f):
        if c[0] != 'ret':
            continue
        n += 1
        rev, by, ops, src = parts(c[1])
        empty = s.facts.get(('truthy', sep)) is False or any(k[0] == 'cmp' and k[1] == 'eq' and v and set(k[2:4]) in ({('len', sep), C(0)}, {sep, C('')}) for k, v in s.facts.items())
        ok = rev and ('lower',) in ops and (('strip', sep) in ops or empty and ops == {('lower',)}) and ops <= {('lower',), ('strip', sep)} and src == x and (by is None if empty else by == sep)
        rep.ob('C29.split', 'characters' if empty else 'components', ok, 'a name is split into %s' % T.show(S(c[1]))[:120], f.loc())
    if not n:
        raise AnalysisBroken('suffix_match_split never returns')
    g = p.fn(M + 'is_collection_tag_valid')
    for s, c in eng(p, g).run(g):
        if c[0] != 'ret':
            continue
        t = ('sym', g.params[0])
        e = eng(p, g)
        for s2, v in split_value(e, s, c[1]):
            isd = [b for k, b in s2.facts.items() if k[0] == 'cmp' and k[1] in ('eq', 'is') and ('call', 'type', (t,), ()) in [S(z) for z in k[2:4]] or k[0] == 'truthy' and k[1][0] == 'call' and k[1][1] == 'isinstance' and S(k[1][2][0]) == t or k[0] in ('isinstance', 'type') and t in k or k[0] == 'cmp' and k[1] == 'isinstance' and S(k[2]) == t and k[3] == ('builtin', 'dict')]
            non = s2.facts.get(('isnone', t))
            ok = (True in isd or non is True) if not v else (False in isd and non is False)
            rep.ob('C29.tag', 'answers %s' % v, ok, 'a branch of the tree (or nothing) may be taken for a list number' if v else 'a list number may be taken for a branch of the tree', g.loc())


def is_tag(facts, t):
    """True/False/None: t is known to be (not to be) a list number"""
    for k, v in facts.items():
        if k[0] == 'truthy' and k[1][0] == 'call' and k[1][1].endswith('is_collection_tag_valid') and S(k[1][2][0]) == t:
            return v
    return None


def child(t, comp):
    """the node whose child for the component is t"""
    if t[0] == 'idx' and S(t[2]) == comp:
        return S(t[1])
    if t[0] == 'mcall' and t[2] in ('get', 'setdefault') and S(t[3][0]) == comp:
        return S(t[1])
    return None


def split_of(it, x, sep):
    it = S(it) if it is not None else NONE
    return it[0] == 'call' and it[1].endswith('suffix_match_split') and (it[2] + tuple(v for _, v in it[3]))[:2] == (x, sep)


def suffix(p, rep):
    f = p.fn(M + 'suffix_match')
    obj, x, sep = (('sym', n) for n in f.params[:3])
    st = {}

    def oi(ends, it, elemv, lid, poss, n, fn):
        if not split_of(it, x, sep):
            return
        comp = S(elemv)
        st['comp'] = comp
        for s in ends:
            nodes = [(v, S(t)) for v, t in s.env.items() if child(S(t), comp) == ('loopvar', v, lid)]
            rep.ob('C29.suffix', 'walk', len(nodes) == 1, 'the walk does not go on with the child of the component', f.loc())
            for v, t in nodes:
                st['node'] = ('loopvar', v, lid)
                rep.ob('C29.suffix', 'start', S(e.loop_init.get(v, NONE)) == obj, 'the walk starts at %s' % T.show(e.loop_init.get(v, NONE))[:60], f.loc())
                rep.ob('C29.suffix', 'passes no tag', is_tag(s.facts, t) is False, 'the walk passes over the end of a suffix', f.loc())
                there = s.facts.get(('cmp', 'in', comp, st['node'])) is True or s.facts.get(('isnone', t)) is False
                rep.ob('C29.suffix', 'walks on', there, 'the walk goes on to a component that may not be there', f.loc())
    e = eng(p, f, on_iter=oi)
    res = e.run(f)
    if 'comp' not in st:
        raise AnalysisBroken('suffix_match does not go through the components')
    comp = st['comp']
    rep.ob('C29.suffix', 'matches', any(c[0] == 'ret' and S(c[1]) != NONE for s, c in res), 'the walk never ends with a list number', f.loc())
    for s, c in res:
        if c[0] != 'ret':
            continue
        v = S(c[1])
        inl = any(T.mentions(k, comp) for k in s.facts)
        if v == NONE:
            why = any(s.facts.get(('isnone', q)) is True for q in (obj, x, sep)) or not inl
            node = st.get('node')
            gone = s.facts.get(('truthy', comp)) is False or any(k[0] == 'cmp' and k[1] == 'eq' and b and set(S(z) for z in k[2:4]) in ({('len', comp), C(0)}, {comp, C('')}) for k, b in s.facts.items()) or \
                node is not None and (s.facts.get(('cmp', 'in', comp, node)) is False or any(k[0] == 'isnone' and b and child(S(k[1]), comp) == node for k, b in s.facts.items()))
            # after the last component
            over = any(is_tag(s.facts, t) is False for k in s.facts if k[0] == 'truthy' and k[1][0] == 'call' and k[1][1].endswith('is_collection_tag_valid') for t in [S(k[1][2][0])] if child(t, comp))
            hit = any(b and k[0] == 'truthy' and k[1][0] == 'call' and k[1][1].endswith('is_collection_tag_valid') and child(S(k[1][2][0]), comp) for k, b in s.facts.items())
            rep.ob('C29.suffix', 'no match', (why or gone or over) and not hit, 'answers no match where the walk could go on', f.loc())
        else:
            ok = child(v, comp) is not None and child(v, comp) == st.get('node', child(v, comp)) and is_tag(s.facts, v) is True
            rep.ob('C29.suffix', 'match', ok, 'answers %s' % T.show(v)[:100], f.loc())


def tree(p, rep):
    f = p.fn(M + 'suffix_match_prepare_collection')
    coll, sep, exist, tag = ('sym', f.params[0]), ('sym', 'separator'), ('sym', 'existing_suffixes'), ('sym', 'collection_tag')
    item = ('elem', coll)
    st = {'tags': 0, 'walk': 0}

    def root(t, s):
        t = S(t)
        return t == exist or t[0] == 'obj' and t[1] == 'dict' or t[0] == 'loopvar' or t[0] == 'loopout'

    def comps(facts_or_terms):
        return [x for x in T.subterms(facts_or_terms) if x[0] == 'elem' and split_of(x[1], item, sep)]

    def is_comp(t):
        t = S(t)
        return t[0] == 'elem' and split_of(t[1], item, sep) or t[0] in ('last', 'loopout', 'loopvar') and True

    def met_tag(s):
        return any(v and k[0] == 'truthy' and k[1][0] == 'call' and k[1][1].endswith('is_collection_tag_valid') and comps(k[1][2][0]) for k, v in s.facts.items())

    def oc(ev):
        if ev.kind == 'setitem':
            recv, key, val = S(ev.recv), S(ev.args[0]), S(ev.args[1])
            if recv[0] not in ('obj', 'loopvar', 'loopout', 'sym', 'mcall', 'idx', 'c'):
                return None
            if val == tag:
                st['tags'] += 1
                rep.ob('C29.tree', 'tag', not met_tag(ev.st), 'a suffix is added below a shorter one', ev.loc())
                rep.ob('C29.tree', 'tag place', recv[0] == 'loopvar' or recv == NONE or child(recv, key) is None and recv[0] in ('obj', 'sym'), 'the end of a suffix is put into %s' % T.show(recv)[:80], ev.loc())
                return ('tagged',)
            if comps(key):
                ok = val[0] in ('obj', 'dict') and any(ev.st.facts.get(('isnone', t)) is True for t in [('mcall', recv, 'get', (key,), ())]) or ev.st.facts.get(('cmp', 'in', key, recv)) is False
                rep.ob('C29.tree', 'branch', ok, 'a part of the tree is overwritten with %s' % T.show(val)[:60], ev.loc())
            elif recv == exist or recv[0] == 'loopvar':
                rep.ob('C29.tree', 'other write', False, '%s is put into the tree' % T.show(val)[:60], ev.loc())
        if ev.kind == 'call' and ev.recv is not None and ev.name.split('.')[-1] in ('setdefault', 'update', 'pop', 'clear', 'popitem') and root(ev.recv, ev.st) and S(ev.recv)[0] != 'obj':
            nm = ev.name.split('.')[-1]
            ok = nm == 'setdefault' and comps(ev.args[0]) and S(ev.args[1])[0] in ('obj', 'dict')
            rep.ob('C29.tree', 'branch', bool(ok), '%s changes the tree' % nm, ev.loc())
        if ev.kind == 'delitem' and root(ev.recv, ev.st) and S(ev.recv)[0] != 'obj':
            rep.ob('C29.tree', 'branch', False, 'a part of the tree is deleted', ev.loc())

    def oi(ends, it, elemv, lid, poss, n, fn):
        if it is None:
            return
        if split_of(it, item, sep):
            comp = S(elemv)
            for s in ends:
                nodes = [(v, S(t)) for v, t in s.env.items() if v in e.loop_init and (
                    child(S(t), comp) == ('loopvar', v, lid) or S(s.heap.get((('loopvar', v, lid), '[]', comp), NONE)) == S(t) != NONE)]
                rep.ob('C29.tree', 'walk', len(nodes) == 1, 'adding a suffix does not go on with the child of the component', f.loc())
                for v, t in nodes:
                    st['walk'] += 1
                    i = S(e.loop_init[v])
                    rep.ob('C29.tree', 'start', i == exist or i[0] == 'obj' and i[1] == 'dict', 'adding a suffix starts at %s' % T.show(i)[:60], f.loc())
                    kid = [b for k, b in s.facts.items() if k[0] == 'truthy' and k[1][0] == 'call' and k[1][1].endswith('is_collection_tag_valid') and child(S(k[1][2][0]), comp) == ('loopvar', v, lid)]
                    rep.ob('C29.tree', 'below', False in kid and True not in kid, 'a suffix is added below a shorter one', f.loc())
        elif S(it) == coll:
            for s in ends:
                got = any(isinstance(x, tuple) and x == ('tagged',) for x in s.trace)
                rep.ob('C29.tree', 'added', got or met_tag(s), 'a suffix is neither added nor covered by a shorter one', f.loc())
    e = eng(p, f, on_iter=oi, on_call=oc)
    res = e.run(f)
    if not st['tags'] or not st['walk']:
        raise AnalysisBroken('suffix_match_prepare_collection adds nothing')
    for s, c in res:
        if c[0] == 'ret':
            v = S(c[1])
            o = S(v[1][0]) if v[0] == 'tuple' and v[1] else v
            rep.ob('C29.tree', 'result', o == exist and s.facts.get(('isnone', exist)) is False or o[0] == 'obj' and o[1] == 'dict' and s.facts.get(('isnone', exist)) is True,
                   'returns %s' % T.show(o)[:60], f.loc())


def prefix(p, rep):
    f = p.fn(M + 'ipasn_prefix_match')
    obj, ip = ('sym', f.params[0]), ('sym', f.params[1])
    for s, c in eng(p, f).run(f):
        if c[0] != 'ret':
            continue
        v = S(c[1])
        if v == NONE:
            rep.ob('C29.as', 'none', s.facts.get(('isnone', obj)) is True or s.facts.get(('isnone', ip)) is True, 'an address has no AS', f.loc())
        else:
            ok = v[0] == 'idx' and v[2] == C(0) and S(v[1])[0] == 'mcall' and S(v[1])[1:3] == (obj, 'lookup') and strip_casts(S(S(v[1])[3][0])) == ip
            rep.ob('C29.as', 'found', ok, 'the AS of an address is %s' % T.show(v)[:80], f.loc())


FORMS = {'check_domain': ('check_domain_name', True), 'check_country': ('check_country_code', True), 'check_as': ('check_as_number', False),
         'check_reason': ('check_reason_str', True), 'check_onion': ('check_onion_string', None)}


def load(p, rep):
    """every loaded item passed the check it needs, and is in lower case where the search is"""
    f = p.fn(M + 'load_match_list')
    missing = [a for a in FORMS if a not in f.params]
    if missing:
        raise AnalysisBroken('load_match_list has no %s' % missing)

    def oc(ev):
        if ev.kind == 'call' and ev.recv is not None and ev.name.split('.')[-1] == 'append' and ev.args:
            if not any(T.mentions(ev.args[0], l[0]) for l in ev.loops):
                return None
            t = S(ev.args[0])
            for flag, (chk, lower) in FORMS.items():
                if ev.st.facts.get(('truthy', ('sym', flag))) is not True:
                    continue
                calls = [(S(k[1][2][0]), v) for k, v in ev.st.facts.items() if k[0] == 'truthy' and k[1][0] == 'call' and k[1][1].endswith(chk)]
                rep.ob('C29.load', flag, any(v for _, v in calls), 'an item is loaded without %s' % chk, ev.loc())
                txt = T.show(t)
                if lower:
                    rep.ob('C29.load', flag + ' lower case', '.lower()' in txt, 'an item is loaded as %s' % txt[:80], ev.loc())
                if flag == 'check_as':
                    rep.ob('C29.load', flag + ' number', any(x[0] == 'call' and x[1] == 'int' for x in T.subterms(t)), 'an AS is loaded as %s' % txt[:80], ev.loc())
                if flag == 'check_onion':
                    rep.ob('C29.load', flag + ' form', any(x[0] == 'call' and x[1].endswith('strip_onion_str') for x in T.subterms(t)), 'an onion address is loaded as %s' % txt[:80], ev.loc())
            return ('item',)
    eng(p, f, on_call=oc).run(f)
    fields.lines(p, rep, 'C29.load', eng, f)
    fields.lines(p, rep, 'C29.load', eng, p.fn(M + 'load_as_prefix_map'))
