"""Shared extraction for the collection phase properties: every path of every method of
CollectionPhase as a sequence of labels (stores, mutations, emptiness tests), each with the
states the phase can be in at that point."""
from ..util import *

CP = 'CollectionPhase'
SELF = ('self', CP)
STATES = ('new', 'starting_dcs', 'starting_sks', 'started', 'stopping', 'stopped')
FIELDS = ('state', 'need_shares', 'need_counts', 'encrypted_shares', 'final_counts', 'error_flag')


def A(n):
    return ('attr', SELF, n)


def attr_name(t):
    t = strip(t)
    return t[2] if t[0] in ('attr', 'hv') and t[1] == SELF else None


def poss(st, facts):
    """states the phase can be in"""
    v = strip(st.heap.get((SELF, 'state'), A('state'))) if st is not None else NONE
    if v != NONE and is_const(v):
        return frozenset([v[2]])
    out = set(STATES)
    for k, pol in facts.items():
        if k[0] == 'cmp' and attr_name(k[2]) == 'state':
            if k[1] == 'eq' and is_str(k[3]):
                out &= {k[3][2]} if pol else set(STATES) - {k[3][2]}
            if k[1] == 'in' and k[3][0] in ('tuple', 'list', 'set', 'obj'):
                items = k[3][3] if k[3][0] == 'obj' else k[3][1]
                if items and all(is_str(i) for i in items):
                    vs = {i[2] for i in items}
                    out &= vs if pol else set(STATES) - vs
    return frozenset(out)


def iterables(t):
    """the collections a loop or update runs over"""
    t = strip(t)
    if t[0] == 'bin' and t[1] in ('Add', 'BitOr'):
        return iterables(t[2]) + iterables(t[3])
    if t[0] == 'call' and t[1] in ('set', 'list', 'tuple', 'sorted', 'frozenset', 'itertools.chain') and t[2]:
        return [x for a in t[2] for x in iterables(a)]
    if t[0] == 'mcall' and t[2] == 'union':
        return iterables(t[1]) + [x for a in t[3] for x in iterables(a)]
    if t[0] in ('attr', 'hv'):
        return [t[2]] if t[1] == SELF else []
    return []


class Path(object):
    def __init__(self, m, s, c):
        self.m, self.s, self.c, self.facts = m, s, c, s.facts
        tr, cur = [], None
        for l in s.trace:      # the states before a state store
            if l[:2] == ('set', 'state'):
                if cur is not None:
                    l = l[:3] + (cur,) + l[4:]
                cur = frozenset([l[2][2]]) if is_const(l[2]) else None
            tr.append(l)
        self.trace = tuple(tr)

    def val(self, a):
        return strip(self.s.heap.get((SELF, a), A(a)))

    def end_states(self):
        return poss(self.s, self.facts)

    def filled(self, attr):
        """collections added to the set attribute on this path"""
        out = set()
        for l in self.trace:
            if l[0] == 'mut' and l[2] == attr:
                if l[1] in ('.add',) and l[4] and l[3]:
                    e = strip(l[3][0])
                    if e[0] == 'elem' and strip(e[1]) == strip(l[4][-1]):
                        out |= set(iterables(e[1]))
                if l[1] in ('.update', '.__ior__'):
                    for a in l[3]:
                        out |= set(iterables(a))
                if l[1] == '.clear':
                    out = set()
            if l[0] == 'set' and l[1] == attr:
                v = strip(l[2])
                out = set(iterables(v))
        return out


def run_phase(p, rep, extra=(), skip=()):
    """{method name: [Path]} and the events of each store"""
    cls = p.cls(CP)
    out = {}

    def facts_of(ev):
        f = ev.facts
        return tuple(sorted(((k, v) for k, v in f.items() if k[0] in ('truthy', 'isnone') or k[0] == 'cmp' and k[1] in ('in', 'eq')), key=repr))

    def on_call(ev):
        if ev.kind == 'setattr' and ev.recv == SELF and ev.name[1:-1] in FIELDS:
            return ('set', ev.name[1:-1], ev.value, poss(None if ev.name == '.state=' else ev.st, ev.facts), facts_of(ev), ev.loc())
        if ev.kind in ('setitem', 'delitem'):
            a = attr_name(ev.recv)
            if a in FIELDS:
                return ('item' if ev.kind == 'setitem' else 'mut', '.del' if ev.kind == 'delitem' else a, ev.args[0] if ev.kind == 'setitem' else a,
                        ev.args[-1], poss(ev.st, ev.facts), facts_of(ev), ev.loc())
        if ev.kind == 'call' and ev.name in ('.add', '.remove', '.clear', '.append', '.discard', '.pop', '.update', '.insert', '.extend', '.popitem',
                                             '.difference_update', '.intersection_update'):
            r = strip(ev.recv)
            a = attr_name(r)
            if a in FIELDS:
                return ('mut', ev.name, a, ev.args, tuple(l[0] for l in ev.loops), poss(ev.st, ev.facts), facts_of(ev), ev.loc())
            if any(attr_name(x) == 'encrypted_shares' for x in subterms(r)):
                return ('share', ev.name, r, ev.args, tuple(l[0] for l in ev.loops), poss(ev.st, ev.facts), facts_of(ev), ev.loc())
        for n, fn in extra:
            if ev.kind == 'call' and ev.name == n:
                return ('call', n, tuple(ev.args), poss(ev.st, ev.facts), facts_of(ev), ev.loc(), ev.recv)

    def on_assume(a, pol):
        if a[0] == 'truthy' and attr_name(a[1]) in ('need_shares', 'need_counts') and not pol:
            return ('*', 'empty', attr_name(a[1]))

    def track(a):
        return any(x[0] in ('attr', 'hv') and x[1] == SELF and x[2] in FIELDS + ('dc_uids', 'sk_uids') for x in subterms(a)) or \
            a[0] in ('truthy', 'isnone', 'cmp') and any(x[0] == 'sym' for x in subterms(a)) and not any(x[0] == 'elem' for x in subterms(a)) or \
            any(x[0] == 'mcall' and x[2] in ('tally_counters',) or x[0] == 'call' and x[1].endswith('tally_counters') for x in subterms(a))
    # methods that can change the fields, and the small ones that only read them
    touch = set()
    while True:
        more = {g.name for g in cls.methods.values() if g.name not in touch and (touches(g) or any(k == 'func' and t.cls is cls and t.name in touch for _, k, t in p.calls(g)))}
        if not more:
            break
        touch |= more
    read = {g.name for g in cls.methods.values() if len(list(ast.walk(g.node))) < 150}
    for n, f in sorted(cls.methods.items()):
        if n in skip or n not in touch:
            continue
        eng = Engine(p, inline=lambda g: g.cls is cls and g.name not in skip and (g.name in touch or g.name in read), on_call=on_call, on_assume=on_assume, track=track,
                     assert_inline=False, raisers=lambda n: False, zero_iter=False, cap=900)
        out[n] = [Path(n, s, c) for s, c in eng.run(f, selfcls=CP)]
        rep.count('paths', len(out[n]))
        rep.count('statements interpreted', eng.steps)
    return out


def touches(g):
    return any(isinstance(n, ast.Attribute) and n.attr in FIELDS and isinstance(n.value, ast.Name) and n.value.id == 'self' for n in ast.walk(g.node)) and \
        any(isinstance(n, ast.Attribute) and n.attr in FIELDS and isinstance(n.ctx, (ast.Store, ast.Del)) or
            isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS | {'setdefault'} or
            isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) for n in ast.walk(g.node))


def fact(facts, *pats):
    """value of the first fact matching"""
    d = dict(facts)
    for p_ in pats:
        if p_ in d:
            return d[p_]
    return None


def member(facts, x, attr):
    for k, v in facts:
        if k[0] == 'cmp' and k[1] == 'in' and strip(k[2]) == strip(x) and attr_name(k[3]) == attr:
            return v
    return None


def truth(facts, attr):
    for k, v in facts:
        if k[0] == 'truthy' and attr_name(k[1]) == attr:
            return v
        if k[0] == 'cmp' and k[1] == 'eq' and attr_name(k[2]) == attr and is_const(k[3]) and v:
            return bool(k[3][2])
    return None


def entry_methods(p):
    """methods of the phase called from outside the class, and its constructor"""
    cls = p.cls(CP)
    return {n for n in cls.methods if not n.startswith('_')} | {'__init__'}


def foreign_stores(p, names):
    """stores to these attributes on something that is not self of the phase class"""
    cls = p.cls(CP)
    out = []
    for a in names:
        for f, n, v in attr_stores(p, a):
            if f.cls is cls:
                continue
            for t in ast.walk(n):
                if isinstance(t, ast.Attribute) and t.attr == a and isinstance(t.ctx, ast.Store):
                    src = ast.dump(t.value)
                    if 'collection_phase' in src or a in ('need_shares', 'need_counts', 'encrypted_shares', 'final_counts', 'error_flag'):
                        out.append((a, f, n))
    return out
