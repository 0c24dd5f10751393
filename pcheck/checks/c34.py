"""C34: what is remembered between events (the streams of each open exit circuit, the clients of the current
and the previous window) and when: every change of that state in the handlers, with its exact condition."""
from ..meaning import *
from ..counting import *
from .c32 import increments

INFO, CUR, ROT = slf('circ_info'), slf('cli_ips_current'), slf('cli_ips_rotated')
KEPT = (INFO, CUR, PREV, ROT)
CH, CI = call('int', item(1)), call('int', item(2))
IP = F('ip', 'PreviousNodeIPAddress', C('0.0.0.0'))
ENTRY = AND(LEGACY, flag('IsEntryFlag'))
EARLIER = ('less', F('float', 'CreatedTimestamp'), ROT)


def expected():
    """{(event, operation, container, key, value): condition}"""
    out = {}
    out[STREAM, 'init', INFO, CH, '{}'] = STREAM_BASE
    out[STREAM, 'init', idx(INFO, CH), CI, 'streams'] = STREAM_BASE
    for w, f in CLASS.items():
        out[STREAM, 'add', idx(INFO, CH, CI, C('num_streams')), C(w), ONE] = AND(STREAM_BASE, f)
        out[STREAM, 'append', idx(INFO, CH, CI, C('stream_starttimes')), C(w), T0] = AND(STREAM_BASE, f)
    out[CIRCUIT, 'remove', idx(INFO, CHAN), CIRC, None] = AND(LEGACY_EXIT, KNOWN_CIRC)
    out[CIRCUIT, 'init', CUR, IP, 'client'] = ENTRY
    out[CIRCUIT, 'set', idx(CUR, IP), C('is_active'), TRUE] = AND(ENTRY, BUSY)
    out[CIRCUIT, 'init', PREV, IP, 'client'] = AND(ENTRY, EARLIER)
    out[CIRCUIT, 'set', idx(PREV, IP), C('is_active'), TRUE] = AND(ENTRY, EARLIER, BUSY)
    for k, f in (('num_active_completed', BUSY), ('num_inactive_completed', NOT(BUSY))):
        out[CIRCUIT, 'add', idx(CUR, IP), C(k), ONE] = AND(ENTRY, f)
    out[TIMER, 'set', SELF, PREV, CUR] = True
    out[TIMER, 'set', SELF, CUR, '{}'] = True
    out[TIMER, 'set', SELF, ROT, 'now'] = True
    return out


# changes that may also happen: (event, operation, container, key, value) -> at most under
# (removing the channel: only once it has no circuits)
def allowed():
    out = {}
    out[CIRCUIT, 'remove', INFO, CHAN, None] = (AND(LEGACY_EXIT, KNOWN_CIRC), None)
    for k in ('num_active_completed', 'num_inactive_completed'):
        out[CIRCUIT, 'init', idx(CUR, IP), C(k), ZERO] = (ENTRY, None)
    return out


ZERO = C(0)


def place(t):
    """X.setdefault(k, d) and X.get(k) used as a value are X[k]"""
    if not isinstance(t, tuple) or not t or t[0] == 'c':
        return t
    t = tuple(place(x) if isinstance(x, tuple) else x for x in t)
    if t[0] == 'mcall' and t[2] in ('setdefault', 'get') and t[3]:
        return ('idx', t[1], t[3][0])
    return t


def root(t):
    while t[0] in ('idx', 'mcall', 'elem'):
        t = t[1]
    return t


class Kept:
    def __init__(self, p, c):
        self.p, self.c = p, c

    def value(self, ga, v):
        """what a fresh value is: '{}', 'streams', 'client', a term"""
        if v[0] == 'dictv':
            d = ga.items(v)
            if not d:
                return '{}'
            flat = {}
            for k, x in d.items():
                if len(x) != 1:
                    return v
                flat[k] = self.value(ga, x[0][1])
            if set(flat) == {'num_streams', 'stream_starttimes'} and flat['num_streams'] == {w: ZERO for w in CLASS} and flat['stream_starttimes'] == {w: '[]' for w in CLASS}:
                return 'streams'
            if flat.get('is_active') == FALSE and all(k in ('is_active', 'num_active_completed', 'num_inactive_completed') and x in (FALSE, ZERO) for k, x in flat.items()):
                return 'client'
            return flat
        if v[0] == 'tupv' and not ga.items(v):
            return '[]'
        if v[0] == 'call' and v[1] in ('dict', 'time.time') and not v[2]:
            return '{}' if v[1] == 'dict' else 'now'
        if v[0] == 'call' and v[1].endswith('defaultdict'):
            return 'defaultdict'
        return self.norm(v)

    def norm(self, t):
        return self.c.norm.term(place(self.c.canont(t)))

    def guard(self, g):
        h = {}
        for a, v in self.c.canong(g).items():
            a = place(a)
            h[a] = v
        return self.c.norm.guard(h)[0]

    def ops(self, key):
        """[(event, op, container, key, value, guard, loc, seq)]"""
        ga = self.c.runs[key][0]
        out = []
        for n, (g, kind, target, loc, fn, value, seq) in enumerate(ga.effects):
            if kind == 'store':
                cont, k = (target[1], C(target[2]) if isinstance(target[2], str) else target[2]) if target[0] == 'attr' else (target[1], target[2])
                cont = self.norm(cont)
                if target[0] == 'attr':
                    if cont != SELF or slf(target[2]) not in KEPT:
                        continue
                    k = slf(target[2])
                elif root(cont) not in KEPT:
                    continue
                k = self.norm(k) if k is not None else NONE
            else:
                cont, k = self.norm(target), None
                if root(cont) not in KEPT:
                    continue
            ev = TIMER if key == 'timer' else event_of(g)
            h = self.guard(g)
            if h is None:
                continue
            full = idx(cont, k) if k is not None and cont != SELF else k
            if kind == 'store':
                v = self.value(ga, value)
                if v == full:
                    continue
                if isinstance(v, tuple) and v[0] == 'sum' and full in v[1]:
                    rest = list(v[1])
                    rest.remove(full)
                    v = rest[0] if len(rest) == 1 else total(*rest)
                    if v[0] == 'tupv' and len(ga.items(v)) == 1 and len(ga.items(v)[0]) == 1:
                        op, v = 'append', self.norm(ga.items(v)[0][0][1])
                    else:
                        op = 'add'
                elif h.get(('in', k, cont)) is False:
                    op = 'init'
                    h = {a: x for a, x in h.items() if a != ('in', k, cont)}
                else:
                    op = 'set'
            elif kind == 'setdefault':
                op, k = 'init', self.norm(value[0])
                v = self.value(ga, value[1]) if len(value) > 1 else NONE
            elif kind == 'append' and cont[0] == 'idx':
                op, k, cont = 'append', cont[2], cont[1]
                v = self.norm(value[0])
            elif kind == 'pop' and value:
                op, k, v = 'remove', self.norm(value[0]), None
            elif kind == 'sort':
                continue
            else:
                op, v = kind, tuple(self.norm(x) for x in value)
            if cont == SELF and k in KEPT and op == 'init':
                op = 'set'
            out.append((ev, op, cont, k, v, h, loc, seq, n))
        return out


def check(p, rep):
    rep.rule('change', 'each documented change of the kept state happens exactly under its condition', 10)
    rep.rule('nothing else', 'the kept state is changed in no other way while handling events or rotating', 1)
    rep.rule('order', 'what is counted is read before it is forgotten: circuits are removed, and windows replaced, afterwards', 2)
    rep.rule('start', 'the kept state starts empty, and nothing outside the handlers changes it', 1)
    c = increments(p)
    k = Kept(p, c)
    ops = k.ops('handle_event') + (k.ops('timer') if 'timer' in c.runs else [])
    exp, may = expected(), allowed()
    name = lambda e: '%s: %s %s[%s] %s' % (e[0], e[1], show(e[2])[:90], show(e[3]) if e[3] is not None else '', show(e[4]) if isinstance(e[4], tuple) else e[4])
    for e, f in sorted(exp.items(), key=repr):
        gs = [(o[5], o) for o in ops if o[:5] == e]
        atoms = set(atoms_of(f)).union(*[set(g) for g, _ in gs]) if gs else set(atoms_of(f))
        t = Table(atoms, CAN[e[0]])
        have, want, dc = t.union([g for g, _ in gs]), t.formula(f), 0
        if e[1] == 'set' and e[2] != SELF:
            dc = t.formula(('truthy', idx(e[2], e[3]))) if ('truthy', idx(e[2], e[3])) in t.mask else 0
        extra, miss = have & ~want & ~dc, want & ~have & ~dc
        loc = gs[0][1][6] if gs else 'privcount/data_collector.py'
        if extra:
            loc = [o[6] for g, o in gs if t.set(g) & extra][0]
        rep.ob('change', name(e), not extra and not miss, '%s %s when %s' % (name(e), 'also happens' if extra else 'does not happen', show_g(t.example(extra or miss))[:300] if extra or miss else ''), loc)
        twice = [(o, q) for i, (g, o) in enumerate(gs) for h, q in gs[:i] if e[1] in ('add', 'append') and t.set(g) & t.set(h) and o[8] != q[8] and conj(c.canong(ga_guard(c, o)), c.canong(ga_guard(c, q))) is not None]
        rep.ob('change', name(e) + ' once', not twice, '%s happens twice' % name(e), twice[0][0][6] if twice else loc)
    odd = []
    for o in ops:
        if o[:5] in exp:
            continue
        f = may.get(o[:5])
        if f is not None:
            t = Table(set(o[5]) | atoms_of(f[0]), CAN[o[0]])
            if not t.set(o[5]) & ~t.formula(f[0]) and (o[1] != 'remove' or any(empty(a, v, idx(o[2], o[3])) for a, v in o[5].items())):
                continue
        if o[1] == 'init' and o[2] == INFO and o[4] == '{}' and o[0] == STREAM:
            continue
        odd.append(o)
    rep.ob('nothing else', 'handlers', not odd, odd and 'the kept state is changed: %s when %s' % (name(odd[0][:5]), show_g(odd[0][5])[:200]) or '', odd[0][6] if odd else '')
    # read before forgotten
    for key, (ga, incs, fn) in c.runs.items():
        for o in k.ops(key):
            ev, op, cont, kk, v = o[:5]
            gone = INFO if op == 'remove' else kk if cont == SELF and op == 'set' and kk != ROT else None
            if gone is None:
                continue
            late = [r for r in ga.recs[o[7]:] if (TIMER if key == 'timer' else event_of(r.g)) == ev and conj(ga.effects[o[8]][0], r.g) is not None and mentions(k, ga, r, gone)]
            rep.ob('order', '%s %s' % (ev, show(gone)), not late, '%s is counted after %s was forgotten' % (show(gone), show(gone)), late[0].loc if late else o[6])
    st = [o for o in ops if o[0] == TIMER and o[2] == SELF]
    a = [o[8] for o in st if o[3] == PREV]
    b = [o[8] for o in st if o[3] == CUR]
    rep.ob('order', 'window', bool(a and b) and max(a) < min(b), 'the current window is emptied before it becomes the previous one', st[0][6] if st else '')
    # elsewhere
    cl = c.cl
    seen = set()
    for ga, _, fn in c.runs.values():
        seen |= {f.qual for f in ga.visited}
    names = {x[2]: x for x in KEPT}
    for f in sorted(p.funcs.values(), key=lambda f: f.qual):
        if f.cls is not cl or f.qual in seen:
            continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Attribute) and x.attr in names and isinstance(x.value, ast.Name):
                            v = ast.unparse(n.value)
                            good = t is x and (v in ('{}', 'dict()') if x.attr != 'cli_ips_rotated' else v in ('time()', 'time.time()', '0', '0.0', 'None'))
                            rep.ob('start', '%s in %s' % (x.attr, f.name), good, '%s is set to %s in %s' % (x.attr, v[:60], f.name), f.loc(n))


def empty(a, v, t):
    """the literal says that t is empty"""
    n = ('call', 'len', (t,), ())
    return (a, v) in ((('eq', n, ZERO), True), (('lt', n, 1), True), (('truthy', t), False), (('truthy', n), False), (('eq', t, ZERO), True))


def ga_guard(c, o):
    return c.runs['timer' if o[0] == TIMER else 'handle_event'][0].effects[o[8]][0]


def mentions(k, ga, r, what):
    for h, ts, d in ga.product(r.args, r.kw, r.g):
        for t in list(ts) + list(d.values()):
            if within(k.norm(t), what):
                return True
    return any(within(k.norm(x), what) for a in r.g for x in a if isinstance(x, tuple) and a[0] == 'each')


def within(t, what):
    if t == what:
        return True
    return isinstance(t, (tuple, frozenset)) and any(within(x, what) for x in t if isinstance(x, (tuple, frozenset)))
