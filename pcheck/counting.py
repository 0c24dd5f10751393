"""What the event handlers do to the counters: every call of increment reached from the entry points, with
the exact condition, counter name, bin and amount, and every change of the state kept between events."""
import ast, time
from .guard import *
from .util import *
from .sym import KNOWN

GETTERS = {'get_string_value': 'string', 'get_list_value': 'list', 'get_int_value': 'int', 'get_flag_value': 'flag', 'get_float_value': 'float',
           'get_ip_address_object': 'ipobj', 'get_ip_address_value': 'ip'}
DC = 'privcount.data_collector'


def calls(p, f, what):
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call):
            r = p.resolve_dotted(n.func, f.mod)
            if r is not None and (r[0] == 'func' and r[1].qual == what or r[0] == 'ext' and r[1] == what):
                return True
    return False


LOOPS = (ast.For, ast.While, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)


def matchers(p):
    """the helpers of the data collector that search the lists of a counter: they loop, and ask exact_match (or a helper that does)"""
    if not hasattr(p, '_matchers'):
        fs = [f for f in p.funcs.values() if f.mod.name == DC and not f.name.startswith(('_handle', 'handle', '_increment', '__'))]
        loops = {f.qual: any(isinstance(n, LOOPS) for n in ast.walk(f.node)) for f in fs}
        ask = {f.qual for f in fs if calls(p, f, 'privcount.match.exact_match')}
        test = {q for q in ask if not loops[q]}
        p._matchers = [f for f in fs if loops[f.qual] and (f.qual in ask or any(kind == 'func' and t.qual in test for n, kind, t in p.calls(f)))]
        p._matchers += [p.funcs[q] for q in test if not any(kind == 'func' and t.qual == q for f in p._matchers for n, kind, t in p.calls(f))]
    return p._matchers


def role(p, f):
    """what a helper is for, whatever it is called"""
    if f in matchers(p):
        return 'match_bin'
    if f.mod.name != DC or f.cls is None or f.name.startswith(('_handle', 'handle', '_increment', '__')):
        return None
    if calls(p, f, 'math.log'):
        return 'log_ratio'
    if f.name == '_p2p_port_set':
        return 'p2p_ports'
    if f.name == '_compute_interstream_creation_times':
        return 'gaps'
    if sq(f) in KNOWN and f.name.startswith(('are_', 'is_')) and f.name.endswith('_valid'):
        return 'valid'
    if f.name.startswith('warn_') and sq(f) in KNOWN:
        return 'warn'
    return None


def opaque_for(p):
    roles = {}

    def opaque(f):
        if f.qual not in roles:
            roles[f.qual] = role(p, f)
        if roles[f.qual]:
            return roles[f.qual]
        return sq(f) in KNOWN and f.mod.name != DC
    return opaque


def canon(t):
    """fields read as mandatory, or with 'absent' as their default, are the same observation"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'c':
        return t
    if t[0] == 'F':
        d = t[3]
        if d == ('mandatory',):
            d = NONE
        if t[1] == 'flag' and d == FALSE:
            d = NONE
        return ('F', t[1], t[2], d)
    r = tuple(canon(x) if isinstance(x, tuple) else frozenset(canon(y) for y in x) if isinstance(x, frozenset) else x for x in t)
    return r


class Inc:
    def __init__(self, g, name, args, rec):
        self.g, self.name, self.args, self.rec = g, name, args, rec

    @property
    def loc(self):
        return self.rec.loc


class Counting:
    def __init__(self, p):
        self.p = p
        self.cl = p.cls('Aggregator')
        self.inc = [f for f in p.funcs.values() if f.name == 'increment' and f.cls is not None and f.cls.name == 'SecureCounters'][0]
        self._c = {}
        self.opaque = opaque_for(p)
        self.runs = {}
        a = self.inc.node.args
        ga = Guarded(p, self.inc.cls)
        ga.stack = [self.inc]
        self.dflt = {x.arg: ga.eval(d, {}, {})[0][1] for x, d in zip(a.args[len(a.args) - len(a.defaults):], a.defaults)}
        self.entry('handle_event', p.method(self.cl, 'handle_event'))
        # what the rotation timer calls
        for f in p.funcs.values():
            if f.cls is self.cl:
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Call) and ast.unparse(n.func).split('.')[-1] == 'LoopingCall' and n.args and isinstance(n.args[0], ast.Attribute):
                        m = p.method(self.cl, n.args[0].attr)
                        if m is not None:
                            self.entry('timer', m)

    def entry(self, key, fn):
        ga = Guarded(self.p, self.cl, self.opaque, lambda f: GETTERS.get(f.name) if f.mod.name == 'privcount.tagged_event' else None, self.wanted)
        ga.run(fn, {})
        incs = []
        for r in ga.recs:
            if r.name[1] != 'increment':
                continue
            pars = self.inc.params[1:]
            for h, ts, d in ga.product(r.args, r.kw, r.g):
                a = dict(zip(pars, ts))
                a.update(d)
                for n in pars:
                    if n not in a and n in self.dflt:
                        a[n] = self.dflt[n]
                incs.append(Inc(self.canong(h), a.get(pars[0], NONE), {k: self.canont(v) for k, v in a.items()}, r))
        self.runs[key] = (ga, incs, fn)

    def wanted(self, recv, name):
        return name == 'increment' or recv == ('attr', ('self',), 'traffic_model')

    def canont(self, t):
        r = self._c.get(t)
        if r is None:
            r = self._c[t] = canon(t)
        return r

    def canong(self, g):
        h = {}
        for a, v in g.items():
            a = self.canont(a)
            if h.get(a, v) != v:
                raise AnalysisBroken('inconsistent condition')
            h[a] = v
        return h


_cache = {}


def counting(p):
    if id(p) not in _cache:
        _cache[id(p)] = Counting(p)
    return _cache[id(p)]


def table(p):
    """{counter name: set of events}, the dummy, and where"""
    m = p.modules['privcount.counter']
    t = m.consts['PRIVCOUNT_COUNTER_EVENTS']
    if not isinstance(t, ast.Dict):
        raise AnalysisBroken('the counter events table is not a literal')

    def val(e):
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Name) and isinstance(m.consts.get(e.id), ast.AST) and e.id not in m.multi:
            return val(m.consts[e.id])
        raise AnalysisBroken('privcount/counter.py:%s: entry of the counter events table not understood' % getattr(e, 'lineno', '?'))
    out, dup = {}, []
    for k, v in zip(t.keys, t.values):
        n = val(k)
        if isinstance(v, (ast.Set, ast.List, ast.Tuple)):
            ev = {val(x) for x in v.elts}
        elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'set':
            ev = {val(x) for x in v.args[0].elts} if v.args else set()
        else:
            ev = {val(v)}
        if n in out:
            dup.append(n)
        out[n] = ev
    return out, dup


def event_of(g):
    """the event code the condition says"""
    for a, v in g.items():
        if v and a[0] == 'eq' and a[1] == ('idx', ('sym', 'event'), C(0)):
            return a[2][2]
    return None
