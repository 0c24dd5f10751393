"""C18: taint analysis of everything tor tells the data collector in an event.  The handlers are evaluated with
guards (see C32); every log, write, send and store they reach is a sink, judged by the exact condition under which
it is reached; functions that are handed observations are followed path by path; and so is the connection that receives the lines."""
from ..meaning import *
from ..counting import *
from ..sym import Engine, State
from .. import util as U
from .. import terms as T

KEPT = ('circ_info', 'cli_ips_current', 'cli_ips_previous')
SECRET = KEPT + ('secure_counters',)
EVENT = ('sym', 'event')
PARSE = 'privcount.tagged_event.parse_tagged_event'
# what a relay's descriptor cache holds, not who used it or for what
PLAIN = ('PeerIPAddressConsensusRelayCount', 'SupportedProtocolBitfield', 'IntroPointFingerprintList', 'DescriptorLifetime')
OUT = ('sendLine', 'write', 'writelines', 'send', 'sendall', 'dump', 'callRemote', 'writeSequence')


def is_sink(name):
    return name.startswith('logging.') and name.split('.')[-1] in ('info', 'warning', 'warn', 'error', 'critical', 'exception', 'log', 'fatal') or name in (
        'print', 'open', 'file', 'os.write', 'os.system', 'sys.stdout.write', 'sys.stderr.write', 'json.dump', 'pickle.dump', 'privcount.log.log_error') or name.startswith('subprocess.')


def taint(t):
    """the observation a term reveals, or None"""
    if not isinstance(t, tuple) or not t:
        return None
    if t == EVENT:
        return t
    k = t[0]
    if k == 'c':
        return None
    if k == 'idx' and t[1] == EVENT and t[2] == C(0):
        return None
    if k == 'F':
        return None if t[2] in PLAIN else t
    if k == 'attr' and t[1] == ('self',):
        return t if t[2] in SECRET else None
    if k == 'call':
        if str(t[1]).lstrip('!') == PARSE:
            return t
        if t[1] in ('sorted', 'list', 'set', 'len', 'tuple') and len(t[2]) == 1 and parsed(t[2][0]):
            return None         # the names of the fields
        if t[1] == 'len' and t[2] and only_event(t[2][0]):
            return None
        return first(t[2]) or first(v for _, v in t[3])
    if k == 'mcall' and t[2] in ('keys', 'iterkeys') and parsed(t[1]):
        return None
    if k == 'idx' and parsed(t[1]) and t[2][0] == 'c' and t[2][2] in PLAIN:
        return None
    if k == 'mcall' and t[2] == 'get' and parsed(t[1]) and t[3] and t[3][0][0] == 'c' and t[3][0][2] in PLAIN:
        return None
    return first(x for x in t[1:] if isinstance(x, (tuple, frozenset)))


def only_event(t):
    return t == EVENT or t[0] in ('slice', 'idx') and only_event(t[1])


def parsed(t):
    return t[0] == 'call' and str(t[1]).lstrip('!') == PARSE


def first(xs):
    for x in xs:
        if isinstance(x, (tuple, frozenset)):
            r = taint(x) if not (isinstance(x, frozenset) or x and isinstance(x[0], tuple)) else first(x)
            if r is not None:
                return r
    return None


def malformed(g, codes):
    """the event is refused under this condition: it has no fields that could be parsed, or it is of a kind that is not known"""
    for a, v in g.items():
        if a[0] == 'eq' and v and a[1][0] == 'call' and a[1][1] == 'len' and (parsed(a[1][2][0])) and a[2] == C(0):
            return True
        if a[0] in ('truthy',) and not v and parsed(a[1]):
            return True
        if a[0] == 'lt' and v and a[1][0] == 'call' and a[1][1] == 'len' and parsed(a[1][2][0]) and a[2] == C(1):
            return True
        if a[0] in ('truthy',) and not v and a[1][0] in ('call', 'mcall') and ('valid' == str(a[1][1]).lstrip('!') or str(a[1][1]).split('.')[-1].endswith('_valid')):
            return True
        if v and a[0] == 'lt' and a[1][0] == 'call' and a[1][1] == 'len' and only_event(a[1][2][0]):
            return True
        if not v and a[0] == 'eq' and a[1][0] == 'call' and a[1][1] == 'len' and only_event(a[1][2][0]):
            return True
    no = {a[2][2] for a, v in g.items() if not v and a[0] == 'eq' and a[1] == idx(EVENT, C(0)) and a[2][0] == 'c'}
    return codes <= no


class Flow(Counting):
    def __init__(self, p):
        self.ops = {}
        Counting.__init__(self, p)

    def entry(self, key, fn):
        old = self.opaque

        def opaque(f):
            r = old(f)
            return False if r == 'warn' else r
        ga = Guarded(self.p, self.cl, opaque, lambda f: GETTERS.get(f.name) if f.mod.name == 'privcount.tagged_event' else None, self.wanted)
        ga.ops = self.ops
        ga.run(fn, {})
        self.runs[key] = (ga, [], fn)

    def wanted(self, recv, name):
        if recv == ('ext',):
            return is_sink(name)
        return name in OUT or name == 'increment' or recv == ('attr', ('self',), 'traffic_model')


def check(p, rep):
    rep.rule('C18.log', 'no observation reaches a log, a file or a connection from the handling of a well-formed event', 20)
    rep.rule('C18.keep', 'observations are kept only in the state that the counting needs', 9)
    rep.rule('C18.read', 'the state kept between events is read only while handling events', 2)
    rep.rule('C18.callee', 'a function that is handed an observation logs it only to refuse it', 8)
    rep.rule('C18.line', 'an event line is logged only if it is refused or has no data', 4)
    c = Flow(p)
    codes = {e for es in table(p)[0].values() for e in es}
    n = 0
    for key, (ga, _, fn) in c.runs.items():
        for r in ga.recs:
            if r.name[0] != ('ext',) and r.name[1] not in OUT:
                continue
            n += 1
            if r.args is None:
                rep.ob('C18.log', 'args', malformed(r.g, codes), 'logs unknown arguments', r.loc)
                continue
            for h, ts, d in ga.product(r.args, r.kw, r.g):
                t = first([x for x in ts]) or first(d.values())
                if t is None and r.name[0] != ('ext',):
                    t = taint(r.name[0])
                rep.ob('C18.log', '%s %s' % (sq(r.fn), r.name[1]), t is None or malformed(h, codes),
                       t is not None and '%s shows %s of an event, or of what is kept, when %s' % (r.name[1], show(t)[:80], show_g(h)[:120]) or '', r.loc)
        for g, kind, target, loc, f, value, seq in ga.effects:
            vs = value if kind != 'store' and isinstance(value, tuple) and (not value or isinstance(value[0], tuple)) else (value,)
            vs = list(vs) + ([target[2]] if kind == 'store' and target[0] == 'idx' else [])
            t = first([x for x in vs if isinstance(x, tuple)])
            root = target
            while root[0] in ('idx', 'mcall', 'elem', 'slice') or root[0] == 'attr' and root[1] != ('self',):
                root = root[1]
            if root[0] == 'attr' and root[2] in SECRET or root[0] in ('dictv', 'tupv', 'other') or root[0] == 'call':
                t = None
            if taint(root) is not None:
                t = None        # a container made from the event itself
            whole = value is not None and value[0] == 'attr' and value[2] in KEPT and root[0] == 'attr' and root[2] in KEPT if isinstance(value, tuple) and value and isinstance(value[0], str) else False
            rep.ob('C18.keep', '%s %s' % (sq(f), show(root)[:60]), t is None or whole, t is not None and 'keeps %s in %s' % (show(t)[:80], show(target)[:60]) or '', loc)
    if n < 3:
        raise AnalysisBroken('the handlers of events have only %d logs: the analysis does not see them' % n)
    rep.count('logs and sends reached from events', n)
    # who reads what is kept
    seen = set()
    for ga, _, _ in c.runs.values():
        seen |= {f.qual for f in ga.visited} | {q for r in ga.recs for q in r.stack}
    for f in sorted(p.funcs.values(), key=lambda f: f.qual):
        for x in ast.walk(f.node):
            if isinstance(x, ast.Attribute) and x.attr in KEPT and isinstance(x.ctx, ast.Load):
                used = not (isinstance(getattr(x, 'ctx', None), ast.Load) and cleared(f.node, x))
                rep.ob('C18.read', '%s %s' % (sq(f), x.attr), f.qual in seen or not used, '%s reads %s' % (sq(f), x.attr), f.loc(x))
    # functions handed observations
    tainted = {}
    for fn, ts, d in [x for xs in c.ops.values() for x in xs]:
        pars = fn.params
        if fn.cls is not None and not fn.static and pars:
            pars = pars[1:]
        for nm, t in list(zip(pars, ts)) + list(d.items()):
            if taint(t) is not None or t[0] == 'F' or parsed(t):
                tainted.setdefault(fn, set()).add(nm)
    done, todo = set(), sorted(tainted, key=lambda f: f.qual)
    while todo:
        fn = todo.pop()
        if fn not in done:
            done.add(fn)
            todo += sorted(callee(p, rep, fn, tainted, done), key=lambda f: f.qual)
    rep.count('functions handed observations', len(tainted))
    lines(p, rep)
    rep.assumption('debug logs are off (they are, unless an operator asks for them); the counters themselves are covered by C06')


def cleared(node, x):
    """x.clear(), len-less uses that reveal nothing: only x.clear() and 'del'"""
    for n in ast.walk(node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.value is x and n.func.attr == 'clear':
            return True
    return False


def callee(p, rep, fn, tainted, done):
    """every path that logs one of the tainted parameters ends in a refusal; returns the functions that it hands them to"""
    pars, more = tainted[fn], []
    secret = {('sym', x) for x in pars}

    def reveals(t):
        t = T.strip(t)
        if t in secret:
            return True
        if t[0] == 'len' or t[0] == 'call' and t[1] in ('len', 'type', 'isinstance', 'bool'):
            return False
        if t[0] == 'idx' and T.strip(t[1]) in secret and T.strip(t[2]) in [C(x) for x in PLAIN]:
            return False
        if t[0] in ('c', 'sym', 'self'):
            return False
        return any(reveals(x) for x in kids(t))

    def oc(ev):
        nm = logname(ev)
        if ev.func is not None and hasattr(ev.func, 'mod') and not follow(ev.func):
            g = ev.func
            for x, a in (ev.bound or {}).items():
                if reveals(a) and x not in ('self', 'cls') and (g not in done or x not in tainted.get(g, ())):
                    tainted.setdefault(g, set()).add(x)
                    done.discard(g)
                    more.append(g)
        if nm and any(reveals(a) for a in list(ev.args) + [v for _, v in ev.kwargs]):
            ev.st.trace += (('leak', ev.loc()),)
        return None

    def follow(g):
        if g.mod is fn.mod:
            return U.sq(g) not in KNOWN or g.mod.name != 'privcount.data_collector' or len(list(ast.walk(g.node))) < 250 and not g.name.endswith('_valid')
        return False
    eng = Engine(p, inline=follow, assert_inline=False, on_call=oc)
    try:
        res = eng.run(fn, selfcls=fn.cls.name if fn.cls is not None else None)
    except AnalysisBroken as e:
        # too large to follow: then it may not log at all
        logs = [x for x in ast.walk(fn.node) if isinstance(x, ast.Call) and is_sink(ast.unparse(x.func))]
        rep.ob('C18.callee', sq(fn), not logs, 'logs, and cannot be followed (%s)' % e, fn.loc())
        return more
    bad = None
    for s, k in res:
        leaks = [x for x in s.trace if isinstance(x, tuple) and x and x[0] == 'leak']
        if leaks and k[0] == 'ret':
            v = T.strip(k[1])
            if v not in (FALSE, NONE) and not empty(s, v):
                bad = bad or (leaks[0][1], v)
    rep.ob('C18.callee', sq(fn), bad is None, bad and '%s logs what it is given, and then returns %s' % (sq(fn), T.show(bad[1])[:60]) or '', bad[0] if bad else fn.loc())

    return more


def empty(s, v):
    return v[0] in ('dict', 'list', 'tuple', 'set', 'obj') and not [k for k in s.heap if k[0] == v] and (len(v) < 2 or v[0] == 'obj' or not v[1])


def kids(t):
    """the terms directly inside a term"""
    out, todo = [], list(t[1:])
    while todo:
        x = todo.pop()
        if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in TAGS:
            out.append(x)
        elif isinstance(x, (tuple, frozenset)):
            todo += [y for y in x if isinstance(y, (tuple, frozenset))]
    return out


TAGS = {'c', 'sym', 'self', 'attr', 'hv', 'idx', 'call', 'mcall', 'len', 'elem', 'slice', 'bin', 'fmt', 'obj', 'dict', 'list', 'tuple', 'set', 'sum', 'un', 'cond', 'cmp', 'copy',
        'not', 'and', 'or', 'new', 'tup', 'ext', 'func', 'class', 'range', 'other', 'map', 'cat', 'case', 'exc', 'phi', 'bound', 'lambda', 'unk', 'truthy', 'isnone', 'mod', 'builtin'}


def logname(ev):
    n = ev.name or ''
    if ev.kind == 'mcall' and is_sink('logging.' + n.split('.')[-1]) and 'getLogger' in T.show(ev.recv or C(None)):
        return n
    return n if ev.kind in ('call', 'mcall') and is_sink(n) else None


def lines(p, rep):
    """the control connection: what it logs of an event line"""
    cls = p.cls('TorControlClientProtocol')
    f = p.method(cls, 'lineReceived')
    if f is None:
        raise AnalysisBroken('anchor vanished: TorControlClientProtocol.lineReceived')
    line = ('sym', f.params[1])
    count = [0]

    def base(t):
        t = T.strip(t)
        while t[0] == 'mcall' and t[2] in ('strip', 'rstrip', 'lstrip') or t[0] == 'slice':
            t = T.strip(t[1])
        return t

    def whole(t):
        """reveals more of the line than its first two words"""
        t = T.strip(t)
        if base(t) == line:
            return True
        if t[0] in ('c', 'sym', 'self', 'attr', 'hv'):
            return False
        if t[0] == 'len' or t[0] == 'call' and t[1] == 'len':
            return False
        if t[0] == 'idx' and t[1][0] == 'mcall' and t[1][2] == 'split' and base(t[1][1]) == line and t[2] in (C(0), C(1)):
            return False
        return any(whole(x) for x in kids(t))

    def event(s):
        """may the line be an event?"""
        for k, v in s.facts.items():
            if k[0] == 'cmp' and k[1] == 'startswith' and base(k[2]) == line and is_str(k[3]):
                x = k[3][2]
                if v and not ('650 PRIVCOUNT_'.startswith(x) or x.startswith('650 PRIVCOUNT_')):
                    return False
                if not v and '650 PRIVCOUNT_'.startswith(x):
                    return False
            if k[0] == 'cmp' and k[1] == 'eq' and v and any(base(x) == line for x in k[2:4]):
                return False
        return True

    def refused(s):
        for k, v in s.facts.items():
            if k[0] == 'truthy' and not v and k[1][0] in ('call', 'mcall') and 'handle_event' in str(k[1][1:3]):
                return True
            if k[0] == 'cmp' and k[1] in ('le', 'lt', 'eq', 'gt', 'ge') and 'len' in str(k[2:4]) and short_line(k, v):
                return True
        return False

    def short_line(k, v):
        a, b = k[2], k[3]
        if a[0] == 'len' and b[0] == 'c':
            op, nbr = k[1], b[2]
        elif b[0] == 'len' and a[0] == 'c':
            op, nbr = {'le': 'ge', 'lt': 'gt', 'ge': 'le', 'gt': 'lt', 'eq': 'eq'}[k[1]], a[2]
        else:
            return False
        if not v:
            op = {'le': 'gt', 'lt': 'ge', 'ge': 'lt', 'gt': 'le', 'eq': 'ne'}[op]
        return op == 'le' and nbr <= 2 or op == 'lt' and nbr <= 3 or op == 'eq' and nbr <= 2

    def oc(ev):
        nm = logname(ev)
        if nm is None:
            return
        count[0] += 1
        if any(whole(a) for a in list(ev.args) + [v for _, v in ev.kwargs]):
            rep.ob('C18.line', U.sq(ev.fn), not event(ev.st) or refused(ev.st), 'logs an event line that was not refused', ev.loc())
        else:
            rep.ob('C18.line', U.sq(ev.fn) + ' other', True)
    base_classes = set(p.mro(cls))
    HELP = {'handleUnexpectedLine', 'check_line_length'}
    eng = Engine(p, inline=lambda g: g.cls in base_classes and g.name in HELP, assert_inline=False, raisers=lambda n: False, on_call=oc)
    eng.run(f, selfcls='TorControlClientProtocol')
    rep.count('logs of the control connection', count[0])
