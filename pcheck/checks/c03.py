"""C03: the invariant "the line length limit exceeds 200 bytes only while the connection is
marked authenticated" is checked inductively on every path of every Twisted callback and of
the constructors of both protocol roles (helpers inlined), and every path on which a line may
exceed the limit must close the connection."""
from ..util import *
from .c01 import FLAG, CALLBACKS, ROLES

LIMIT = 200


def small(v):
    return is_num(v) and 0 < v[2] <= LIMIT


def falsy(v):
    return is_const(v) and not v[2]


def check(p, rep):
    rep.rule('C03.invariant', 'after every callback the limit is at most 200 bytes unless the connection is authenticated', 10)
    rep.rule('C03.raise', 'the limit is only raised on an authenticated connection', 1)
    rep.rule('C03.initial', 'a new connection starts with a limit of at most 200 bytes', 1)
    rep.rule('C03.drop', 'a line that exceeds the limit closes the connection', 4)
    rep.rule('C03.owner', 'every store to the limit is inside analysed code', 1)
    rep.rule('C03.receiver', 'the line receiver that enforces the limit is the base class of both roles', 1)
    visited = set()
    for role in ROLES:
        cls = p.cls(role)
        base = set(p.mro(cls))
        selfv = ('self', role)
        M, F = ('attr', selfv, 'MAX_LENGTH'), ('attr', selfv, FLAG)
        raised = []

        def on_call(ev):
            if ev.kind == 'setattr' and ev.recv == selfv and ev.name == '.MAX_LENGTH=' and not small(ev.value):
                raised.append(ev)
            elif ev.kind == 'call' and ev.name in ('.loseConnection', '.abortConnection', 'log.stop_reactor'):
                return 'lose'

        def lenline(t):
            return t == ('len', ('sym', 'line'))

        def track(a):
            return mentions(a, F) or a[0] == 'cmp' and a[1] == 'lt' and lenline(a[3]) and strip(a[2]) == M or \
                a[0] == 'cmp' and a[1] == 'lt' and lenline(a[2]) and strip(a[3]) == M

        def run(name, f):
            eng = Engine(p, inline=lambda g: g.cls in base, on_call=on_call, track=track, assert_inline=False, cap=300,
                         raisers=lambda n: n == 'x')
            visited.update({sq(f)})
            res = eng.run(f, selfcls=role)
            visited.update(eng.inlined)
            rep.count('paths', len(res))
            rep.count('statements interpreted', eng.steps)
            return res
        init = p.method(cls, '__init__')
        for s, c in run('__init__', init):
            if c[0] != 'ret':
                continue
            m = s.heap.get((selfv, 'MAX_LENGTH'))
            rep.ob('C03.initial', role, m is not None and small(m) and falsy(s.heap.get((selfv, FLAG), TRUE)),
                   'a new connection has limit %s' % (show(m) if m else 'inherited from the line receiver'), init.loc())
        for cb in CALLBACKS:
            f = p.method(cls, cb)
            if f is None:
                raise AnalysisBroken('callback %s.%s vanished' % (role, cb))
            for s, c in run(cb, f):
                m, fl = s.heap.get((selfv, 'MAX_LENGTH'), M), s.heap.get((selfv, FLAG), F)
                known = s.facts.get(('truthy', F))
                flag_true = is_const(fl) and bool(fl[2]) or fl == F and known is True
                flag_kept = fl == F or (fl[0] == 'hv')
                ok = flag_true or small(m) or (m == M and (fl == F or known is False))
                rep.ob('C03.invariant', '%s.%s' % (role, cb), ok,
                       'a path ends with limit %s while the authentication flag is %s' % (show(m), show(fl)), f.loc())
                if cb == 'lineLengthExceeded':
                    rep.ob('C03.drop', '%s.%s' % (role, cb), 'lose' in s.trace, 'an over-length line leaves the connection open', f.loc())
                if cb == 'lineReceived':
                    within = any((k[0] == 'cmp' and k[1] == 'lt') and
                                 (lenline(k[3]) and not v or lenline(k[2]) and v) for k, v in s.facts.items())
                    rep.ob('C03.drop', '%s.%s' % (role, cb), 'lose' in s.trace or within,
                           'a received line whose length was not compared with the limit is processed', f.loc())
        for ev in raised:
            cur = ev.st.heap.get((selfv, FLAG))
            ok = cur is not None and is_const(cur) and bool(cur[2]) or (cur is None and ev.facts.get(('truthy', F)) is True)
            rep.ob('C03.raise', '%s:%s' % (role, sq(ev.fn)), ok, 'limit set to %s before authentication (call path %s)'
                   % (show(ev.value), ' > '.join(sq(f) for f in ev.stack)), ev.loc())
        exts = [b[1] for k in p.mro(cls) for b in k.bases if b and b[0] == 'ext']
        own = [k.name for k in p.mro(cls) for m in ('dataReceived',) if m in k.methods]
        rep.ob('C03.receiver', role, 'twisted.protocols.basic.LineOnlyReceiver' in exts and not own,
               'base classes %s, overrides %s' % (exts, own), 'privcount/protocol.py')
    for f, n, v in attr_stores(p, 'MAX_LENGTH'):
        if f.cls is None or f.cls in [k for r in ROLES for k in p.mro(p.cls(r))] or not isinstance(f.cls, object):
            rep.ob('C03.owner', sq(f), sq(f) in visited, 'stores the limit outside the analysed callbacks', f.loc(n))
    rep.assumption('Twisted LineOnlyReceiver buffers at most MAX_LENGTH bytes of an incomplete line')
