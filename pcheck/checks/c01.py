"""C01: typestate of a PrivCount connection, decided by path-sensitive interprocedural
analysis of every Twisted callback of both protocol roles.  Each path that reaches the
node (any use of the factory other than locating the handshake key) must carry the fact
that the connection is marked authenticated; each write that may mark it authenticated
must carry a successful HMAC verification, or a witness that only a successful HMAC
verification can have set on this connection."""
from ..util import *

FLAG = 'is_valid_connection'
CALLBACKS = ['connectionMade', 'lineReceived', 'lineLengthExceeded', 'connectionLost',
             'clientConnectionFailed', 'clientConnectionLost']
BENIGN = {'get_secret_handshake_path'}
ROLES = ['PrivCountServerProtocol', 'PrivCountClientProtocol']


def verified(st):
    return 'hmac ok' in st.trace


def on_assume(a, pol):
    if a[0] == 'truthy' and a[1][0] == 'call' and a[1][1] == 'crypto.verify_hmac':
        return 'hmac ok' if pol else 'hmac bad'


def check(p, rep):
    rep.rule('C01.gate', 'every use of the node from a network callback happens on an authenticated connection', 4)
    rep.rule('C01.mark', 'a connection is marked authenticated only after an HMAC proof on it', 1)
    rep.rule('C01.witness', 'state carried between handshake messages as proof is only set under an HMAC proof', 1)
    rep.rule('C01.fail', 'a failed HMAC proof closes the connection and is never marked authenticated', 2)
    rep.rule('C01.reset', 'a lost connection forgets authentication state', 1)
    rep.rule('C01.owner', 'every store to the authentication flag is inside analysed code', 1)
    visited = set()
    for role in ROLES:
        cls = p.cls(role)
        base = set(p.mro(cls))
        selfv = ('self', role)
        writes, uses = [], []

        def on_call(ev):
            if ev.kind == 'setattr' and ev.recv == selfv:
                writes.append(ev)
                if ev.name == '.%s=' % FLAG and not (is_const(ev.value) and not ev.value[2]):
                    return 'marked'
            elif ev.kind == 'call' and ev.recv is not None and self_attr(ev.recv, 'factory'):
                uses.append(ev)
            elif ev.kind == 'call' and ev.name in ('.loseConnection', '.abortConnection', 'log.stop_reactor'):
                return 'lose'

        def track(a):
            return has_call(a, 'crypto.verify_hmac') or any(
                x[0] in ('attr', 'hv') and x[1] == selfv and x[2] not in ('transport', 'factory', 'MAX_LENGTH', 'last_sent_time')
                for x in subterms(a))
        outs = {}
        for cb in CALLBACKS:
            f = p.method(cls, cb)
            if f is None:
                raise AnalysisBroken('callback %s.%s vanished' % (role, cb))
            eng = Engine(p, inline=lambda g: g.cls in base, on_call=on_call, track=track, assert_inline=False, cap=300, on_assume=on_assume)
            outs[cb] = eng.run(f, selfcls=role)
            visited |= eng.inlined | {sq(f)}
            rep.count('paths', len(outs[cb]))
            rep.count('statements interpreted', eng.steps)
        # witnesses
        by_attr = {}
        for w in writes:
            by_attr.setdefault(w.name[1:-1], []).append(w)
        witnesses = set()
        for a, ws in by_attr.items():
            if a == FLAG:
                continue
            if all((is_const(w.value) and not w.value[2]) or verified(w.st) for w in ws) and \
                    any(verified(w.st) for w in ws):
                # nobody else may write it
                foreign = [f for f, n, v in attr_stores(p, a) if f.cls in base and sq(f) not in visited and f.name != '__init__'
                           and not (isinstance(v, ast.Constant) and not v.value)]
                if not foreign:
                    witnesses.add(a)
        seen = set()
        for w in by_attr.get(FLAG, []):
            if is_const(w.value) and not w.value[2]:
                continue
            cause = None
            if verified(w.st):
                cause = 'proof'
            elif w.st.facts.get(('truthy', ('attr', selfv, FLAG))) is True:
                cause = 'already'
            else:
                for a in witnesses:
                    x = ('attr', selfv, a)
                    if w.facts.get(('truthy', x)) is True or w.facts.get(('isnone', x)) is False:
                        cause = 'witness ' + a
                        rep.ob('C01.witness', '%s.%s' % (role, a), True, loc=w.loc())
            k = (cause, w.loc())
            if k in seen:
                continue
            seen.add(k)
            rep.ob('C01.mark', '%s:%s' % (role, sq(w.fn)), cause is not None,
                   'the connection is marked authenticated on a path with no HMAC verification in effect '
                   '(call path %s)' % ' > '.join(sq(f) for f in w.stack), w.loc())
        if not by_attr.get(FLAG):
            raise AnalysisBroken('no write of the authentication flag reached for ' + role)
        seen = set()
        for u in uses:
            name = u.name.lstrip('.')
            if name in BENIGN:
                continue
            cur = u.st.heap.get((selfv, FLAG))
            ok = verified(u.st) or u.facts.get(('truthy', ('attr', selfv, FLAG))) is True or \
                (cur is not None and is_const(cur) and bool(cur[2]))
            k = (name, ok, u.loc())
            if k in seen:
                continue
            seen.add(k)
            rep.ob('C01.gate', '%s:%s' % (role, name), ok,
                   'node method %s is used on a path where the connection is not authenticated (call path %s)'
                   % (name, ' > '.join(sq(f) for f in u.stack)), u.loc())
        # failed proofs
        nfail = 0
        for s, c in outs['lineReceived']:
            if 'hmac bad' in s.trace:
                nfail += 1
                after = s.trace[s.trace.index('hmac bad'):]
                ok = 'lose' in after and 'marked' not in after
                rep.ob('C01.fail', role, ok, 'a path on which the HMAC does not verify %s'
                       % ('leaves the connection open' if 'marked' not in after else 'leaves it marked authenticated'),
                       p.method(cls, 'lineReceived').loc())
        for s, c in outs['connectionLost']:
            cur = s.heap.get((selfv, FLAG))
            rep.ob('C01.reset', role, cur is not None and is_const(cur) and not cur[2],
                   'connectionLost leaves the authentication flag set', p.method(cls, 'connectionLost').loc())
    for f, n, v in attr_stores(p, FLAG):
        ok = sq(f) in visited or (isinstance(v, ast.Constant) and not v.value) or f.name == '__init__' and isinstance(v, ast.Constant)
        rep.ob('C01.owner', sq(f), ok, 'stores the authentication flag outside the analysed callbacks', f.loc(n))
    rep.assumption('crypto.verify_hmac is true only for a correct HMAC (decided under C02)')
    rep.assumption('Twisted delivers network input only through the listed callbacks of the protocol classes')
