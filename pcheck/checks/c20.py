"""C20: every path of the tor control protocol on which something is sent to prove an identity
or a peer is accepted, with the secret's file, length checks, MACs and nonces followed as terms
(helpers inlined), compared against the SAFECOOKIE rules of the tor control specification."""
from ..util import *
from .c02 import flat, fresh

BASE, CL, SV = 'TorControlProtocol', 'TorControlClientProtocol', 'TorControlServerProtocol'
SKEY = C('Tor safe cookie authentication server-to-controller hash')
CKEY = C('Tor safe cookie authentication controller-to-server hash')
OPAQUE = {'encodeControllerString', 'decodeControllerString', 'check_line_length', 'quit', 'handleUnexpectedLine', 'enableEvents', 'disableEvents', 'clear',
          'clearConnection', 'setDiscoveredValue', 'getConfiguredValue', 'sendLine', 'sendInfoNs', 'startCollection', 'stopCollection', 'getConfiguredPassword'}


def macs(t, name):
    return [x for x in subterms(t) if x[0] == 'call' and x[1] == 'crypto.' + name]


def no_quit(res):
    return [(s, c) for s, c in res if c[0] == 'ret']


def exact_len(facts, t, n):
    """facts imply len(t) == n"""
    ln = ('len', t)
    lo = hi = False
    for k, v in facts.items():
        if k[0] != 'cmp':
            continue
        a, b = strip(k[2]), strip(k[3])
        if k[1] == 'eq' and v and ln in (a, b) and any(is_num(x) and x[2] == n for x in (a, b)):
            return True
        if k[1] == 'lt':
            if a == ln and is_num(b) and (not v and b[2] >= n or False):
                lo = lo or b[2] >= n
            if b == ln and is_num(a):
                if v and a[2] >= n - 1:
                    lo = True
                if not v and a[2] <= n:
                    hi = True
            if a == ln and is_num(b) and v and b[2] <= n + 1:
                hi = True
    return lo and hi


def min_len(facts, t, n):
    ln = ('len', t)
    for k, v in facts.items():
        if k[0] == 'cmp' and k[1] == 'lt':
            a, b = strip(k[2]), strip(k[3])
            if a == ln and is_num(b) and not v and b[2] >= n or b == ln and is_num(a) and v and a[2] >= n - 1:
                return True
        if k[0] == 'truthy' and n == 1 and v and k[1] in (t, ln):
            return True
    return False


def contained(facts, name, attr, v):
    """fact: the constant name is (not) in the list self.attr"""
    return any(k[0] == 'cmp' and k[1] == 'in' and strip(k[2]) == C(name) and mentions(k[3], attr) and b is v for k, b in facts.items())


def check(p, rep):
    rep.rule('C20.order', 'an identity is proved with the strongest method that both sides have', 1)
    rep.rule('C20.server', 'the cookie response is only sent to a relay that proved that it knows the cookie', 1)
    rep.rule('C20.mac', 'SAFECOOKIE hashes are those of the control specification, in both directions', 4)
    rep.rule('C20.nonce', "each side's nonce is fresh for every challenge and long enough", 1)
    rep.rule('C20.length', 'a nonce or hash of the wrong length is refused', 1)
    rep.rule('C20.file', 'a cookie or password file of the wrong length is refused', 1)
    rep.rule('C20.state', 'a reply only counts in the stage of authentication in which it is expected', 2)
    rep.rule('C20.fake', 'the emulated relay serves only controllers that authenticated', 2)
    base, cl, sv = p.cls(BASE), p.cls(CL), p.cls(SV)
    S = ('self', CL)
    A = lambda n: ('attr', S, n)

    def mkeng(oc, cls, opaque=OPAQUE):
        mro = set(p.mro(cls))
        return Engine(p, inline=lambda g: g.cls in mro and g.name not in opaque, assert_inline=False, raisers=lambda n: False, on_call=oc)

    # ---- the client
    sends, stores = [], []

    def oc(ev):
        if ev.kind in ('call', 'mcall') and ev.name.split('.')[-1] in ('sendLine', 'write', 'writeSequence'):
            sends.append((ev, dict(ev.facts), dict(ev.st.heap)))
        if ev.kind == 'setattr' and ev.recv == S:
            stores.append((ev, dict(ev.facts)))
    roots = entry_methods(p, cl, ('sendLine',))
    for f in sorted(roots, key=lambda f: f.qual):
        eng = mkeng(oc, cl)
        eng.run(f, selfcls=CL)
        rep.count('functions of the client', 1)
    kinds = set()
    for ev, facts, heap in sends:
        if not ev.args:
            continue
        line = strip(ev.args[-1])
        text = lead(line)
        loc = ev.loc()
        if text.startswith('AUTHCHALLENGE'):
            kinds.add('challenge')
            n = strip(heap.get((S, 'client_nonce'), A('client_nonce')))
            ok = fresh(n) and n[2] and is_num(n[2][0]) and n[2][0][2] >= 16
            rep.ob('C20.nonce', 'client', ok and mentions(line, n), 'challenges with nonce %s' % show(n), loc)
            rep.ob('C20.order', 'challenge', text.startswith('AUTHCHALLENGE SAFECOOKIE') and contained(facts, 'SAFECOOKIE', A('auth_methods'), True), 'challenges a relay that has no cookie authentication', loc)
            rep.ob('C20.state', 'challenge', facts.get(('cmp', 'eq', A('state'), C('protocolinfo'))) is True, 'challenges in another state', loc)
            continue
        if not text.startswith('AUTHENTICATE'):
            rep.ob('C20.state', 'other lines', bool(text) or not mentions(line, A('cookie_string')), 'sends %s' % show(line)[:80], loc)
            continue
        nosafe = contained(facts, 'SAFECOOKIE', A('auth_methods'), False) or any(k == ('isnone', A('cookie_file')) and v or k == ('truthy', A('cookie_file')) and not v for k, v in facts.items())
        pw = [x for x in subterms(line) if x[0] == 'call' and x[1].split('.')[-1] == 'getConfiguredPassword']
        mac = macs(line, 'get_hmac')
        if mac:
            kinds.add('cookie')
            m = mac[0]
            rep.ob('C20.state', 'cookie', facts.get(('cmp', 'eq', A('state'), C('authchallenge'))) is True, 'answers a challenge it is not in', loc)
            ck = strip(m[2][1])
            sn = [x for x in flat(m[2][2]) if x != A('client_nonce')]
            ok = strip(m[2][0]) == CKEY and len(flat(m[2][2])) == 2 and flat(m[2][2])[0] == A('client_nonce') and len(sn) == 1
            rep.ob('C20.mac', 'sent', ok, 'sends the hash %s' % show(m)[:160], loc)
            ver = [x for k, v in facts.items() if k[0] == 'truthy' and v for x in [strip(k[1])] if x[0] == 'call' and x[1] == 'crypto.verify_hmac']
            good = [v for v in ver if strip(v[2][1]) == SKEY and strip(v[2][2]) == ck and flat(v[2][3]) == flat(m[2][2]) and mentions(v[2][0], ('sym', 'line'))]
            rep.ob('C20.server', 'verified', bool(good), 'the response is sent although the relay did not prove that it knows the cookie', loc)
            rep.ob('C20.file', 'cookie', exact_len(facts, ck, 32), 'a cookie of the wrong length is used', loc)
            rep.ob('C20.file', 'cookie file', mentions(ck, A('cookie_file')), 'the cookie is %s' % show(ck)[:80], loc)
            for x in sn:
                rep.ob('C20.length', 'server nonce', mentions(x, ('sym', 'line')) and exact_len(facts, x, 32), 'a nonce of the wrong length is used', loc)
            for v in good:
                rep.ob('C20.length', 'server hash', exact_len(facts, strip(v[2][0]), 32), 'a hash of the wrong length is compared', loc)
        elif pw:
            kinds.add('password')
            rep.ob('C20.order', 'password', nosafe and contained(facts, 'HASHEDPASSWORD', A('auth_methods'), True) and
                   any(k in (('isnone', pw[0]),) and not v or k == ('truthy', pw[0]) and v for k, v in facts.items()),
                   'the password is sent although cookie authentication is possible, or passwords are not', loc)
            rep.ob('C20.state', 'password', facts.get(('cmp', 'eq', A('state'), C('protocolinfo'))) is True, 'sends the password in another state', loc)
        else:
            kinds.add('null')
            nopw = contained(facts, 'HASHEDPASSWORD', A('auth_methods'), False) or any(
                k[0] == 'isnone' and v and k[1][0] == 'call' and k[1][1].endswith('getConfiguredPassword') or
                k[0] == 'truthy' and not v and k[1][0] == 'call' and k[1][1].endswith('getConfiguredPassword') for k, v in facts.items())
            rep.ob('C20.order', 'none', line == C('AUTHENTICATE') and nosafe and nopw and contained(facts, 'NULL', A('auth_methods'), True),
                   'authenticates with %s although something stronger is possible' % show(line)[:80], loc)
            rep.ob('C20.state', 'none', facts.get(('cmp', 'eq', A('state'), C('protocolinfo'))) is True, 'authenticates in another state', loc)
    for k in ('challenge', 'cookie', 'password', 'null'):
        if k not in kinds:
            raise AnalysisBroken('authentication by %s is never attempted' % k)
    for ev, facts in stores:
        if ev.name == '.client_nonce=' and not (is_const(ev.value) and ev.value[2] is None):
            v = strip(ev.value)
            rep.ob('C20.nonce', 'client store', fresh(v), 'the nonce is set to %s' % show(v), ev.loc())
        if ev.name == '.state=' and strip(ev.value) == C('discovering'):
            ok = facts.get(('cmp', 'eq', A('state'), C('authenticating'))) is True and \
                any(k[0] == 'cmp' and k[1] == 'eq' and v and C('250 OK') in k[2:4] for k, v in facts.items())
            rep.ob('C20.state', 'discovering', ok, 'counts as authenticated without an answer to an authentication', ev.loc())
    # the state after an authentication was sent
    f = p.method(cl, 'lineReceived')

    def oc3(ev):
        if ev.kind in ('call', 'mcall') and ev.name.split('.')[-1] == 'sendLine' and ev.args and lead(ev.args[-1]).startswith('AUTH'):
            return ('auth', lead(ev.args[-1])[:13])
        if ev.kind == 'setattr' and ev.recv == S and ev.name == '.state=':
            return ('state', strip(ev.value))
    for s, c in mkeng(oc3, cl).run(f, selfcls=CL):
        sent = [l[1] for l in s.trace if isinstance(l, tuple) and l and l[0] == 'auth']
        last = [l[1] for l in s.trace if isinstance(l, tuple) and l and l[0] == 'state'][-1:]
        if c[0] == 'ret' and sent:
            want = C('authchallenge') if sent[-1].startswith('AUTHCHALLENGE') else C('authenticating')
            rep.ob('C20.state', 'next', last == [want] and len(sent) == 1, 'the state after authenticating is %s' % [show(x) for x in last], f.loc())

    # ---- the secret files
    B = ('self', BASE)
    for name, ok in (('readCookieFile', lambda fa, t: exact_len(fa, t, 32)), ('getConfiguredPassword', lambda fa, t: min_len(fa, t, 1))):
        f = p.method(base, name)
        if f is None:
            raise AnalysisBroken('anchor vanished: ' + name)
        got = 0
        for s, c in mkeng(None, base, OPAQUE - {'getConfiguredPassword'}).run(f, selfcls=BASE):
            if c[0] == 'ret' and c[1] != NONE:
                got += 1
                t = strip(c[1])
                rep.ob('C20.file', name, has_call(t, 'open') and ok(s.facts, t), '%s returns %s unchecked' % (name, show(t)[:80]), f.loc())
        if not got:
            raise AnalysisBroken(name + ' never returns a secret')

    # ---- the hashes
    for name, key in (('Server', SKEY), ('Client', CKEY)):
        for kind in ('get', 'verify'):
            f = p.method(base, kind + name + 'Hash')
            if f is None:
                raise AnalysisBroken('anchor vanished: %s%sHash' % (kind, name))
            par = [('sym', x) for x in f.params]
            cookie, cn, sn = par[-3:]
            good = 0
            for s, c in mkeng(None, base).run(f, selfcls=BASE):
                if c[0] != 'ret':
                    continue
                t = strip(c[1])
                if kind == 'get':
                    good += 1
                    ok = t[0] == 'call' and t[1] == 'crypto.get_hmac' and strip(t[2][0]) == key and strip(t[2][1]) == cookie and flat(t[2][2]) == [cn, sn]
                    rep.ob('C20.mac', f.name, ok, '%s computes %s' % (f.name, show(t)[:160]), f.loc())
                    continue
                is_v = lambda x: x[0] == 'call' and x[1] == 'crypto.verify_hmac' and strip(x[2][0]) == par[0] and strip(x[2][1]) == key and \
                    strip(x[2][2]) == cookie and flat(x[2][3]) == [cn, sn]
                if t == FALSE or t == NONE:
                    continue
                good += 1
                ok = is_v(t) or t == TRUE and any(k[0] == 'truthy' and v and is_v(strip(k[1])) for k, v in s.facts.items())
                rep.ob('C20.mac', f.name, ok, '%s accepts %s' % (f.name, show(t)[:160]), f.loc())
                # a missing value is refused, unless every caller only passes values
                for x in par:
                    rep.ob('C20.mac', f.name + ' missing', s.facts.get(('isnone', x)) is False or s.facts.get(('truthy', x)) is True, '%s accepts a missing value' % f.name, f.loc())
            if not good:
                raise AnalysisBroken('%s has no result' % f.name)

    # ---- the emulated relay
    V = ('self', SV)
    AV = lambda n: ('attr', V, n)
    acts, auths, vs = [], [], []

    def oc2(ev):
        n = ev.name.split('.')[-1]
        if ev.kind in ('call', 'mcall') and n == 'start_injecting':
            acts.append((ev, dict(ev.facts)))
        if ev.kind == 'setattr' and ev.recv == V and n == 'authenticated=':
            auths.append((ev, dict(ev.facts)))
        if ev.kind == 'setattr' and ev.recv == V and n in ('server_nonce=', 'cookie_string='):
            vs.append((ev, dict(ev.facts)))
    for f in entry_methods(p, sv):
        mkeng(oc2, sv).run(f, selfcls=SV)
    for ev, facts in acts:
        rep.ob('C20.fake', 'events', facts.get(('truthy', AV('authenticated'))) is True, 'events are sent to a controller that did not authenticate', ev.loc())
    n = 0
    for ev, facts in auths:
        if strip(ev.value) == FALSE:
            continue
        n += 1
        pw = [x for k in facts for x in subterms(k) if x[0] == 'call' and x[1].endswith('getConfiguredPassword')]
        mac = any(k[0] == 'truthy' and v and strip(k[1])[0] == 'call' and strip(k[1])[1] == 'crypto.verify_hmac' and strip(strip(k[1])[2][1]) == CKEY
                  and flat(strip(k[1])[2][3]) == [AV('client_nonce'), AV('server_nonce')] and strip(strip(k[1])[2][2]) == AV('cookie_string') for k, v in facts.items())
        same = any(k[0] == 'cmp' and k[1] == 'eq' and v and any(x in k[2:4] for x in pw) and mentions(k, ('sym', 'line')) for k, v in facts.items())
        none = any(k[0] == 'isnone' and v and k[1] in pw for k, v in facts.items()) and \
            any(k[0] == 'isnone' and v and k[1][0] == 'call' and 'get_control_cookie_file' in show(k[1]) for k, v in facts.items())
        rep.ob('C20.fake', 'accepted', mac or same or none, 'a controller is accepted that proved nothing', ev.loc())
    if not acts or not n:
        raise AnalysisBroken('the emulated relay accepts nobody')
    for ev, facts in vs:
        v = strip(ev.value)
        if v == NONE or v == AV('cookie_string'):
            continue
        if ev.name == '.server_nonce=':
            rep.ob('C20.nonce', 'server', fresh(v) and v[2] and is_num(v[2][0]) and v[2][0][2] >= 32, 'the nonce of the relay is %s' % show(v)[:80], ev.loc())
        else:
            rep.ob('C20.nonce', 'cookie', fresh(v) and v[2] and is_num(v[2][0]) and v[2][0][2] >= 32, 'the cookie of the relay is %s' % show(v)[:80], ev.loc())
    rep.assumption('get_hmac and verify_hmac are as C02 checks them; the oracle is the SAFECOOKIE section of the tor control specification')
