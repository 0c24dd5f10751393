"""C02: symbolic extraction of every MAC generated or verified during the handshake (all
paths of both roles, helpers inlined) and comparison of the two roles against each other:
same key source, same prefix for generator and verifier, distinct prefixes per direction,
same nonce order, own nonce fresh from os.urandom and covered by every verified MAC,
complete message header checked, and a MAC primitive that covers prefix and data and is
compared in constant time."""
from ..util import *
from .c01 import CALLBACKS, FLAG

SHA = 'cryptography.hazmat.primitives.hashes.SHA256'
SIZE = ('ext', SHA + '.digest_size')


def flat(t):
    """operands of a string concatenation"""
    t = strip_casts(t)
    if t[0] == 'bin' and t[1] == 'Add':
        return flat(t[2]) + flat(t[3])
    if t[0] == 'mcall' and t[2] == 'join' and t[1] in (C(''),) and t[3] and t[3][0][0] in ('tuple', 'obj'):
        items = t[3][0][1] if t[3][0][0] == 'tuple' else t[3][0][3]
        return [y for x in items for y in flat(x)]
    return [t]


def mac_content(st_trace):
    """sequence of terms fed to the MAC object"""
    out = []
    for l in st_trace:
        if isinstance(l, tuple) and l[0] == 'update':
            out += flat(l[2])
    return out


def fresh(t):
    return t[0] == 'call' and t[1] == 'os.urandom' and len(t) > 4


def big_enough(t):
    n = t[2][0] if t[2] else NONE
    return n == SIZE or is_num(n) and n[2] >= 32


def check(p, rep):
    rep.rule('C02.primitive', 'the MAC covers exactly key, prefix and data with SHA-256', 1)
    rep.rule('C02.decide', 'MAC verification succeeds only when a constant-time comparison succeeded', 1)
    rep.rule('C02.agree', "each role verifies exactly the MAC the other role generates", 1)
    rep.rule('C02.distinct', 'the two directions use different MAC prefixes', 1)
    rep.rule('C02.nonce', "every verified MAC covers the verifier's own nonce", 2)
    rep.rule('C02.fresh', 'own nonces come from os.urandom with full length for each connection', 1)
    rep.rule('C02.key', 'the MAC key is the shared handshake secret', 3)
    rep.rule('C02.keylen', 'a missing or short key is rejected before it is used', 1)
    rep.rule('C02.header', 'stage, version, role and type of a handshake line are all checked before it is accepted', 3)
    rep.rule('C02.length', "the peer's nonce has the fixed nonce length before it is used", 1)

    # ---- the primitive
    contents = {}
    for name in ('crypto.get_hmac', 'crypto.verify_hmac'):
        f = p.fn(name)
        params = f.params

        def on_call(ev):
            if ev.kind != 'call':
                return None
            if ev.name.endswith('hmac.HMAC'):
                return ('hmac', strip(ev.args[0]) if ev.args else NONE, strip(ev.args[1]) if len(ev.args) > 1 else NONE)
            if ev.name == '.update':
                return ('update', strip(ev.recv), strip(ev.args[0]))
            if ev.name == '.verify':
                return ('verify', strip(ev.recv), strip(ev.args[0]))
            if ev.name in ('hmac.compare_digest', 'cryptography.hazmat.primitives.constant_time.bytes_eq'):
                return ('ctcmp',) + tuple(strip(a) for a in ev.args)
            if ev.name == '.finalize':
                return ('finalize', strip(ev.recv))
        eng = Engine(p, inline=lambda g: g.mod is f.mod, on_call=on_call)
        res = eng.run(f)
        rep.count('paths', len(res))
        good = [(s, c) for s, c in res if c[0] == 'ret' and not (is_const(c[1]) and not c[1][2])]
        if not good:
            raise AnalysisBroken('%s has no successful path' % name)
        key, prefix, data = (('sym', params[0]), ('sym', params[1]), ('sym', params[2])) if name.endswith('get_hmac') \
            else (('sym', params[1]), ('sym', params[2]), ('sym', params[3]))
        for s, c in good:
            h = [l for l in s.trace if l[0] == 'hmac']
            ok = len(h) == 1 and strip_casts(h[0][1]) == key and h[0][2][0] == 'call' and h[0][2][1] == SHA
            cont = mac_content(s.trace)
            rep.ob('C02.keylen', name, any(k[0] == 'cmp' and k[1] == 'lt' and strip_casts(k[2]) == ('len', key) and
                                           (k[3] == SIZE or is_num(k[3]) and k[3][2] >= 32) and not v
                                           for k, v in s.facts.items()), 'a MAC is computed with a key whose length is not checked', f.loc())
            rep.ob('C02.primitive', name, ok and cont == [prefix, data],
                   'MAC object %s over %s' % (show(h[0][2]) if h else 'missing', [show(x) for x in cont]), f.loc())
            if name.endswith('verify_hmac'):
                exp = ('sym', params[0])
                ver = [l for l in s.trace if l[0] == 'verify' and strip_casts(l[2]) == exp]
                ct = [l for l in s.trace if l[0] == 'ctcmp' and exp in [strip_casts(x) for x in l[1:]]
                      and any(find_mcalls(x, 'finalize') for x in l[1:])]
                okv = bool(ver) and c[1] == TRUE
                if ct:
                    call = [k for k in s.facts if k[0] == 'truthy' and k[1][0] == 'call' and
                            k[1][1].split('.')[-1] in ('compare_digest', 'bytes_eq')]
                    okv = okv or any(s.facts[k] for k in call) or (c[1][0] == 'call' and c[1][1].split('.')[-1] in ('compare_digest', 'bytes_eq'))
                rep.ob('C02.decide', name, okv, 'a path returns success without a verified constant-time comparison of '
                       'the received MAC', f.loc())
            else:
                v = strip_casts(c[1])
                rep.ob('C02.primitive', name + ':result', v[0] == 'mcall' and v[2] == 'finalize',
                       'returns %s' % show(v), f.loc())

    # ---- the handshake
    macs = {}
    for role in ('PrivCountServerProtocol', 'PrivCountClientProtocol'):
        cls = p.cls(role)
        base = set(p.mro(cls))
        selfv = ('self', role)
        gen, ver, marks, nonces = [], [], [], []

        def on_call(ev):
            if ev.kind == 'call' and ev.name == 'crypto.get_hmac':
                gen.append(ev)
            elif ev.kind == 'call' and ev.name == 'crypto.verify_hmac':
                ver.append(ev)
            elif ev.kind == 'setattr' and ev.recv == selfv:
                if ev.name == '.%s=' % FLAG and ev.value == TRUE and ev.st.facts.get(('truthy', ('attr', selfv, FLAG))) is not True:
                    marks.append(ev)
                nonces.append(ev)

        def track(a):
            return has_call(a, 'crypto.verify_hmac') or \
                a[0] == 'cmp' and a[1] == 'eq' and mentions(a, ('sym', 'line')) or \
                any(x[0] == 'attr' and x[1] == selfv and x[2] in (FLAG, 'client_cookie', 'server_cookie') for x in subterms(a))
        for cb in ('connectionMade', 'lineReceived'):
            f = p.method(cls, cb)
            eng = Engine(p, inline=lambda g: g.cls in base and g.name != 'check_line_length' and not
                         (g.name.startswith('handle_') and 'handshake' not in g.name), on_call=on_call,
                         track=track, assert_inline=False, cap=400, raisers=lambda n: False)
            res = eng.run(f, selfcls=role, state=role_state(p, role))
            rep.count('paths', len(res))
            rep.count('statements interpreted', eng.steps)
        own = 'server_cookie' if 'Server' in role else 'client_cookie'
        macs[role] = {'gen': gen, 'ver': ver, 'marks': marks, 'own': own, 'self': selfv, 'sets': nonces}
        if not gen or not ver or not marks:
            raise AnalysisBroken('no MAC generation/verification found for ' + role)
        own_t = ('attr', selfv, own)
        # own nonce freshness
        for w in nonces:
            if w.name == '.%s=' % own and not (is_const(w.value) and not w.value[2]):
                v = strip_casts(w.value)
                rep.ob('C02.fresh', role, fresh(v) and big_enough(v), 'own nonce set to %s' % show(v), w.loc())
        fresh_ok = [w for w in nonces if w.name == '.%s=' % own and fresh(strip_casts(w.value))]
        if not fresh_ok:
            rep.ob('C02.fresh', role, False, 'no fresh nonce is ever chosen', '')
        for ev in ver + gen:
            key = strip(ev.arg(1 if ev in ver else 0))
            rep.ob('C02.key', '%s:%s' % (role, sq(ev.fn)),
                   key in (FALSE,) or any(x[0] == 'mcall' and x[2] == 'get_secret_handshake_path' for x in subterms(key)) and
                   not mentions(key, ('sym', 'line')), 'MAC key is %s' % show(key)[:120], ev.loc())
        for ev in ver:
            data = flat(ev.arg(3))
            ok = own_t in data or any(fresh(x) for x in data)
            rep.ob('C02.nonce', '%s' % role, ok, 'verified data is %s, without its own nonce'
                   % [show(x)[:80] for x in data], ev.loc())
            # the received MAC must come from the peer's line
            if 'Server' in role:
                peer = [x for x in data if x != own_t]
                for x in peer:
                    facts = ev.st.facts
                    okl = any(k[0] == 'cmp' and k[1] == 'eq' and k[2] == ('len', x) and (k[3] == SIZE or is_num(k[3])) and v
                              for k, v in facts.items()) or \
                        any(k[0] == 'cmp' and k[1] == 'eq' and SIZE in (k[2], k[3]) and ('len', x) in (k[2], k[3]) and v
                            for k, v in facts.items()) or is_const(x)
                    rep.ob('C02.length', role, okl, "the peer's nonce %s is used without its length being checked" % show(x)[:80], ev.loc())
        for ev in ver + marks:
            eqs = {k[3][2] for k, v in ev.st.facts.items() if v and k[0] == 'cmp' and k[1] == 'eq' and is_str(k[3])
                   and mentions(k[2], ('sym', 'line'))}
            stage = any('HANDSHAKE' in x for x in eqs)
            version = any('PRIVCOUNT' in x for x in eqs)
            rolek = ('CLIENT' if 'Server' in role else 'SERVER') in eqs
            typ = any('HMAC' in x and 'HANDSHAKE' not in x for x in eqs)
            rep.ob('C02.header', '%s:%s' % (role, 'accept' if ev in marks else 'verify'), stage and version and rolek and typ,
                   'accepted with only %s checked' % sorted(eqs), ev.loc())

    # ---- agreement between the two roles
    def prefixes(evs, i):
        return {strip_casts(e.arg(i)) for e in evs}

    def order(evs, i, own_t, own_first):
        res = set()
        for e in evs:
            d = flat(e.arg(i))
            if any(is_const(x) for x in d):
                continue
            o = [own_t == x or fresh(x) for x in d]
            res.add(tuple(o))
        return res
    S, K = macs['PrivCountServerProtocol'], macs['PrivCountClientProtocol']
    so, ko = ('attr', S['self'], S['own']), ('attr', K['self'], K['own'])
    rep.ob('C02.agree', 'client-to-server prefix', prefixes(S['ver'], 2) == prefixes(K['gen'], 1) and len(prefixes(S['ver'], 2)) == 1,
           'server verifies %s, client generates %s' % ([show(x) for x in prefixes(S['ver'], 2)], [show(x) for x in prefixes(K['gen'], 1)]),
           S['ver'][0].loc())
    rep.ob('C02.agree', 'server-to-client prefix', prefixes(K['ver'], 2) == prefixes(S['gen'], 1) and len(prefixes(K['ver'], 2)) == 1,
           'client verifies %s, server generates %s' % ([show(x) for x in prefixes(K['ver'], 2)], [show(x) for x in prefixes(S['gen'], 1)]),
           K['ver'][0].loc())
    for nm, (evs, i, own_t) in {'server verify': (S['ver'], 3, so), 'server generate': (S['gen'], 2, so),
                                'client verify': (K['ver'], 3, ko), 'client generate': (K['gen'], 2, ko)}.items():
        os_ = order(evs, i, own_t, None)
        # operand order: server nonce first everywhere
        want = {(True, False)} if nm.startswith('server') else {(False, True)}
        rev = {tuple(reversed(x)) for x in want}
        macs[nm] = os_
    orders = {nm: ('server-first' if macs[nm] == ({(True, False)} if nm.startswith('server') else {(False, True)}) else
                   'client-first' if macs[nm] == ({(False, True)} if nm.startswith('server') else {(True, False)}) else
                   'irregular %s' % (macs[nm],)) for nm in ('server verify', 'server generate', 'client verify', 'client generate')}
    for a, b in (('server verify', 'client generate'), ('client verify', 'server generate')):
        rep.ob('C02.agree', '%s / %s nonces' % (a, b), orders[a] == orders[b] and 'irregular' not in orders[a],
               '%s uses %s, %s uses %s' % (a, orders[a], b, orders[b]), '')
    ps, pk = prefixes(S['ver'], 2), prefixes(K['ver'], 2)
    rep.ob('C02.distinct', 'prefixes', not (ps & pk), 'both directions use %s' % [show(x) for x in ps & pk], S['ver'][0].loc())
    rep.assumption('the cryptography library implements HMAC-SHA256 and its constant-time verify()')
