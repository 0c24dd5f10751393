"""C09: (1) effect analysis over the resolved call graph: no function of the node roles, the
protocols, the counters or the crypto layer reaches a non-cryptographic random source;
(2) symbolic extraction of every value drawn for blinding, noise, nonces and keys and
comparison with a direct draw from the operating system's generator; (3) the blinding draw
is rejection sampling of exactly enough bits, accepted unmodified below the modulus."""
from .sc import *

OSR = 'random.SystemRandom'
ROOTS = ('PrivCountServerProtocol', 'PrivCountClientProtocol', 'TorControlClientProtocol', 'TorControlServerProtocol',
         'DataCollector', 'ShareKeeper', 'TallyServer', 'Aggregator', 'CollectionPhase', 'SecureCounters')
BAD_SEED = ('numpy.random', 'random.')


def weak(d):
    return d == 'random' or (d.startswith('random.') and not d.startswith(OSR)) or d.startswith('numpy.random') or d.startswith('os.random')


def refs(p, f):
    """external random names a function refers to"""
    out = []
    for n in ast.walk(f.node):
        if isinstance(n, (ast.Attribute, ast.Name)):
            r = p.resolve_dotted(n, f.mod)
            if r and r[0] == 'ext' and isinstance(r[1], str) and weak(r[1]) and not (r[1] == 'random'):
                if isinstance(n, ast.Name) and (n.id in f.params or any(isinstance(x, ast.Name) and x.id == n.id and isinstance(x.ctx, ast.Store) for x in ast.walk(f.node))):
                    continue
                out.append((n, r[1]))
    return out


def is_sys_draw(t, meths):
    return t[0] == 'mcall' and t[2] in meths and t[1][0] == 'call' and t[1][1] == OSR


def check(p, rep):
    rep.rule('C09.reach', 'no weak random source is reachable from a node, protocol, counter or crypto function', 50)
    rep.rule('C09.uniform', 'a blinding value is an unmodified rejection-sampled draw from the system generator', 1)
    rep.rule('C09.noise', 'noise is drawn from the system generator', 1)
    rep.rule('C09.nonce', 'nonces, cookies and handshake secrets are fresh bytes of full length from the system generator', 1)
    rep.rule('C09.key', 'symmetric and private keys come from the crypto library generators', 1)
    # positive control: the matcher sees the weak source used by the match self-test helpers
    roots = []
    for nm in ROOTS:
        c = p.cls(nm)
        for k in p.mro(c):
            roots += list(k.methods.values())
    roots += [f for f in p.funcs.values() if f.mod in (p.fn('crypto.encrypt').mod, p.fn('counter.sample').mod)]
    reach = p.reach(roots)
    weakfns = {}
    for f in p.funcs.values():
        rs = refs(p, f)
        if rs:
            weakfns[f] = rs
    rep.count('functions reachable from the node roles', len(reach))
    rep.count('functions that use a weak source (not reachable)', len([f for f in weakfns if f not in reach]))
    for f in sorted(reach, key=lambda f: f.qual):
        rep.ob('C09.reach', sq(f), f not in weakfns, 'uses %s' % (weakfns[f][0][1] if f in weakfns else ''), f.loc(weakfns[f][0][0]) if f in weakfns else f.loc())
    for m in p.modules.values():
        for st in m.tree.body:
            if isinstance(st, (ast.Assign, ast.Expr)):
                for n in ast.walk(st):
                    if isinstance(n, ast.Call):
                        r = p.resolve_dotted(n.func, m)
                        if r and r[0] == 'ext' and isinstance(r[1], str) and weak(r[1]):
                            rep.ob('C09.reach', 'module %s' % m.name, False, 'uses %s at import' % r[1], '%s:%d' % (m.path, n.lineno))

    # ---- uniform blinding values
    f = p.fn('counter.sample')
    m = ('sym', f.params[0])
    eng = Engine(p, inline=lambda g: g.mod is f.mod, assert_inline=True, raisers=lambda n: False)
    for s, c in eng.run(f):
        if c[0] != 'ret':
            continue
        v = strip(uncast(c[1]))
        ok, why = False, 'returns %s' % show(v)
        if is_sys_draw(v, ('getrandbits',)):
            b = uncast(v[3][0])
            bl = [k for k, pol in ((uncast(k), pol) for k, pol in s.facts.items()) if pol and k[0] == 'cmp' and k[1] == 'eq' and k[3] == C(0)
                  and k[2] == bits(m)]
            okb = b == bits(m) or b == ('mcall', m, 'bit_length', (), ()) or (b == C(1) and bool(bl))
            below = any(uncast(k) == ('cmp', 'lt', v, m) and pol for k, pol in ((strip(k), pol) for k, pol in s.facts.items()))
            ok = okb and below
            why = 'a draw of %s bits is accepted %s' % (show(b), 'below the modulus' if below else 'without comparing it with the modulus')
        elif is_sys_draw(v, ('randrange',)):
            a = [uncast(x) for x in v[3]]
            ok = a in ([m], [C(0), m])
        elif is_sys_draw(v, ('randint',)):
            ok = [uncast(x) for x in v[3]] == [C(0), ('bin', 'Sub', m, C(1))]
        rep.ob('C09.uniform', 'sample', ok, why, f.loc())

    # ---- noise
    f = p.fn('counter.noise')
    eng = Engine(p, inline=lambda g: g.mod is f.mod, assert_inline=False, raisers=lambda n: False)
    for s, c in eng.run(f):
        if c[0] == 'ret':
            v = strip(uncast(c[1]))
            rep.ob('C09.noise', 'noise', is_sys_draw(v, ('gauss', 'normalvariate')), 'noise is %s' % show(v)[:200], f.loc())

    # ---- nonces and secrets
    def urandom_len(v):
        v = strip_casts(v)
        if v[0] == 'call' and v[1] == 'base64.b64encode' and len(v[2]) == 1:
            v = strip_casts(v[2][0])
        return v[2][0] if v[0] == 'call' and v[1] == 'os.urandom' and v[2] else None

    def okl(n):
        return n is not None and (is_num(n) and n[2] >= 32 or n == ('ext', 'cryptography.hazmat.primitives.hashes.SHA256.digest_size'))
    for q in ('protocol.PrivCountProtocol.handshake_cookie_get', 'protocol.PrivCountProtocol.handshake_secret_generate',
              'protocol.TorControlProtocol.generateClientNonce', 'protocol.TorControlProtocol.generateServerNonce'):
        try:
            f = p.fn(q)
        except AnalysisBroken:
            f = None
        if f is None:
            continue
        eng = Engine(p, inline=lambda g: g.cls is f.cls, assert_inline=False, raisers=lambda n: False)
        for s, c in eng.run(f):
            if c[0] == 'ret':
                n = urandom_len(c[1])
                rep.ob('C09.nonce', sq(f), okl(n), 'returns %s' % show(c[1])[:160], f.loc())
    f = p.fn('protocol.TorControlServerProtocol.writeConfiguredCookieFile') if 'protocol.TorControlServerProtocol.writeConfiguredCookieFile' in {sq(g) for g in p.funcs.values()} else None
    for g in p.funcs.values():
        if g.name == 'writeConfiguredCookieFile':
            f = g
    wr = []
    if f is not None:
        eng = Engine(p, inline=lambda g: False, assert_inline=False, raisers=lambda n: False,
                     on_call=lambda ev: wr.append(ev) if ev.kind == 'call' and ev.name == '.write' else None)
        eng.run(f)
        for ev in wr:
            v = strip_casts(ev.args[0])
            par = v == ('sym', f.params[1]) if len(f.params) > 1 else False
            rep.ob('C09.nonce', 'control cookie', par or okl(urandom_len(v)), 'cookie is %s' % show(v), ev.loc())

    # ---- keys
    f = p.fn('crypto.encrypt')
    eng = Engine(p, inline=lambda g: g.mod is f.mod, assert_inline=False, raisers=lambda n: False)
    fer = []
    eng.on_call = lambda ev: fer.append(ev) if ev.kind in ('call', 'new') and ev.name.endswith('fernet.Fernet') else None
    eng.run(f)
    for ev in fer:
        k = strip_casts(ev.args[0])
        rep.ob('C09.key', 'encrypt', k[0] in ('mcall', 'call') and 'generate_key' in (k[1] if isinstance(k[1], str) else '') or
               k[0] == 'mcall' and k[2] == 'generate_key', 'symmetric key is %s' % show(k), ev.loc())
    f = p.fn('crypto.generate_keypair')
    gk = []
    eng = Engine(p, inline=lambda g: g.mod is f.mod, assert_inline=False, raisers=lambda n: False,
                 on_call=lambda ev: gk.append(ev) if ev.kind == 'call' and ev.name.endswith('rsa.generate_private_key') else None)
    eng.run(f)
    for ev in gk:
        kw = dict(ev.kwargs)
        e = kw.get('public_exponent', ev.args[0] if ev.args else NONE)
        z = kw.get('key_size', ev.args[1] if len(ev.args) > 1 else NONE)
        rep.ob('C09.key', 'generate_keypair', is_num(e) and e[2] >= 65537 and is_num(z) and z[2] >= 2048, 'exponent %s, size %s' % (show(e), show(z)), ev.loc())
    rep.assumption('random.SystemRandom, os.urandom and the cryptography library draw from the operating system CSPRNG')


def bits(m):
    return ('mcall', ('bin', 'Sub', m, C(1)), 'bit_length', (), ())
