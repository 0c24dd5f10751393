"""C27: symbolic extraction (helpers inlined) of what encryption builds and what decryption
takes apart.  The plaintext may appear in the result only under a single-use symmetric key,
that key only under the recipient's public key with OAEP/SHA-256, and the decryption term
must be the exact layer-by-layer inverse, with the same field names and padding."""
from ..util import *

PAD = 'cryptography.hazmat.primitives.asymmetric.padding.'
HASHES = {'cryptography.hazmat.primitives.hashes.SHA256', 'cryptography.hazmat.primitives.hashes.SHA384', 'cryptography.hazmat.primitives.hashes.SHA512'}


def kwargs(t, pos):
    d = dict(t[3])
    for n, v in zip(pos, t[2]):
        d[n] = v
    return d


def oaep_hash(t):
    """the hash used by an OAEP padding term (same for MGF1), or None"""
    t = strip(t)
    if not (t[0] == 'call' and t[1] == PAD + 'OAEP'):
        return None
    k = kwargs(t, ('mgf', 'algorithm', 'label'))
    g = k.get('mgf', NONE)
    if not (g[0] == 'call' and g[1] == PAD + 'MGF1'):
        return None
    h1 = kwargs(g, ('algorithm',)).get('algorithm', NONE)
    h2 = k.get('algorithm', NONE)
    if h1[:2] != h2[:2] or h1[0] != 'call' or h1[1] not in HASHES or k.get('label', NONE) != NONE:
        return None
    return h1[1]


def nolayer(t):
    return strip_casts(t, ('bytes', 'str', 'bytearray'))


def unwrap(t, name):
    t = nolayer(t)
    return nolayer(t[2][0]) if t[0] == 'call' and t[1] == name and t[2] else None


def check(p, rep):
    rep.rule('C27.hybrid', 'the result is exactly the data under a single-use key, and that key under the public key', 1)
    rep.rule('C27.fresh', 'the symmetric key is generated inside each encryption', 1)
    rep.rule('C27.inverse', 'decryption undoes the same layers in reverse, reading the fields encryption writes', 1)
    rep.rule('C27.padding', 'both sides use the same OAEP padding with MGF1 over SHA-2', 1)
    rep.rule('C27.key', 'a share keeper decrypts with its own private key and publishes the matching public key', 2)
    f = p.fn('crypto.encrypt')
    pub, data = ('sym', f.params[0]), ('sym', f.params[1])
    eng = Engine(p, inline=lambda g: g.mod is f.mod, assert_inline=False, raisers=lambda n: False)
    res = [(s, c) for s, c in eng.run(f) if c[0] == 'ret']
    fields = set()
    h_enc = set()
    for s, c in res:
        o = strip(c[1])
        items = dict()
        if o[0] == 'obj' and o[1] == 'dict':
            items = {k: strip(v) for k, v in o[3]}
            for k, v in s.heap.items():
                if len(k) == 3 and strip(k[0]) == o:
                    items[k[2]] = strip(v)
        keys, datas, other = [], [], []
        for k, v in items.items():
            e = unwrap(v, 'base64.b64encode')
            e = nolayer(v) if e is None else e
            if e[0] == 'mcall' and e[2] == 'encrypt' and e[1] == pub:
                keys.append((k, e))
            elif nolayer(v)[0] == 'mcall' and nolayer(v)[2] == 'encrypt' and nolayer(v)[1][0] == 'call' and nolayer(v)[1][1].endswith('fernet.Fernet'):
                datas.append((k, nolayer(v)))
            else:
                other.append((k, v))
        leak = [k for k, v in other if mentions(v, data) or 'generate_key' in repr(v)]
        ok = len(keys) == 1 and len(datas) == 1 and not leak
        rep.ob('C27.hybrid', 'encrypt:fields', ok, 'fields %s%s' % (sorted(show(k) for k in items), ', %s reveals the data or key' % [show(k) for k in leak] if leak else ''), f.loc())
        if not ok:
            continue
        (kk, ke), (dk, de) = keys[0], datas[0]
        sk = nolayer(de[1][2][0])
        rep.ob('C27.hybrid', 'encrypt:key', nolayer(ke[3][0]) == sk, 'the wrapped key is %s, the data key is %s' % (show(ke[3][0]), show(sk)), f.loc())
        rep.ob('C27.fresh', 'encrypt', 'generate_key' in show(sk) and not any(x[0] in ('attr', 'hv') for x in subterms(sk)), 'key is %s' % show(sk), f.loc())
        enc = unwrap(de[3][0], 'base64.b64encode')
        js = enc is not None and enc[0] == 'call' and enc[1] == 'json.dumps' and enc[2][0] == data
        rep.ob('C27.hybrid', 'encrypt:data', js, 'encrypts %s' % show(de[3][0]), f.loc())
        h = oaep_hash(ke[3][1] if len(ke[3]) > 1 else dict(ke[4]).get('padding', NONE))
        h_enc.add(h)
        rep.ob('C27.padding', 'encrypt', h is not None, 'padding is %s' % (show(ke[3][1]) if len(ke[3]) > 1 else 'missing'), f.loc())
        fields.add((kk, dk))
    f = p.fn('crypto.decrypt')
    priv, ct = ('sym', f.params[0]), ('sym', f.params[1])
    eng = Engine(p, inline=lambda g: g.mod is f.mod, assert_inline=False, raisers=lambda n: False)
    for s, c in eng.run(f):
        if c[0] != 'ret':
            continue
        v = nolayer(c[1])
        a = unwrap(v, 'json.loads')
        b = unwrap(a, 'base64.b64decode') if a else None
        ok, why = False, 'returns %s' % show(v)[:300]
        if b and b[0] == 'mcall' and b[2] == 'decrypt' and b[1][0] == 'call' and b[1][1].endswith('fernet.Fernet'):
            dfield = nolayer(b[3][0])
            k = nolayer(b[1][2][0])
            if k[0] == 'mcall' and k[2] == 'decrypt' and k[1] == priv and dfield[0] == 'idx' and dfield[1] == ct:
                kf = unwrap(k[3][0], 'base64.b64decode')
                ttl = b[3][1] if len(b[3]) > 1 else dict(b[4]).get('ttl', NONE)
                if kf and kf[0] == 'idx' and kf[1] == ct:
                    ok = (kf[2], dfield[2]) in fields and ttl == NONE
                    why = 'reads fields %s, encryption writes %s' % ((show(kf[2]), show(dfield[2])), [tuple(show(y) for y in x) for x in fields])
                    h = oaep_hash(k[3][1] if len(k[3]) > 1 else dict(k[4]).get('padding', NONE))
                    rep.ob('C27.padding', 'decrypt', h is not None and h_enc == {h}, 'padding hash %s, encryption uses %s' % (h, h_enc), f.loc())
        rep.ob('C27.inverse', 'decrypt', ok, why, f.loc())
    rep.ob('C27.inverse', 'encrypt', len(fields) == 1, 'encryption writes %s' % fields, f.loc())

    # ---- serialisation is lossless for the encoder options used
    f = p.fn('crypto.json_serialise')
    eng = Engine(p, inline=lambda g: False, raisers=lambda n: False)
    for s, c in eng.run(f):
        if c[0] == 'ret':
            v = strip(c[1])
            kw = {k for k, _ in v[3]} if v[0] == 'call' else {'?'}
            rep.ob('C27.inverse', 'json_serialise', v[0] == 'call' and v[1] == 'json.dumps' and v[2] == (('sym', f.params[0]),) and
                   kw <= {'separators', 'sort_keys', 'indent', 'ensure_ascii'}, 'serialises as %s' % show(v), f.loc())

    # ---- key pairing at the share keeper
    SK = p.cls('ShareKeeper')
    f = p.method(SK, 'do_start')
    decs = []
    eng = Engine(p, inline=lambda g: g.cls is SK, assert_inline=False, raisers=lambda n: False, track=lambda a: False,
                 on_call=lambda ev: decs.append(ev) if ev.kind == 'call' and ev.name == 'crypto.decrypt' else None)
    eng.run(f, selfcls='ShareKeeper')
    if not decs:
        raise AnalysisBroken('the share keeper never decrypts')
    keyfile = None
    for ev in decs:
        k = strip(ev.arg(0))
        ok = k[0] == 'call' and k[1] == 'crypto.load_private_key_file' and k[2]
        keyfile = k[2][0] if ok else None
        rep.ob('C27.key', 'ShareKeeper decrypts', bool(ok) and self_key(keyfile), 'decrypts with %s' % show(k), ev.loc())
    pubs = []
    g = p.method(SK, 'get_status')
    eng = Engine(p, inline=lambda x: x.cls is SK, assert_inline=False, raisers=lambda n: False, track=lambda a: False,
                 on_call=lambda ev: pubs.append(ev) if ev.kind == 'call' and ev.name in ('crypto.get_serialized_public_key', 'crypto.get_public_bytes') else None)
    eng.run(g, selfcls='ShareKeeper')
    for ev in pubs:
        k = strip(ev.arg(0))
        flag = strip(ev.arg(1)) if len(ev.args) > 1 or ev.kwargs else TRUE
        rep.ob('C27.key', 'ShareKeeper publishes', k == keyfile and flag in (TRUE,), 'publishes the key of %s (private: %s)' % (show(k), show(flag)), ev.loc())
    f = p.fn('crypto.get_public_bytes')
    eng = Engine(p, inline=lambda x: x.mod is f.mod, assert_inline=False, raisers=lambda n: False)
    for s, c in eng.run(f):
        if c[0] == 'ret':
            v = nolayer(c[1])
            rep.ob('C27.key', 'public bytes', v[0] == 'mcall' and v[2] == 'public_bytes', 'publishes %s' % show(v)[:160], f.loc())
    rep.assumption('the cryptography library implements Fernet and RSA-OAEP; JSON round-trips the share structure')


def self_key(t):
    return t is not None and t[0] == 'idx' and any(x[0] in ('attr', 'hv') and x[1][0] == 'self' and x[2] == 'config' for x in subterms(t))
