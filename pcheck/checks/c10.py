"""C10: on every path of the data collector's start handling that accepts the start (helpers
inlined, loops summarised), the path condition is required to contain both halves of set
equality between the digests of the offered share keeper keys and the configured digests;
the digest has to be the complete hash of the very key that is later used to encrypt."""
from .c05 import *

DIG = 'crypto.get_public_digest_string'


def check(p, rep):
    rep.rule('C10.known', 'every offered share keeper key is one of the configured ones on every accepting path', 1)
    rep.rule('C10.all', 'every configured share keeper is offered on every accepting path', 1)
    rep.rule('C10.once', 'a key is used up by the first share keeper that offers it', 1)
    rep.rule('C10.refuse', 'an unexpected key leads to a refusal, not to an exception', 1)
    rep.rule('C10.digest', 'the digest compared covers the complete public key', 1)
    rep.rule('C10.aggregate', 'no collection exists on a path that refuses the share keepers', 1)
    f = p.fn(START)
    cfg = ('sym', f.params[1])
    muts, bad_rm = [], []

    def is_cfg(t):
        return any(x[0] in ('idx',) and x[2] == C('share_keepers') and x[1][0] in ('attr', 'hv') or
                   x[0] == 'mcall' and x[2] == 'get' and x[3] and x[3][0] == C('share_keepers') for x in subterms(t))

    def is_req(t):
        return any(is_start_keys(x) and mentions(x, cfg) for x in subterms(t) if x[0] in ('idx', 'mcall'))

    def req_digest(t):
        """digest of the key the start message offers for an element of its share keepers"""
        t = strip(t)
        if not (t[0] == 'call' and t[1] == DIG and t[2]):
            return False
        k = strip_casts(t[2][0])
        if not (k[0] == 'call' and k[1] == 'base64.b64decode' and k[2]):
            return False
        v = k[2][0]
        priv = t[2][1] if len(t[2]) > 1 else dict(t[3]).get('is_private_key', TRUE)
        if priv != FALSE:
            return False
        if v[0] == 'idx' and is_start_keys(v[1]) and v[2][0] == 'elem' and strip(v[2][1]) == v[1]:
            return True
        return is_start_keys(v) is False and v[0] == 'elem' and is_req(v)

    def content(t, s):
        t = strip(t)
        for o in [x for x in subterms(t) if x[0] == 'obj'] if s is not None else ():
            app = s.heap.get((o, '#app'))
            if app:
                t = subst(t, o, ('content', tuple(a[0] for a in app)))
        return t

    def kind(t, s):
        c = content(t, s)
        if any(x[0] == 'call' and x[1] == DIG for x in subterms(c)) and is_req(c):
            return 'R'
        if is_cfg(c):
            return 'E'
        return None

    def on_call(ev):
        if ev.kind == 'call' and ev.name in ('.remove', '.discard', '.pop', '.clear', '.difference_update', '.intersection_update', '.update', '.add') \
                and (ev.recv[0] == 'obj' and ev.recv[1] in ('set', 'list') or is_cfg(ev.recv)):
            k = kind(ev.recv, ev.st)
            if ev.name != '.add' and k is None and not any(req_digest(a) for a in ev.args):
                return
            if ev.name == '.add' and not any(req_digest(a) for a in ev.args):
                return
            if ev.name == '.remove':
                known = ev.facts.get(('cmp', 'in', strip(ev.args[0]), strip(ev.recv)))
                muts.append((ev, known))
            return ('mut', ev.name, strip(ev.recv), tuple(strip(a) for a in ev.args))
        if ev.kind == 'new' and ev.name == 'Aggregator':
            return ('agg',)

    words = lambda a: any(x[0] == 'call' and x[1] == DIG or x[0] == 'obj' and x[1] in ('set', 'list') for x in subterms(a)) or is_cfg(a) or \
        any(x[0] == 'comp' for x in subterms(a))
    eng = dc_engine(p, on_call, opaque=('counter.SecureCounters.generate_blinding_shares', 'counter.SecureCounters.__init__',
                                        DCM + '.Aggregator.__init__'), track=words, zero_iter=False, cap=400)
    res = eng.run(f, selfcls='DataCollector')
    rep.count('paths', len(res))
    seen = False
    for s, c in res:
        if c[0] != 'ret':
            continue
        if is_const(c[1]) and not c[1][2]:
            rep.ob('C10.aggregate', 'do_start', ('agg',) not in s.trace, 'a collection was set up on a path that refuses the start', f.loc())
            continue
        seen = True
        known = allof = once = False
        used = {l[2] for l in s.trace if l[0] == 'mut' and l[1] in ('.remove', '.discard') and kind(l[2], s) == 'E' and len(l[3]) == 1 and req_digest(l[3][0])}
        for a, v in s.facts.items():
            if a[0] == 'cmp' and a[1] == 'in' and v and req_digest(a[2]) and kind(a[3], s) in ('E', None) and not is_req(content(a[3], s)):
                if kind(a[3], s) == 'E' or is_cfg(content(a[3], s)) or a[3][0] == 'obj':
                    known = True
            if a[0] == 'truthy' and not v:
                k = content(a[1], s)
                if kind(a[1], s) == 'E' and strip(a[1]) in used:
                    allof = True
                for x in [k]:
                    if x[0] == 'bin' and x[1] == 'Sub' or x[0] == 'mcall' and x[2] in ('difference', 'symmetric_difference') or x[0] == 'bin' and x[1] == 'BitXor':
                        l, r = (x[2], x[3]) if x[0] == 'bin' else (x[1], x[3][0])
                        kl, kr = kind(l, s), kind(r, s)
                        if (kl, kr) == ('R', 'E') or 'BitXor' in x[:2] or x[2:3] == ('symmetric_difference',):
                            known = True
                        if (kl, kr) == ('E', 'R') or 'BitXor' in x[:2] or x[2:3] == ('symmetric_difference',):
                            allof = True
            if a[0] == 'cmp' and a[1] == 'eq' and v and {kind(a[2], s), kind(a[3], s)} == {'E', 'R'}:
                known = allof = True
                srt = all(x[0] == 'call' and x[1] == 'sorted' for x in (strip(a[2]), strip(a[3])))
                once = once or srt
            if a[0] == 'truthy' and v and a[1][0] == 'mcall' and a[1][2] in ('issubset', 'issuperset'):
                kl, kr = kind(a[1][1], s), kind(a[1][3][0], s)
                sub = a[1][2] == 'issubset'
                known = known or (kl, kr) == (('R', 'E') if sub else ('E', 'R'))
                allof = allof or (kl, kr) == (('E', 'R') if sub else ('R', 'E'))
            if a[0] == 'cmp' and a[1] == 'eq' and v and all(x[0] == 'len' for x in a[2:4]):
                ks = [is_start_keys(x[1]) or kind(x[1], s) for x in a[2:4]]
                once = once or (True in ks or 'R' in ks) and 'E' in ks or (True in ks and 'R' in ks)
        once = once or bool(used) and known
        rep.ob('C10.known', 'do_start', known, 'a start is accepted although a share keeper key is not known to be configured', f.loc())
        rep.ob('C10.all', 'do_start', allof, 'a start is accepted although a configured share keeper may be missing', f.loc())
        rep.ob('C10.once', 'do_start', once, 'a start is accepted although two share keepers may have offered the same key', f.loc())
    if not seen:
        raise AnalysisBroken('no accepting path in the start handling')
    for ev, known in muts:
        rep.ob('C10.refuse', 'remove in ' + sq(ev.fn), known is True, 'removes a key that may not be there (KeyError escapes the start handling)', ev.loc())
    if not muts:
        rep.ob('C10.refuse', 'do_start', True)

    g = p.fn('crypto.get_public_digest_string')
    eng = Engine(p, inline=lambda h: h.mod is g.mod and h.name not in ('load_public_key_string', 'load_private_key_string'), assert_inline=False, raisers=lambda n: False)
    for s, c in eng.run(g):
        if c[0] != 'ret':
            continue
        v = strip(c[1])
        if s.facts.get(('truthy', ('sym', g.params[1]))) is True:
            continue
        core = v
        enc = core[2] if core[0] == 'mcall' else None
        h = core[1] if core[0] == 'mcall' else core
        strong = h[0] == 'call' and h[1].startswith('hashlib.sha') and h[1] not in ('hashlib.sha', 'hashlib.sha1') and enc in ('hexdigest', 'digest')
        rep.ob('C10.digest', 'hash', strong, 'the digest is %s' % show(v)[:160], g.loc())
        arg = strip_casts(h[2][0]) if h[0] == 'call' and h[2] else NONE
        whole_key = arg[0] == 'mcall' and arg[2] == 'public_bytes' and mentions(arg, ('sym', g.params[0]))
        rep.ob('C10.digest', 'data', whole_key, 'the digest covers %s' % show(arg)[:160], g.loc())
