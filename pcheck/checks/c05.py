"""C05: symbolic extraction, on every path (helpers inlined, loops summarised by an
arbitrary iteration that keeps copy identity), of where blinding factors are drawn, which
structure holds them, and what is done with that structure: a fresh draw per share keeper,
counter and bin, made when the counters are created, and released only after encryption
under the public key of the share keeper it belongs to."""
from .sc import *

DCM = 'data_collector'
START = DCM + '.DataCollector.do_start'
CRYPTO = ('crypto.encrypt', 'crypto.load_public_key_string')


def dc_engine(p, on_call, opaque=(), **k):
    """inlines the data collector, its aggregator and the counter object"""
    SC = p.cls('SecureCounters')
    ms = {f.mod for f in (p.fn(START),)}
    o = dict(assert_inline=False, raisers=lambda n: False, track=lambda a: False)
    o.update(k)
    return Engine(p, inline=lambda g: (g.mod in ms or g.cls is SC) and sq(g) not in opaque, on_call=on_call, **o)


def is_start_keys(t):
    t = strip(t)
    return t[0] == 'idx' and t[2] == C('sharekeepers') or \
        t[0] == 'mcall' and t[2] == 'get' and t[3] and t[3][0] == C('sharekeepers')


def check(p, rep):
    rep.rule('C05.fresh', 'a new blinding factor is drawn for every share keeper, counter and bin', 1)
    rep.rule('C05.own', "each share keeper's share is the structure holding the factors drawn for it", 1)
    rep.rule('C05.create', 'the counters are blinded for every requested share keeper before the aggregator exists', 2)
    rep.rule('C05.encrypt', "every share leaves encrypted to its own share keeper's key", 1)
    rep.rule('C05.forget', 'the collector drops its own reference to the shares when it hands them over', 1)
    rep.rule('C05.owner', 'no other code reads the blinding shares', 1)
    rep.rule('C05.increments', 'an unblinded counter object is never incremented', 1)

    # ---- generation
    f = p.method(p.cls('SecureCounters'), 'generate_blinding_shares')
    uids = ('sym', f.params[1])
    ev_s, ev_c, ev_b, ev_set = [], [], [], []

    def on_call(ev):
        if ev.kind == 'call' and ev.name == 'counter.sample':
            ev_s.append(ev)
        elif ev.kind == 'call' and ev.name in COPYERS_NAMES:
            ev_c.append(ev)
        elif is_bin_store(ev):
            ev_b.append(ev)
            return ('factor', struct_of(ev.recv)[0])
        elif ev.kind == 'setitem':
            ev_set.append(ev)
            return ('share', ev.args[0], ev.args[1], ev.recv)
    eng = sc_engine(p, (T, 'counter.SecureCounters._check_counter'), on_call)
    res = eng.run(f)
    rep.count('paths', len(res))
    over = lambda ev: any(strip(l[0]) == uids for l in ev.loops)
    if not ev_s:
        rep.ob('C05.fresh', 'sample', False, 'no factor is drawn from the random source', f.loc())
    for ev in ev_s:
        rep.ob('C05.fresh', 'sample', over(ev) and len(ev.loops) >= 3, 'a factor is drawn outside the loop over share keepers, counters and bins', ev.loc())
    for ev in ev_b:
        X, k, i = struct_of(ev.recv)
        v = uncast(ev.args[1])
        rep.ob('C05.fresh', 'factor', over(ev) and len(lin(v, MOD)) == 1 and v[0] == 'call' and v[1] == 'counter.sample' and whole(ev.loops, X),
               'factor %s stored' % show(v), ev.loc())
        cp = [e for e in ev_c if over(e)]
        rep.ob('C05.fresh', 'structure', X[0] == 'copy' and bool(cp), 'the factors of different share keepers are kept in one structure', ev.loc())
    for s, c in res:
        if c[0] != 'ret':
            continue
        fac = [l[1] for l in s.trace if l[0] == 'factor']
        sh = s.heap.get((('self', 'SecureCounters'), 'shares'))
        sto = [l for l in s.trace if l[0] == 'share' and strip(l[3]) == strip(sh or NONE) and l[1] == ('elem', uids)]
        secs = [secret_of(l[2], s) for l in sto]
        rep.ob('C05.own', 'shares', len(sto) == 1 and len(fac) == 1 and secs == fac,
               'shares hold %s, factors drawn into %s' % ([show(x) if x else '?' for x in secs], [show(x) for x in fac]), f.loc())

    # ---- the aggregator is born blinded
    A = p.cls('Aggregator')
    init = p.method(A, '__init__')
    GEN, INC = 'counter.SecureCounters.generate_blinding_shares', 'counter.SecureCounters.increment'
    sku = ('sym', 'sk_uids')
    if 'sk_uids' not in init.params:
        raise AnalysisBroken('Aggregator.__init__ has no sk_uids parameter')

    def on_call(ev):
        if ev.kind == 'new' and ev.name == 'SecureCounters':
            return ('new', ev.recv)
        if ev.kind == 'call' and ev.name == GEN:
            return ('gen', ev.recv, ev.arg(0))
        if ev.kind == 'call' and ev.name == INC:
            return ('inc', ev.recv)
    eng = dc_engine(p, on_call, opaque=(GEN, INC), cap=300)
    for s, c in eng.run(init, selfcls='Aggregator'):
        if c[0] != 'ret':
            continue
        sc = s.heap.get((('self', 'Aggregator'), 'secure_counters'))
        gen = [l for l in s.trace if l[0] == 'gen']
        ok = sc is not None and len(gen) == 1 and strip(gen[0][1]) == strip(sc) and strip(gen[0][2]) == sku and ('new', sc) in s.trace
        rep.ob('C05.create', 'Aggregator.__init__', ok, 'a path creates an aggregator whose counters were blinded %d times%s' %
               (len(gen), '' if not gen or strip(gen[0][2]) == sku else ' for ' + show(gen[0][2])), init.loc())
        early = [l for l in s.trace if l[0] == 'inc' and gen and s.trace.index(l) < s.trace.index(gen[0])]
        rep.ob('C05.increments', 'Aggregator.__init__', not early, 'counter incremented before blinding', init.loc())
    for g, n, v in attr_stores(p, 'secure_counters'):
        ok = g.cls is A and (g.name == '__init__' or isinstance(v, ast.Constant) and v.value is None)
        rep.ob('C05.increments', 'store in ' + sq(g), ok, 'replaces the blinded counters', g.loc(n))

    # ---- start: every share is encrypted before it is returned
    f = p.fn(START)
    GS = DCM + '.Aggregator.get_shares'
    cfg = ('sym', f.params[1])
    aggs = []

    def on_call(ev):
        if ev.kind == 'new' and ev.name == 'Aggregator':
            aggs.append(ev)
        if ev.kind == 'setitem' and ev.args[0] == C('secret'):
            return ('secret', ev.recv, ev.args[1])
        if ev.kind == 'setitem':
            return ('item', ev.recv, ev.args[0], ev.args[1])
        if ev.kind == 'setattr' and ev.name == '.shares=' or ev.kind == 'delattr' and ev.name == 'del.shares':
            return ('drop', ev.recv, ev.args[0] if ev.kind == 'setattr' else NONE)
    eng = dc_engine(p, on_call, opaque=(GEN, 'counter.SecureCounters.__init__', DCM + '.Aggregator.__init__'), zero_iter=False, cap=400)
    seen = 0
    for s, c in eng.run(f, selfcls='DataCollector'):
        if c[0] != 'ret' or is_const(c[1]):
            continue
        seen += 1
        S = [x for x in subterms(strip(c[1])) if x[0] in ('attr', 'hv') and x[2] == 'shares']
        R = strip(c[1])
        ok, why = False, 'returns %s' % show(R)[:200]

        def good(enc, raw):
            """enc is the encryption of share `raw` under the key of its share keeper"""
            enc = strip(enc)
            if not (enc[0] == 'call' and enc[1] == 'crypto.encrypt' and len(enc[2]) >= 2):
                return 'a share leaves as %s' % show(enc)[:160]
            key, data = enc[2][0], enc[2][1]
            k = raw[2]
            if data != ('idx', raw, C('secret')):
                return 'encrypts %s instead of the share' % show(data)[:160]
            inner = key[2][0] if key[0] == 'call' and key[1] == 'crypto.load_public_key_string' else None
            inner = strip_casts(inner) if inner else None
            if inner is None or not (inner[0] == 'call' and inner[1] == 'base64.b64decode'):
                return 'encrypts under %s' % show(key)[:160]
            loc = inner[2][0]
            if not (loc[0] == 'idx' and is_start_keys(loc[1]) and mentions(loc[1], cfg) and loc[2] in (k, ('idx', raw, C('sk_uid')))):
                return 'encrypts with the key %s, not the key of the share keeper the share is for' % show(loc)[:160]
            return None
        if S and R == S[0]:
            sets = [l for l in s.trace if l[0] == 'secret']
            raw = ('idx', R, ('elem', R))
            mine = [l for l in sets if strip(l[1]) == raw]
            if len(mine) == 1:
                why = good(mine[0][2], raw)
                ok = why is None
            else:
                why = 'a share is returned with its secret replaced %d times' % len(mine)
        elif R[0] in ('obj', 'dict'):
            its = [l for l in s.trace if l[0] == 'item' and strip(l[1]) == R]
            why = 'returned shares built in a way that is not understood: %s' % show(R)[:100]
            if len(its) == 1:
                v = its[0][3]
                sec = secret_of(v, s)
                for x in subterms(strip(sec)) if sec else ():
                    if x[0] == 'idx' and x[1][0] == 'idx' and x[2] == C('secret'):
                        why = good(sec, x[1])
                        ok = why is None and strip(its[0][2]) in (x[1][2], ('idx', x[1], C('sk_uid')))
                        break
        rep.ob('C05.encrypt', 'do_start', ok, why or '', f.loc())
        dr = [l for l in s.trace if l[0] == 'drop' and self_less(l[1]) and l[2] == NONE]
        rep.ob('C05.forget', 'do_start', bool(dr), 'the collector keeps the unencrypted shares', f.loc())
    if not seen:
        raise AnalysisBroken('no successful start path found')
    for ev in aggs:
        b = ev.bound or {}
        rep.ob('C05.create', 'do_start', is_start_keys(b.get('sk_uids', NONE)) and mentions(b['sk_uids'], cfg),
               'shares generated for %s' % show(b.get('sk_uids', NONE)), ev.loc())

    # ---- who reads the shares
    ok_readers = {'counter.SecureCounters.generate_blinding_shares', 'counter.SecureCounters.detach_blinding_shares', 'counter.SecureCounters.__init__'}
    seen = {'detach_blinding_shares': {GS}, 'get_shares': {START}}
    started = reach_names(p, START)
    for g in p.funcs.values():
        for n in ast.walk(g.node):
            if isinstance(n, ast.Attribute) and n.attr == 'shares' and isinstance(n.ctx, ast.Load):
                rep.ob('C05.owner', 'read in ' + sq(g), g.cls is p.cls('SecureCounters'), 'reads the unencrypted shares', g.loc(n))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in seen:
                rep.ob('C05.owner', '%s in %s' % (n.func.attr, sq(g)), sq(g) in started or g.cls is A, 'takes the unencrypted shares', g.loc(n))


COPYERS_NAMES = ('copy.deepcopy', 'copy.copy')


def self_less(t):
    return t[0] != 'c'


def reach_names(p, name):
    f = p.fn(name)
    return {sq(g) for g in p.reach([f])} | {name} if hasattr(p, 'reach') else {name}


def secret_of(v, s):
    """value under 'secret' of a dict built here"""
    v = strip_outer(v)
    if v[0] == 'obj':
        h = s.heap.get((v, '[]', C('secret')))
        if h is not None:
            return h
        for it in v[3] if len(v) > 3 else ():
            if isinstance(it, tuple) and len(it) == 2 and it[0] == C('secret'):
                return it[1]
    if v[0] == 'dict':
        for k, x in v[1]:
            if k == C('secret'):
                return x
    return None


def strip_outer(v):
    while v[0] == 'copy':
        v = v[1]
    return v
