"""C06: path-sensitive interprocedural analysis of the data collector's aggregator and of the
counter object: noise is added to every bin exactly once before counts can be detached
(typestate of the pending flag, guarded by the stored noise weight), counts are detached
once, and no code path takes counts out of a data collector any other way."""
from .sc import *

SCN = 'counter.SecureCounters'
GEN, DET = SCN + '.generate_noise', SCN + '.detach_counts'
SCSELF = ('self', 'SecureCounters')


def noise_calls(t):
    return find_calls(t, 'counter.noise') + [m for n in ('gauss', 'normalvariate') for m in find_mcalls(t, n)]


def run_noise(p, inline_noise):
    f = p.method(p.cls('SecureCounters'), 'generate_noise')
    st, cop = [], []

    def on_call(ev):
        if is_bin_store(ev):
            st.append(ev)
            return ('noise', struct_of(ev.recv)[0])
        if ev.kind == 'call' and ev.name == T:
            return ('added', ev.arg(0))
        if ev.kind == 'setattr' and ev.name == '.is_noise_pending=':
            return ('pending', ev.value)
    eng = Engine(p, inline=lambda g: (g.cls is f.cls or inline_noise and g.mod is f.mod and g.name == 'noise') and sq(g) != T,
                 on_call=on_call, assert_inline=False, keep_copies=True, raisers=lambda n: False, zero_iter=False, track=lambda a: False)
    return f, eng.run(f), st


def check(p, rep):
    rep.rule('C06.every', 'noise is computed for every counter and bin and added once', 1)
    rep.rule('C06.pending', 'the noise-pending mark is only cleared after the noise was added', 1)
    rep.rule('C06.required', 'a data collector always requires noise', 1)
    rep.rule('C06.detach', 'counts can only be detached after noise was added, and only once', 1)
    rep.rule('C06.once', 'the aggregator adds noise only when it has not done so, and then records that it did', 2)
    rep.rule('C06.weightless', 'a relay without a noise weight drops its counters', 1)
    rep.rule('C06.stop', 'stopping with valid counts adds missing noise and only returns detached counts', 2)
    rep.rule('C06.owner', 'counts leave a data collector only through the noise-checked detach', 2)
    SC, A = p.cls('SecureCounters'), p.cls('Aggregator')

    # ---- the counter object
    f, res, st = run_noise(p, False)
    rep.count('paths', len(res))
    for ev in st:
        X, k, i = struct_of(ev.recv)
        n = noise_calls(ev.args[1])
        rep.ob('C06.every', 'noise value', len(n) == 1 and whole(ev.loops, X) and X[0] == 'copy' and strip(X) == ZERO,
               'bin noise set to %s' % show(ev.args[1]), ev.loc())
    if not st:
        rep.ob('C06.every', 'noise value', False, 'no noise is ever computed', f.loc())
    for s, c in res:
        if c[0] != 'ret':
            continue
        nz = [l for l in s.trace if l[0] == 'noise']
        ad = [l for l in s.trace if l[0] == 'added']
        pe = [l for l in s.trace if l[0] == 'pending']
        ok = len(nz) == 1 and len(ad) == 1 and ad[0][1] == nz[0][1] and s.trace.index(nz[0]) < s.trace.index(ad[0])
        rep.ob('C06.every', 'generate_noise', ok, 'a path computes noise %d times and adds it %d times' % (len(nz), len(ad)), f.loc())
        ok = len(pe) == 1 and pe[0][1] == FALSE and bool(ad) and s.trace.index(ad[0]) < s.trace.index(pe[0])
        rep.ob('C06.pending', 'generate_noise', ok, 'the pending mark is cleared %s' % ('before the noise is added' if pe else 'never'), f.loc())
    init = p.method(SC, '__init__')
    for g, n, v in attr_stores(p, 'is_noise_pending'):
        if g is init:
            rep.ob('C06.required', 'constructor', isinstance(v, ast.Name) and v.id in init.params, 'pending mark starts as something else than requested', g.loc(n))
        else:
            rep.ob('C06.pending', 'store in ' + sq(g), g is f or g.cls is SC and not_false(v) or sq(g) not in KNOWN, 'pending mark changed outside noise generation', g.loc(n))
    d = p.method(SC, 'detach_counts')
    eng = Engine(p, inline=lambda g: g.cls is SC, assert_inline=False, raisers=lambda n: False)
    for s, c in eng.run(d):
        if c[0] == 'ret' and not is_const(c[1]):
            ok = s.facts.get(('truthy', ('attr', SCSELF, 'is_noise_pending'))) is False
            rep.ob('C06.detach', 'detach_counts', ok, 'a path returns %s without noise having been added' % show(c[1]), d.loc())
            cur = s.heap.get((SCSELF, 'counters'))
            rep.ob('C06.detach', 'detach_counts:once', cur == NONE, 'the counts stay attached', d.loc())
    for g, n, v in attr_stores(p, 'counters'):
        if g.cls is SC:
            ok = g is init or isinstance(v, ast.Constant) and v.value is None
            rep.ob('C06.detach', 'store in ' + sq(g), ok, 'the blinded and noised counts are replaced', g.loc(n))

    # ---- a data collector requires noise
    idx = init.params.index('require_generate_noise') if 'require_generate_noise' in init.params else None
    dflt = init.node.args.defaults[-1] if init.node.args.defaults else None
    for g, n, k, t in calls_in(p, lambda k, t, n: k == 'class' and t is SC):
        if g.mod is A.mod:
            a = next((kw.value for kw in n.keywords if kw.arg == 'require_generate_noise'), n.args[idx - 1] if idx and len(n.args) >= idx else dflt)
            rep.ob('C06.required', sq(g), isinstance(a, ast.Constant) and a.value is True, 'data collector counters do not require noise', g.loc(n))

    # ---- the aggregator
    gens = []

    def on_call(ev):
        if ev.kind == 'call' and ev.name == GEN:
            gens.append(ev)
            return ('gen', ev.recv, ev.arg(0))
        if ev.kind == 'call' and ev.name == DET:
            return ('detach', ev.recv)
        if ev.kind == 'setattr' and ev.name == '.noise_weight_value=':
            return ('weight', ev.value)
        if ev.kind == 'setattr' and ev.name == '.secure_counters=':
            return ('counters', ev.value)
    AS = ('self', 'Aggregator')
    W = ('attr', AS, 'noise_weight_value')

    def weightless(x):
        return find_calls(x, 'counter.has_noise_weight') or find_calls(x, 'counter.get_noise_weight')

    def track(a):
        return mentions(a, W) or bool(weightless(a)) or mentions(a, ('sym', 'counts_are_valid')) or a[0] == 'isnone'
    visited = {}
    for name in ('generate_noise', 'set_fingerprint', 'stop'):
        m = p.method(A, name)
        if m is None:
            raise AnalysisBroken('anchor vanished: Aggregator.' + name)
        gens.clear()
        eng = Engine(p, inline=lambda g: g.cls is A, on_call=on_call, assert_inline=False, raisers=lambda n: False, track=track, cap=400)
        res = eng.run(m, selfcls='Aggregator')
        rep.count('paths', len(res))
        for g in eng.inlined | {sq(m)}:
            visited[g] = True
        for s, c in res:
            if c[0] != 'ret':
                continue
            gn = [l for l in s.trace if l[0] == 'gen']
            ws = [l[1] for l in s.trace if l[0] == 'weight']
            if gn:
                guard = s.facts.get(('isnone', W)) is True
                rep.ob('C06.once', name, len(gn) == 1 and guard, 'noise is added %d times%s' % (len(gn), '' if guard else ' without checking that none was added'), m.loc())
                okw = len(ws) == 1 and strip(ws[0]) == strip(gn[0][2]) and known_weight(s, strip(ws[0]))
                rep.ob('C06.once', name + ':recorded', okw, 'noise with weight %s recorded as %s' % (show(gn[0][2]), [show(x) for x in ws]), m.loc())
            elif ws:
                rep.ob('C06.once', name + ':recorded', False, 'noise recorded as added on a path that adds none', m.loc())
            if name == 'generate_noise' and not gn and s.facts.get(('isnone', W)) is True:
                drop = s.heap.get((AS, 'secure_counters')) == NONE or s.facts.get(('isnone', ('attr', AS, 'secure_counters'))) is True
                rep.ob('C06.weightless', name, drop, 'the counters survive although no noise was added', m.loc())
            if name == 'stop':
                v = strip(c[1])
                if not (is_const(v) and not v[2]):
                    det = [l for l in s.trace if l[0] == 'detach']
                    ok = v[0] == 'call' and v[1] == DET and len(det) == 1
                    rep.ob('C06.stop', 'result', ok, 'stop returns %s' % show(v), m.loc())
                    have = bool(gn) or s.facts.get(('isnone', W)) is False
                    rep.ob('C06.stop', 'noise', have, 'counts detached without noise on this path', m.loc())
                    rep.ob('C06.stop', 'closed', s.heap.get((AS, 'secure_counters')) == NONE, 'counters stay in use after being detached', m.loc())
                    rep.ob('C06.stop', 'wanted', s.facts.get(('truthy', ('sym', 'counts_are_valid'))) is not False, 'counts returned although marked invalid', m.loc())
    ainit = p.method(A, '__init__')
    for g, n, v in attr_stores(p, 'noise_weight_value'):
        ok = g is ainit and isinstance(v, ast.Constant) and v.value is None or sq(g) in visited
        rep.ob('C06.once', 'store in ' + sq(g), ok, 'the record of added noise is changed elsewhere', g.loc(n))

    # ---- who may take counts or add noise
    for g in p.funcs.values():
        for n in ast.walk(g.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                if n.func.attr == 'detach_counts' and g.mod is A.mod:
                    rep.ob('C06.owner', 'detach in ' + sq(g), sq(g) in visited, 'counts are taken on an unanalysed path', g.loc(n))
                if n.func.attr == 'generate_noise':
                    rep.ob('C06.owner', 'noise in ' + sq(g), sq(g) in visited, 'noise is added on an unanalysed path', g.loc(n))
            if isinstance(n, ast.Attribute) and n.attr == 'secure_counters' and g.cls is not A:
                rep.ob('C06.owner', 'access in ' + sq(g), False, "reaches into the aggregator's counters", g.loc(n))
            if isinstance(n, ast.Attribute) and n.attr in BYPASS and g.cls is not SC:
                rep.ob('C06.owner', '%s in %s' % (n.attr, sq(g)), False, 'reaches inside a counter object', g.loc(n))
            if isinstance(n, ast.Attribute) and n.attr == 'counters' and g.cls is not SC and \
                    (isinstance(n.value, ast.Attribute) and n.value.attr == 'secure_counters' or isinstance(n.value, ast.Name) and n.value.id == 'secure_counters'):
                rep.ob('C06.owner', 'counts in %s' % sq(g), False, 'reads or changes the counts directly', g.loc(n))
    # escapes of the counter object inside the aggregator
    allowed = {'increment', 'generate_noise', 'generate_blinding_shares', 'detach_blinding_shares', 'detach_counts'}
    for m in [g for g in p.funcs.values() if g.cls is A]:
        par = {}
        for x in ast.walk(m.node):
            for y in ast.iter_child_nodes(x):
                par[y] = x
        for n in ast.walk(m.node):
            if isinstance(n, ast.Attribute) and n.attr == 'secure_counters' and isinstance(n.ctx, ast.Load):
                u = par.get(n)
                ok = isinstance(u, ast.Attribute) and (u.attr in allowed or not hasattr_data(SC, u.attr)) or isinstance(u, ast.Compare) or \
                    isinstance(u, (ast.If, ast.BoolOp, ast.UnaryOp, ast.IfExp, ast.Call, ast.keyword))
                rep.ob('C06.owner', 'use in ' + sq(m), ok, 'the counter object is used in a way that could bypass noise', m.loc(n))


BYPASS = {'zero_counters', 'is_noise_pending', '_tally_counter', '_derive_all_counters', '_blind', '_unblind'}


def hasattr_data(SC, a):
    return a in ('counters', 'zero_counters', 'shares', 'is_noise_pending', '_tally_counter', '_derive_all_counters', 'tally_counters', 'import_blinding_share', '_blind', '_unblind', '__dict__')


def not_false(v):
    return isinstance(v, ast.Constant) and bool(v.value)


def known_weight(s, v):
    """v is known not to be None on this path"""
    if is_num(v) or s.facts.get(('isnone', v)) is False:
        return True
    if v[0] == 'call' and v[1] == 'counter.get_noise_weight':
        return s.facts.get(('truthy', ('call', 'counter.has_noise_weight') + v[2:4])) is True or \
            any(k[0] == 'truthy' and k[1][0] == 'call' and k[1][1] == 'counter.has_noise_weight' and k[1][2] == v[2] and pol
                for k, pol in s.facts.items())
    return False
