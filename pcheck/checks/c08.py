"""C08: symbolic extraction of every store to a counter bin in SecureCounters (helpers
inlined, loops summarised by an arbitrary iteration) and comparison, in linear normal form
modulo the counter modulus, with the algebra of the protocol: add, blind by +v, unblind by
-v, tally by sum over all inputs, one signed adjustment at the end.  Coverage of every
counter and bin is decided by requiring the store on every path through the loops."""
from .sc import *


def addend(v, recv):
    """value stored to a bin of self.counters -> addend dict (value - old) mod modulus"""
    me = struct_of(recv)
    d = lin(v, MOD)
    olds = [a for a in d if a is not None and bin_value(a) and strip(bin_value(a)[0]) == COUNTERS and bin_value(a)[1] == me[1]
            and same_index(bin_value(a)[2], me[2])]
    if len(olds) != 1 or d[olds[0]] != 1:
        return None
    d.pop(olds[0])
    return d


def check(p, rep):
    rep.rule('C08.add', 'adding a counters structure adds each matching bin modulo the modulus', 1)
    rep.rule('C08.cover', 'every counter and every bin takes part; nothing is changed when the structures differ', 2)
    rep.rule('C08.match', 'structures are only combined when their counters and bins match', 1)
    rep.rule('C08.blind', 'a blinding value v contributes +v where it is generated and -v where its share is imported', 1)
    rep.rule('C08.import', 'a share is reported imported only when it was applied', 1)
    rep.rule('C08.tally', 'the tally is the sum of all inputs, made signed exactly once', 1)
    rep.rule('C08.increment', 'an increment adds exactly the requested amount modulo the modulus', 1)
    rep.rule('C08.init', 'counters start from zero copies of the configured bins', 1)
    rep.rule('C08.modulus', 'all roles use the one counter modulus', 1)
    rep.rule('C08.owner', 'no code outside the counter class changes the counts', 1)
    SC = p.cls('SecureCounters')
    steps = 0

    # ---- T: addition of a structure
    f = p.fn(T)
    counter = ('sym', f.params[1])
    stores = []

    def on_call(ev):
        if is_bin_store(ev):
            stores.append(ev)
            return 'add'
    eng = sc_engine(p, (), on_call)
    res = eng.run(f)
    steps += eng.steps
    rep.count('paths', len(res))
    if not stores:
        raise AnalysisBroken('no store to the counters found in _tally_counter')
    for ev in stores:
        X, k, i = struct_of(ev.recv)
        d = addend(ev.args[1], ev.recv) if strip(X) == COUNTERS else None
        ok = d is not None and len(d) == 1 and reduced(ev.args[1], MOD)
        if ok:
            a, c = list(d.items())[0]
            bv = a is not None and bin_value(a)
            ok = bool(bv) and c == 1 and strip(bv[0]) == counter and bv[1] == k and same_index(bv[2], i)
        rep.ob('C08.add', sq(ev.fn), ok, 'stores %s' % show(ev.args[1]), ev.loc())
        rep.ob('C08.cover', 'loops of ' + sq(ev.fn), whole(ev.loops, COUNTERS), 'the addition does not run over all counters and bins', ev.loc())
    for s, c in res:
        n = sum(1 for l in s.trace if l == 'add')
        if c[0] == 'ret' and c[1] == TRUE:
            rep.ob('C08.cover', 'success of ' + sq(f), n == 1, 'a path reports success with a bin added %d times' % n, f.loc())
            el = [k for k, v in s.facts.items() if v and k[0] == 'cmp' and k[1] == 'in' and k[3] == counter
                  and k[2][0] == 'elem' and strip(k[2][1]) == COUNTERS]
            ln = [k for k, v in s.facts.items() if v and k[0] == 'cmp' and k[1] == 'eq' and k[2][0] == 'len' and k[3][0] == 'len'
                  and mentions(k, counter) and mentions(k, COUNTERS) and mentions(k, BINS)]
            rep.ob('C08.match', sq(f), bool(el) and bool(ln), 'success without checking that %s match'
                   % ('the counter names' if not el else 'the number of bins'), f.loc())
        else:
            rep.ob('C08.cover', 'failure of ' + sq(f), n == 0, 'a path that reports failure has already changed bins', f.loc())

    # ---- blinding and unblinding
    for name, sign in (('generate_blinding_shares', 1), ('import_blinding_share', -1)):
        f = p.method(SC, name)
        if f is None:
            raise AnalysisBroken('anchor vanished: SecureCounters.' + name)
        st = []

        def on_call(ev):
            if is_bin_store(ev):
                st.append(ev)
                return ('factor', strip(struct_of(ev.recv)[0]) if sign < 0 else struct_of(ev.recv)[0])
            if ev.kind == 'call' and ev.name == T:
                return ('applied', strip(ev.arg(0)) if sign < 0 else ev.arg(0))

        eng = sc_engine(p, (T, 'counter.SecureCounters._check_counter'), on_call,
                        track=lambda a: not any(x[0] == 'elem' for x in subterms(a)))
        res = eng.run(f)
        steps += eng.steps
        rep.count('paths', len(res))
        for ev in st:
            X, k, i = struct_of(ev.recv)
            d = lin(ev.args[1], MOD)
            ok = len(d) == 1 and list(d.values())[0] == sign
            if ok:
                a = list(d)[0]
                if sign > 0:
                    ok = a[0] == 'call' and a[1] == 'counter.sample' and uncast(a[2][0]) == MOD
                else:
                    bv = bin_value(a)
                    ok = bool(bv) and strip(bv[0]) == strip(X) and bv[1] == k and same_index(bv[2], i) and \
                        strip(X) == ('idx', ('sym', f.params[1]), C('secret'))
            rep.ob('C08.blind', name, ok, 'factor %s' % show(ev.args[1]), ev.loc())
            rep.ob('C08.cover', name + ' factors', whole(ev.loops, X), 'factors are not set for all counters and bins', ev.loc())
        if not st:
            rep.ob('C08.blind', name, False, 'no factor is ever computed', f.loc())
        for s, c in res:
            if c[0] != 'ret':
                continue
            succ = c[1] == TRUE if sign < 0 else True
            if succ:
                fac = [l for l in s.trace if l[0] == 'factor']
                app = [l for l in s.trace if l[0] == 'applied']
                ok = len(fac) == 1 and len(app) == 1 and fac[0][1] == app[0][1] and s.trace.index(fac[0]) < s.trace.index(app[0])
                if sign < 0:
                    val = [k for k, v in s.facts.items() if v and k[0] == 'truthy' and k[1][0] == 'call'
                           and k[1][1] in (T, 'counter.SecureCounters._check_counter') and fac
                           and any(strip(a) == fac[0][1] for a in list(k[1][2]) + [x[1] for x in k[1][3]])]
                    rep.ob('C08.match', name, bool(val), 'success without having checked that the factors match the counters', f.loc())
                rep.ob('C08.import' if sign < 0 else 'C08.blind', name, ok,
                       'a successful path computes %d factors and applies %d structures%s' %
                       (len(fac), len(app), '' if len(fac) != 1 or len(app) != 1 else ' (not the computed one)'), f.loc())
            elif sign < 0 and not (is_const(c[1]) and not c[1][2]):
                # result passed through from the addition itself
                rep.ob('C08.import', name, any(x[0] == 'call' and x[1] == T for x in subterms(c[1])), 'result %s' % show(c[1]), f.loc())

    # ---- tally
    f = p.method(SC, 'tally_counters')
    st = []

    def on_call(ev):
        if is_bin_store(ev):
            st.append(ev)
            return 'signed'
        if ev.kind == 'call' and ev.name == T:
            return ('sum', ev.arg(0))

    def on_assume(a, pol):
        if a[0] == 'truthy' and a[1][0] == 'call' and a[1][1] == T:
            return 'sum ok' if pol else 'sum failed'
    eng = sc_engine(p, (T,), on_call, on_assume=on_assume)
    res = eng.run(f)
    steps += eng.steps
    rep.count('paths', len(res))
    for ev in st:
        X, k, i = struct_of(ev.recv)
        v = uncast(ev.args[1])
        ok = v[0] == 'call' and v[1] == 'counter.adjust_count_signed' and strip(X) == COUNTERS
        if ok:
            bv = bin_value(v[2][0]) if v[2][0][0] != 'hv' else (COUNTERS, k, i)
            ok = bool(bv) and strip(bv[0]) == COUNTERS and bv[1] == k and same_index(bv[2], i) and v[2][1] == MOD
        rep.ob('C08.tally', 'adjustment', ok, 'tally bins set to %s' % show(v), ev.loc())
        rep.ob('C08.cover', 'adjustment', whole(ev.loops, COUNTERS), 'the signed adjustment does not run over all counters and bins', ev.loc())
    for s, c in res:
        if c[0] == 'ret' and not (is_const(c[1]) and not c[1][2]):
            sums = [l for l in s.trace if isinstance(l, tuple) and l[0] == 'sum']
            ok = len(sums) == 1 and strip(sums[0][1]) == ('elem', ('sym', f.params[1])) and s.trace.count('signed') == 1 and \
                'sum failed' not in s.trace and 'sum ok' in s.trace and s.trace.index(sums[0]) < s.trace.index('signed')
            rep.ob('C08.tally', 'tally_counters', ok, 'success after %s' % (s.trace,), f.loc())

    # ---- increment
    f = p.method(SC, 'increment')
    st = []
    eng = sc_engine(p, (), lambda ev: st.append(ev) if is_bin_store(ev) else None)
    eng.run(f)
    steps += eng.steps
    inc = ('sym', 'inc') if 'inc' in f.params else ('sym', f.params[-1])
    for ev in st:
        d = addend(ev.args[1], ev.recv)
        ok = d is not None and d == {inc: 1} and reduced(ev.args[1], MOD)
        X, k, i = struct_of(ev.recv)
        rep.ob('C08.increment', 'value', ok and strip(X) == COUNTERS and k == ('sym', f.params[1]), 'bin set to %s' % show(ev.args[1]), ev.loc())

    # ---- initial zeroes
    f = p.method(SC, '__init__')
    lab = []

    def on_call(ev):
        if ev.kind == 'call' and ev.name == '.append' and struct_of(ev.recv):
            lab.append(ev)
            return ('zero', struct_of(ev.recv)[0])
        if is_bin_store(ev):
            lab.append(ev)
            return ('zero', struct_of(ev.recv)[0])
        if ev.kind == 'setattr' and ev.name == '.zero_counters=':
            return ('keep', ev.value)
        if ev.kind == 'setattr' and ev.name == '.counters=':
            return ('own', ev.value)
    eng = sc_engine(p, (), on_call)
    res = eng.run(f)
    for ev in lab:
        rep.ob('C08.init', 'zero', uncast(ev.args[-1]) == C(0), 'bins start from %s' % show(ev.args[-1]), ev.loc())
    for s, c in res:
        if c[0] != 'ret':
            continue
        own = [l for l in s.trace if l[0] == 'own']
        z = [l for l in s.trace if l[0] == 'zero']
        kp = [l for l in s.trace if l[0] == 'keep']
        ok = len(own) == 1 and own[0][1][0] == 'copy' and len(z) == 1 and z[0][1] == own[0][1] and len(kp) == 1 and \
            kp[0][1][0] == 'copy' and kp[0][1] != own[0][1] and s.trace.index(z[0]) < s.trace.index(kp[0]) and strip(kp[0][1]) == strip(own[0][1])
        rep.ob('C08.init', '__init__', ok, 'counters/zero copy built as %s' % [(l[0], show(l[1])) for l in own + z + kp], f.loc())
        m = s.heap.get((('self', 'SecureCounters'), 'modulus'))
        rep.ob('C08.init', 'modulus', m is not None and uncast(m) == ('sym', f.params[2]), 'modulus stored as %s' % (m and show(m)), f.loc())

    # ---- one modulus
    def from_modulus(f, e, depth=0):
        if isinstance(e, ast.Call):
            k, t = p.callee(e.func, f)
            return k == 'func' and t.qual.endswith('.counter_modulus')
        if isinstance(e, ast.Name):
            if e.id in f.params and depth < 3:
                idx = f.params.index(e.id)
                sites = []
                for g in p.funcs.values():
                    for n, k, t in p.calls(g):
                        tgt = t if k == 'func' else p.method(t, '__init__') if k == 'class' else None
                        if tgt is f:
                            off = 1 if f.cls and not f.static and k == 'class' or (f.cls and isinstance(n.func, ast.Attribute)) else 0
                            a = [kw.value for kw in n.keywords if kw.arg == e.id]
                            if not a and idx - off < len(n.args):
                                a = [n.args[idx - off]]
                            sites.append(bool(a) and from_modulus(g, a[0], depth + 1))
                return bool(sites) and all(sites)
            asg = [n.value for n in ast.walk(f.node) if isinstance(n, ast.Assign) and any(isinstance(x, ast.Name) and x.id == e.id for x in n.targets)]
            return bool(asg) and all(from_modulus(f, a, depth + 1) for a in asg)
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == 'self' and f.cls and depth < 3:
            ws = [(g, v) for g, n, v in attr_stores(p, e.attr) if g.cls is f.cls]
            return bool(ws) and all(v is not None and from_modulus(g, v, depth + 1) for g, v in ws)
        return False
    for f, n, k, t in calls_in(p, lambda k, t, n: k == 'class' and t is SC):
        a = n.args[1] if len(n.args) > 1 else next((kw.value for kw in n.keywords if kw.arg == 'modulus'), None)
        rep.ob('C08.modulus', sq(f), a is not None and from_modulus(f, a), 'counters built with another modulus', f.loc(n))
    cm = p.fn('counter.counter_modulus')
    eng = Engine(p, inline=lambda g: g.mod is cm.mod)
    r = {c[1] for s, c in eng.run(cm) if c[0] == 'ret'}
    rep.ob('C08.modulus', 'counter_modulus', len(r) == 1 and is_num(list(r)[0]) and list(r)[0][2] >= 2 ** 64, 'modulus is %s' % [show(x) for x in r], cm.loc())

    # ---- ownership
    n = 0
    for f in p.funcs.values():
        for x in ast.walk(f.node):
            if isinstance(x, ast.Attribute) and x.attr in ('counters', 'zero_counters') and isinstance(x.value, ast.Attribute) and \
                    x.value.attr in ('secure_counters', 'keystore'):
                n += 1
                rep.ob('C08.owner', sq(f), False, 'reaches into the counters of the counter object', f.loc(x))
    rep.ob('C08.owner', 'package', n == 0, '', '')
    rep.count('statements interpreted', steps)
