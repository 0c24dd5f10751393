"""C32: for every counter of the table, the exact condition under which the event handlers increment it
(all paths, helpers inlined, counter names folded to constants) is compared, as a boolean function of the
observation's fields, with what the words in its name say."""
from ..meaning import *
from ..counting import *
from .. import fields


def increments(p):
    """{(event, name): [(Inc, condition, bad)]} and [(Inc)] with names that are not constant"""
    c = counting(p)
    if not hasattr(c, 'by'):
        nm = Norm(ports_ok(p, c))
        c.norm, c.by, c.odd = nm, {}, []
        for key, (ga, incs, fn) in c.runs.items():
            for i in incs:
                ev = TIMER if key == 'timer' else event_of(i.g)
                g, bad = nm.guard(i.g)
                if g is None:
                    continue
                i.args = {k: nm.term(v) for k, v in i.args.items()}
                if not is_str(i.name):
                    c.odd.append((ev, i))
                    continue
                c.by.setdefault((ev, i.name[2]), []).append((i, g, bad))
    return c


def ports_ok(p, c):
    """the peer-to-peer ports, evaluated"""
    f = [f for f in p.funcs.values() if f.cls is c.cl and role(p, f) == 'p2p_ports']
    if not f:
        return None
    ga = Guarded(p, c.cl)
    res = ga.run(f[0], {})
    vals = [t for _, t in res if t[0] == 'tupv'] + [e[5] for e in ga.effects if e[1] == 'store' and e[5][0] == 'tupv']
    out = set()
    for t in vals:
        s = set()
        for v in ga.items(t):
            if len(v) == 1 and v[0][1][0] == 'c':
                s.add(v[0][1][2])
            else:
                return None
        out.add(frozenset(s))
    c.p2p = (f[0], out.pop() if len(out) == 1 else None)
    return c.p2p[1] == P2P_PORTS


def check(p, rep):
    rep.rule('condition', 'a counter is incremented by its event exactly under the condition its name states: the union of the conditions of all calls is equivalent to it', 1328)
    rep.rule('context', 'no counter is incremented for an event whose fields were not valid, or without counters', 1328)
    rep.rule('ports', 'the ports of the Web, Interactive and P2P classes are the documented ones and disjoint', 1)
    rep.rule('unknown', 'every call of increment in the event handlers names a constant counter', 1)
    rep.rule('value', 'what is read from a tagged field is the value its text stands for, or the default if it is absent', 5)
    fields.values(p, rep, 'value')
    c = increments(p)
    tab, dup = table(p)
    if hasattr(c, 'p2p'):
        got = c.p2p[1]
        rep.ob('ports', 'p2p', got == P2P_PORTS, 'the peer-to-peer ports are %s' % ('not determined' if got is None else 'wrong: %s' % sorted(got ^ P2P_PORTS)[:12]), c.p2p[0].loc(c.p2p[0].node))
    rep.ob('unknown', 'names', not c.odd, 'a counter whose name is not determined is incremented: %s' % [show(i.name)[:80] for _, i in c.odd[:3]], c.odd[0][1].loc if c.odd else '')
    for n in sorted(tab):
        m = meaning(n, tab[n])
        if m is None:
            continue
        ev, f, _ = m
        recs = c.by.get((ev, n), [])
        loc = recs[0][0].loc if recs else 'privcount/data_collector.py'
        gs = [g for _, g, _ in recs]
        atoms = set(atoms_of(f)).union(*[set(g) for g in gs]) if gs else set(atoms_of(f))
        t = Table(atoms, CAN[ev])
        have, want = t.union(gs), t.formula(f)
        ok = have == want
        msg = ''
        if not ok:
            extra, miss = have & ~want, want & ~have
            if extra:
                row = t.example(extra)
                r = [r for r in recs if t.set(r[1]) & extra][0]
                loc = r[0].loc
                msg = '%s is incremented when %s, which is not what its name says' % (n, show_g({a: v for a, v in row.items() if a in r[1] or a in atoms_of(f)}))
            else:
                msg = '%s is not incremented when %s' % (n, show_g({a: v for a, v in t.example(miss).items()}))
        rep.ob('condition', n, ok, msg, loc)
        bad = [(r, b) for r, g, b in recs if b]
        rep.ob('context', n, not bad, '%s is incremented although %s' % (n, bad and bad[0][1][0]), bad[0][0].loc if bad else loc)
