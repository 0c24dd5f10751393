"""C23: taint analysis (pcheck/taint.py) of what the clients and the tally server's own config bring into the files of results."""
from ..util import *
from .. import taint
from ..taint import Taint, NIL

MODS = ('protocol', 'crypto', 'node', 'tally_server', 'counter', 'config', 'traffic_model', 'util')
TYPES = ('DataCollector', 'ShareKeeper')
# what a client answers or reports, by the keys that lead to it (see PrivCountNode._do_stop)
CLIENT = {
    ('Counts',): ('the blinded counts of one client', TYPES),
    ('Config', 'state'): ('the path of a state file', TYPES),
    ('Config', 'secret_handshake'): ('the path of the shared secret', TYPES),
    ('Config', 'key'): ('the path of a private key', ('ShareKeeper',)),
    ('Config', 'Start', 'sharekeepers', '*'): ('the public keys of the share keepers', ('DataCollector',)),
}
OWN = {'cert': 'the path of the certificate', 'key': 'the path of the private key', 'state': 'the path of the state file', 'secret_handshake': 'the path of the shared secret',
       'allocation': 'the path of the noise allocation', 'results': 'the path of the results'}


def check(p, rep):
    rep.rule('C23.source', 'what clients send and what the tally server has reaches the context of the results', 1)
    rep.rule('C23.file', 'a file of results holds no private part of a config or status, and no counts of a single client', 1)
    rep.assumption('a client reports its own type, and the context groups clients by it')
    rep.assumption('a sum of the counts of all clients, reduced by the modulus, shows the counts of no client (C06, C07)')
    taint.DEPTH, taint.HOMES = 7, TYPES
    client = frozenset((path, (what, t)) for path, (what, ts) in CLIENT.items() for t in ts)
    own = frozenset(((k,), (what, 'TallyServer')) for k, what in OWN.items())
    srcs, sinks = set(), {}

    def source(e, f, c, name, args, recv):
        if name.split('.')[-1] in ('loads', 'load') and name.split('.')[0] == 'json' and f.mod.name.endswith('protocol') and f.cls is not None and 'Server' in (c or f.cls).name:
            srcs.add('client')
            return client
        if name.split('.')[-1] in ('loads', 'load') and name.split('.')[0] in ('json', 'yaml'):
            return NIL

    def attr_source(cls, name):
        if name == 'config' and cls is not None and cls.name == 'TallyServer':
            srcs.add('own')
            return own
        if name == 'clients' and cls is not None and cls.name == 'TallyServer':
            return frozenset({(('*', 'public_key'), ('the public key of a share keeper', 'ShareKeeper'))})
        return NIL

    def sink(node, f, c, name, ts, recv):
        last = name.split('.')[-1]
        if (c is None or c.name == 'CollectionPhase') and (last in ('write', 'writelines') and not name.startswith('transport') or last == 'dump' and name.split('.')[0] in ('json', 'pickle', 'yaml')):
            d = sinks.setdefault((sq(f), f.loc(node)), set())
            for t in ts[:1]:
                d.update(l for path, l in t)
    an = Taint(p, source, lambda e, f, c, name: False, sink, attr_source, {'privcount.' + m for m in MODS})
    an.fixed.update({('TallyServer', 'config'), ('TallyServer', 'clients')})
    rep.count('rounds to the fixpoint', an.run())
    rep.count('functions followed', len(an.seen))
    reached = {l[0] for (c, a), t in an.attrs.items() if c == 'CollectionPhase' for path, l in t}
    rep.ob('C23.source', 'client', 'client' in srcs and 'the path of a state file' in reached and 'the blinded counts of one client' in reached, 'what clients send does not reach the results')
    rep.ob('C23.source', 'own', 'own' in srcs and 'the path of the certificate' in reached, 'the config of the tally server does not reach the results')
    if not sinks:
        raise AnalysisBroken('no file of results is written')
    if not {'client', 'own'} <= srcs:
        raise AnalysisBroken('the sources of the context were not found')
    for (fn, loc), d in sorted(sinks.items()):
        bad = sorted(d)
        rep.ob('C23.file', '%s %s' % (fn, loc), not bad, bad and 'a file shows %s (%s)' % bad[0] or '', loc)
