"""C22: taint analysis (pcheck/taint.py) of every line that a peer can send, to the calls that would run, import, unpickle or open it."""
from ..util import *
from .. import taint
from ..taint import Taint, NIL

MODS = ('protocol', 'crypto', 'node', 'data_collector', 'share_keeper', 'tally_server', 'counter', 'connection', 'config', 'log', 'util', 'tagged_event', 'statistics_noise', 'traffic_model', 'match')
ENTRY = ('lineReceived', 'lineLengthExceeded', 'dataReceived', 'rawDataReceived')
RUN = {'eval', 'exec', 'execfile', 'compile', '__import__', 'input', 'apply'}
RUNMOD = ('pickle', 'cPickle', 'marshal', 'shelve', 'yaml', 'subprocess', 'commands', 'imp', 'importlib', 'popen2', 'code', 'shutil', 'tempfile', 'ctypes')
OSMOD = ('os', 'os.path', 'path', 'sys', 'glob', 'fcntl')
PURE = {'join', 'basename', 'dirname', 'normpath', 'abspath', 'expanduser', 'expandvars', 'split', 'splitext', 'isabs', 'normalise_path', 'urandom', 'getpid', 'strerror', 'exit', '_exit'}
FILES = {'open', 'file', 'unlink', 'remove', 'rename', 'symlink', 'mkdir', 'rmdir', 'makedirs'}
NAMES = {'getattr', 'setattr', 'delattr', 'hasattr', 'vars', 'globals', 'locals'}


def check(p, rep):
    rep.rule('C22.source', 'every protocol receives its lines', 1)
    rep.rule('C22.run', 'nothing received is run, imported or unpickled, or names a file or attribute', 14)
    found, sinks, reads = {}, {}, {}

    class Lines(Taint):
        def param_source(self, f, c, n):
            if f.name in ENTRY and f.cls is not None and n != f.params[0]:
                found[sq(f)] = f.loc()
                return frozenset({((), ('line', (c or f.cls).name))})
            return NIL

    def sink(node, f, c, name, ts, recv):
        last, first = name.split('.')[-1], name.split('.')[0]
        kind = None
        if name in RUN or first in RUNMOD and '.' in name:
            kind = 'is run, loaded or unpickled'
        elif name in ('open', 'file', 'io.open', 'codecs.open') or '.'.join(name.split('.')[:-1]) in OSMOD and last not in PURE:
            kind = 'names a file'
        elif name in NAMES:
            kind, ts = 'names an attribute', ts[1:2]
        elif last == 'format' and isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and not isinstance(node.func.value, ast.Constant):
            kind, ts = 'is a template', [recv]
        if kind is None:
            return
        if name == 'open' and isinstance(node, ast.Call):
            reads[f.loc(node)] = len(node.args) == 1 or len(node.args) == 2 and isinstance(node.args[1], ast.Constant) and node.args[1].value in ('r', 'rb')
        d = sinks.setdefault((sq(f), f.loc(node), kind, name), set())
        for t in ts:
            d.update(l[:2] for path, l in t)
    an = Lines(p, lambda *a: None, lambda *a: False, sink, None, {'privcount.' + m for m in MODS})
    rep.count('rounds to the fixpoint', an.run())
    rep.count('functions followed', len(an.seen))
    for k, loc in sorted(found.items()):
        rep.ob('C22.source', k, True, '', loc)
    if not found:
        raise AnalysisBroken('no protocol receives lines')
    for (fn, loc, kind, name), d in sorted(sinks.items()):
        if kind == 'names a file' and reads.get(loc):
            # tor says where its authentication cookie is
            d = {l for l in d if l[1] != 'TorControlClientProtocol'}
        rep.ob('C22.run', '%s %s %s' % (fn, loc, name), not d, d and 'what %s receives %s' % (sorted(d)[0][1], kind) or '', loc)
