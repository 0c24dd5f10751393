"""C04: taint analysis of every secret of the program (see pcheck/taint.py): the contents of secret files, generated and
decrypted keys, and blinding shares; every log, exception, file write and line sent is a sink."""
from ..util import *
from ..taint import Taint, NIL, flat

MODS = ('protocol', 'crypto', 'node', 'data_collector', 'share_keeper', 'tally_server', 'counter', 'connection', 'config', 'log', 'inject', 'util', 'tagged_event', 'statistics_noise', 'traffic_model')
KINDS = {'handshake': 'the shared handshake secret', 'key': 'a private key', 'symmetric': 'a symmetric key', 'share': 'a blinding share', 'tor': 'the tor password or cookie'}
TOR = 'TorControlProtocol'
# a value that these make of a secret does not reveal it: that these primitives hide it is assumed
HIDE = {'HMAC', 'encrypt', 'public_key', 'DigestHash', 'sha256', 'hexdigest', 'digest', 'finalize', 'sign', 'load_pem_public_key'}


def label(kind, fn, node):
    return frozenset({((), (kind, '%s:%d' % (fn.loc().split(':')[0], getattr(node, 'lineno', 0))))})


def check(p, rep):
    rep.rule('C04.source', 'every secret has a source in the program', 1)
    rep.rule('C04.log', 'no secret is logged or raised', 109)
    rep.rule('C04.send', 'no secret is sent, except the tor password to tor', 20)
    rep.rule('C04.file', 'no secret is written to a file but the one it is generated for', 2)
    srcs = {}
    sinks = {}

    def source(e, f, c, name, args, recv):
        m, last = f.mod.name.split('.')[-1], name.split('.')[-1]
        k = None
        if last in ('read', 'readline', 'readlines') and m in ('crypto', 'protocol'):
            k = 'key' if m == 'crypto' else 'tor' if f.cls is not None and c is not None and any(x.name == TOR for x in p.mro(c)) else 'handshake'
        elif last in ('generate_private_key', 'load_pem_private_key', 'private_bytes'):
            k = 'key'
        elif last == 'generate_key':
            k = 'symmetric'
        elif last == 'urandom' and e.args and 'SECRET' in ast.dump(e.args[0]):
            k = 'handshake'
        elif last == 'urandom' and e.args and 'SAFECOOKIE' in ast.dump(e.args[0]) and f.name.endswith('CookieFile'):
            k = 'tor'
        elif last == 'decrypt' and m == 'crypto' and isinstance(e.func, ast.Attribute):
            k = 'share'
        elif last == 'sample' and m == 'counter' and isinstance(e.func, ast.Name):
            k = 'share'
        if k is None:
            return None
        srcs.setdefault(k, set()).add((sq(f), f.loc(e)))
        return label(k, f, e)

    def attr_source(cls, name):
        return NIL

    def clean(e, f, c, name):
        last = name.split('.')[-1]
        return last in HIDE and (last != 'encrypt' or isinstance(e.func, ast.Attribute))

    def sink(node, f, c, name, ts, recv):
        last = name.split('.')[-1]
        kind = None
        if name == 'raise' or name.startswith('logging.') or name.startswith('log.') or name in ('print', 'log_error') or name.startswith('warnings.') \
                or name in ('sys.stdout.write', 'sys.stderr.write', 'sys.exit', 'exit'):
            kind = 'log'
        elif last in ('sendLine', 'sendMessage', 'loseConnection', 'abortConnection') or name.endswith('transport.write') or last in ('send', 'sendall', 'writeSequence'):
            kind = 'send'
        elif last in ('write', 'writelines') or last == 'dump' and name.split('.')[0] in ('json', 'pickle', 'yaml') or name in ('os.write', 'write_json_file') or last == 'write_json_file':
            kind = 'file'
        if kind is None:
            return
        if name == 'print' and isinstance(node, ast.Call) and any(k.arg == 'file' for k in node.keywords):
            kind = 'file'
        d = sinks.setdefault((kind, sq(f), f.loc(node)), {})
        for t in ts:
            for path, l in t:
                d.setdefault(l, (f, c, name))
    an = Taint(p, source, clean, sink, attr_source, {'privcount.' + m for m in MODS})
    rounds = an.run()
    rep.assumption('HMAC, SHA-256, Fernet and RSA encryption, signatures and public keys do not reveal the secrets they are made from')
    rep.assumption('a blinded counter value, reduced by the modulus, does not reveal the blinding shares added to it (C07 to C09)')
    rep.count('rounds to the fixpoint', rounds)
    rep.count('functions followed', len(an.seen))
    for k, what in sorted(KINDS.items()):
        rep.ob('C04.source', k, bool(srcs.get(k)), 'no source of %s found' % what)
        if not srcs.get(k):
            raise AnalysisBroken('no source of %s found' % what)
    gen = {fn for k in srcs for fn, loc in srcs[k]}
    for (kind, fn, loc), d in sorted(sinks.items()):
        bad = {}
        for l, (f, c, name) in d.items():
            if kind == 'send' and l[0] == 'tor' and c is not None and any(x.name == TOR for x in p.mro(c)):
                continue
            if kind == 'file' and own_file(p, f, l, srcs):
                continue
            bad[l] = f
        rep.ob('C04.' + kind, '%s %s' % (fn, loc), not bad, bad and '%s shows %s (from %s)' % (
            {'log': 'a message', 'send': 'a line sent', 'file': 'a file'}[kind], KINDS[sorted(bad)[0][0]], sorted(bad)[0][1]) or '', loc)


def own_file(p, f, l, srcs):
    """the function writes the secret it generates, to the path it is given"""
    mine = {fn for fn, loc in srcs[l[0]]}
    if sq(f) in mine and l[0] in ('key', 'tor'):
        return True
    if l[0] == 'handshake':
        return any(isinstance(n, ast.Call) and isinstance(n.func, (ast.Attribute, ast.Name)) and (getattr(n.func, 'attr', None) or getattr(n.func, 'id', '')).endswith('secret_generate') for n in ast.walk(f.node))
    return False
