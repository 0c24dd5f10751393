"""C25: every path of the three refresh_config methods, with the file read as a term and the
current configuration as heap state: what is stored, after which checks, and whether anything can
fail between the first store and the last.  Then the places that use a configuration, for what they
call before and after reading it."""
from ..util import *
from .c29 import KNOWN

ROLES = (('DataCollector', 'data_collector'), ('ShareKeeper', 'share_keeper'), ('TallyServer', 'tally_server'))
MUTATORS = {'update', 'setdefault', 'pop', 'popitem', 'clear', '__setitem__', '__delitem__'}
QUIET = {'str', 'repr', 'len', 'bool', 'set', 'list', 'dict', 'tuple', 'sorted', 'time.time', 'isinstance', 'type', 'any', 'all', 'zip', 'enumerate', 'range', 'xrange'}
QUIETM = {'get', 'format', 'keys', 'items', 'values', 'iteritems', 'iterkeys', 'itervalues', 'setdefault', 'copy', 'update', 'join', 'append', 'add', 'strip', 'has_key',
          'difference', 'intersection', 'union'}
DERIVED = {'start_after_time', 'as_data', 'noise', 'counters'}    # computed from the file, or from other files it names (C14, C30)


def quiet(p, q, seen=()):
    """can the function never fail: it only logs and looks up with a default"""
    f = next((f for f in p.funcs.values() if sq(f) == q or f.qual == q), None)
    if f is None or q in seen:
        return False
    for n in ast.walk(f.node):
        if isinstance(n, (ast.Raise, ast.Subscript, ast.Assert)):
            return False
    for nd, k, t in p.calls(f):
        if k == 'func' and not quiet(p, t.qual, seen + (q, f.qual)):
            return False
        if k == 'ext' and not (t.startswith('logging.') or t in QUIET):
            return False
    return True


class Config(Engine):
    """notes what may fail, with the configuration already changed or about to be"""
    def __init__(self, p, conf, **k):
        Engine.__init__(self, p, **k)
        self.conf, self.fails = conf, []

    def may_raise(self, st, name):
        n = name.split('.')[-1]
        if name.startswith('logging.') or name in QUIET or name.startswith('.') and n in QUIETM or name == 'arith':
            return
        if name not in self.__dict__.setdefault('_quiet', {}):
            self._quiet[name] = quiet(self.p, name)
        if self._quiet[name]:
            return
        if not self.muted:
            self.fails.append((st.loops, any(x[0] == 'W' for x in st.trace), name, self.fn))
        Engine.may_raise(self, st, name)

    def e_Subscript(self, e, st):
        out = []
        for s, b in self.ev(e.value, st):
            for s2, k in self.ev_slice(e.slice, s):
                if b[0] not in ('tuple', 'c', 'obj') and not self.present(s2, strip(b), strip(k)):
                    self.may_raise(s2, 'subscript')
                out.append((s2, self.item(b, k, s2)))
        return out

    def present(self, st, b, k):
        if (b, '[]', k) in st.heap or k == ('elem', b) or k[0] == 'elem' and k[1] == b:
            return True
        return any(a == ('cmp', 'in', k, b) and v for a, v in st.facts.items())


def check(p, rep):
    rep.rule('C25.file', 'what a node works to is its own section of the file that it just read', 1)
    rep.rule('C25.whole', 'every setting of the file that is new or differs is taken, and nothing can fail half way', 2)
    rep.rule('C25.refused', 'a file that fails any check, or cannot be read, changes nothing', 6)
    rep.rule('C25.kept', 'no setting of the file is overwritten by anything but a form of itself', 3)
    rep.rule('C25.filter', 'exactly the counters accepted and not rejected by name are kept, with bins and noise alike', 1)
    rep.rule('C25.fresh', 'a node reads its file before each use of it: when it starts, checks in or looks at its round', 2)
    rep.rule('C25.owner', 'only reading the file changes the configuration', 1)
    for role, section in ROLES:
        one(p, rep, role, section)
        use(p, rep, role)
    filters(p, rep)
    rep.assumption('counters, bins, noise weights and their sigmas are decided by C14, the delay period and its tolerance by C11, the lists of names and addresses by C30')
    rep.assumption('logging, str, len and dictionary methods with a default cannot fail; an exception that no handler of refresh_config names ends the node (C35)')


def one(p, rep, role, section):
    cls = p.cls(role)
    f = p.method(cls, 'refresh_config')
    if f is None:
        raise AnalysisBroken('anchor vanished: %s.refresh_config' % role)
    SELF = ('self', role)
    CONF = ('attr', SELF, 'config')
    writes, sets, asserts = [], [], []
    V = []

    def isconf(t):
        t = strip(t)
        return t == CONF or t[0] == 'hv' and t[1:3] == (SELF, 'config')

    def oc(ev):
        r = strip(ev.recv) if ev.recv is not None else None
        if ev.kind == 'setattr' and ev.name == '.config=' and r == SELF:
            writes.append(ev)
            return ('W', 'all', strip(ev.args[0]))
        if r is not None and isconf(r):
            m = ev.name.split('.')[-1]
            if ev.kind == 'setitem':
                writes.append(ev)
                return ('W', 'one', strip(ev.args[0]), strip(ev.args[1]))
            if ev.kind == 'delitem' or ev.kind == 'call' and m in MUTATORS:
                writes.append(ev)
                if m == 'update' and len(ev.args) == 1 and not ev.kwargs:
                    return ('W', 'upd', strip(ev.args[0]))
                return ('W', 'del')
        if ev.kind == 'handler':
            return ('H', ev.loc())
        if ev.kind == 'assertfail':
            asserts.append(ev)
        if ev.kind == 'setitem' and file_of(r, section) is not None:
            sets.append(ev)
    iters = []

    def oi(ends, it, elemv, lid, poss, n, fn):
        brks, rest = eng.loop_left
        iters.append((list(ends), it, elemv, lid, list(brks) + [s for s, c in rest], fn))
    own = lambda g: g.cls is not None and g.cls in p.mro(cls) and sq(g) not in KNOWN
    lists = {}      # a list of settings -> the settings that it leaves out

    def ocomp(v, dropped, fn):
        lists.setdefault(strip(v), []).append((list(dropped), fn))
    eng = Config(p, CONF, inline=own, on_call=oc, on_iter=oi, zero_iter=False, strict_cmp=True, mark_loops=True, cap=4000, assert_inline=False)
    eng.on_comp = ocomp
    big = role == 'TallyServer'
    if big:     # the checks of a tally server are many: follow failures of single calls only after a change
        eng.may_raise_all = Engine.may_raise
        eng.raisers = lambda n: False
    res = eng.run(f, selfcls=role)
    if not writes:
        raise AnalysisBroken('%s.refresh_config adopts no configuration' % role)
    rep.count('%s: paths of refresh_config' % role, len(res))
    rep.count('%s: changes of the configuration' % role, len(writes))

    # ---- what is taken
    for ev in writes:
        if any(x[0] == 'H' for x in ev.st.trace):
            rep.ob('C25.refused', role + ' handler', False, 'the configuration is changed although the file was refused', ev.loc())
            continue
        if ev.kind == 'setattr':
            v = strip(ev.args[0])
            ok = file_of(v, section) is not None
            rep.ob('C25.file', role + ' all', ok, 'the configuration becomes %s' % show(v)[:100], ev.loc())
            if ok:
                V.append(v)
        elif ev.kind == 'setitem':
            k, v = strip(ev.args[0]), strip(ev.args[1])
            src = strip(k[1]) if k[0] == 'elem' else None
            src = base_map(src)
            ok = src is not None and file_of(src, section) is not None and value_of(v, src, k)
            rep.ob('C25.file', role + ' one', ok, 'setting %s becomes %s' % (show(k)[:60], show(v)[:100]), ev.loc())
            if ok:
                V.append(src)
        elif ev.name.split('.')[-1] == 'update':
            v = strip(ev.args[0]) if ev.args else NONE
            rep.ob('C25.file', role + ' update', file_of(v, section) is not None, 'the configuration is updated with %s' % show(v)[:100], ev.loc())
            V.append(v)
        else:
            rep.ob('C25.file', role + ' ' + ev.name, False, 'the configuration is changed by %s' % ev.name, ev.loc())

    # ---- all of it
    whole = set()       # loops that leave no difference
    for ends, it, elemv, lid, left, fn in iters:
        it = strip(it) if it is not None else None
        out = []
        if it is not None and it[0] == 'comp' and it in lists and strip(it[2]) == ('elem', base_map(strip(it[3]))):
            out = [s for dropped, g in lists[it] for s in dropped]
            whole_as = it
            it = strip(it[3])
        else:
            whole_as = None
        src = base_map(it) if it is not None else None
        if src is None or file_of(src, section) is None:
            continue
        k = ('elem', src)
        if not any(ev.kind == 'setitem' and isconf(ev.recv) and strip(ev.args[0])[0] == 'elem' for ev in writes):
            continue
        good = bool(ends) and not left
        for s in ends + out:
            stored = s not in out and any(x[0] == 'W' and x[1] == 'one' and base_map(strip(x[2][1])) == src for x in s.trace if len(x) > 2 and x[2][0] == 'elem')
            same = any(a[0] == 'cmp' and a[1] == 'eq' and v and side(a[2], a[3], src, isconf) for a, v in s.facts.items())
            known = any(a[0] == 'cmp' and a[1] == 'in' and v and base_key(a[2], src) and isconf(a[3]) for a, v in s.facts.items())
            if not stored and not (same and known) and not same_get(s.facts, src, isconf):
                good = False
        if good:
            whole.add(strip(src))
            whole.add(whole_as)
        rep.ob('C25.whole', role + ' loop', good, 'a setting of the file that is new or differs may not be taken', fn.loc())
    some = False
    for s, c in res:
        if c[0] != 'ret' or any(x[0] == 'H' for x in s.trace):
            continue
        some = True
        ok = any(x[0] == 'W' and x[1] in ('all', 'upd') for x in s.trace) or any(x[0] == 'loop' and (base_map(strip(x[1])) in whole or x[1] in whole) for x in s.trace)
        rep.ob('C25.whole', role + ' taken', ok, 'a path ends well and does not take the file', f.loc())
    if not some:
        raise AnalysisBroken('%s.refresh_config never succeeds' % role)
    # nothing fails between the first change and the last
    wl = {l[1] for ev in writes for l in ev.st.loops}
    for loops, after, name, fn in eng.fails:
        inl = any(l[1] in wl for l in loops)
        if after or inl:
            rep.ob('C25.whole', role + ' half', False, 'part of a file is taken if %s fails in %s' % ('a look-up' if name == 'subscript' else name, sq(fn)), fn.loc())
    for ev in asserts:
        after = any(x[0] == 'W' for x in ev.st.trace) or any(l[1] in wl for l in ev.st.loops)
        rep.ob('C25.whole', role + ' assert', not after, 'a check follows a change of the configuration', ev.loc())
    for s, c in res:
        if any(x[0] == 'W' for x in s.trace):
            rep.ob('C25.whole', role + ' ends', c[0] == 'ret' and not any(x[0] == 'H' for x in s.trace), 'the configuration is changed and then refused', f.loc())

    # ---- after which checks
    for ev in writes:
        if ev.kind == 'delitem' or sum(x[0] == 'W' for x in ev.st.trace) > 1:
            continue
        v = V[0] if V else None
        if v is None:
            continue
        h = ev.st.heap
        cur = lambda k: strip(h.get((v, '[]', C(k)), ('idx', v, C(k))))
        F = ev.facts
        for name, ok in needs(role, F, v, cur):
            rep.ob('C25.refused', '%s %s' % (role, name), ok, 'a configuration is taken whose %s may be wrong' % name, ev.loc())

    # ---- and unchanged
    for ev in sets:
        v, k, x = strip(ev.recv), strip(ev.args[0]), strip(ev.args[1])
        if not is_const(k):
            rep.ob('C25.kept', role + ' key', False, 'an unknown setting %s is overwritten' % show(k)[:60], ev.loc())
            continue
        rep.ob('C25.kept', '%s %s' % (role, k[2]), kept(role, v, k, x, ev), 'the setting %s becomes %s' % (k[2], show(x)[:80]), ev.loc())


def base_map(t):
    while t is not None and isinstance(t, tuple):
        if t[0] == 'mcall' and t[2] in ('keys', 'items', 'iteritems', 'iterkeys'):
            t = strip(t[1])
        elif t[0] == 'call' and t[1] in ('set', 'list', 'sorted', 'tuple', 'iter') and len(t[2]) == 1:
            t = strip(t[2][0])
        elif t[0] == 'copy':
            t = strip(t[1])
        else:
            break
    return t


def base_key(k, src):
    k = strip(k)
    return k[0] == 'elem' and base_map(strip(k[1])) == src


def value_of(v, src, k):
    return v[0] == 'idx' and base_map(strip(v[1])) == src and (v[2] == k or base_key(v[2], src)) or \
        v[0] == 'mcall' and v[2] == 'get' and strip(v[1]) == src and base_key(v[3][0], src)


def side(a, b, src, isconf):
    a, b = strip(a), strip(b)
    for x, y in ((a, b), (b, a)):
        if value_of(x, src, x[2] if x[0] == 'idx' else None) and y[0] == 'idx' and isconf(y[1]) and base_key(y[2], src):
            return True
    return False


def same_get(facts, src, isconf):
    """V[k] == config.get(k), and V[k] is not what get gives for an absent key"""
    eq = nn = False
    for a, v in facts.items():
        if a[0] == 'cmp' and a[1] == 'eq' and v:
            for x, y in ((a[2], a[3]), (a[3], a[2])):
                x, y = strip(x), strip(y)
                if x[0] == 'idx' and strip(x[1]) == src and y[0] == 'mcall' and y[2] == 'get' and isconf(y[1]) and base_key(y[3][0], src):
                    eq = True
        if a[0] == 'isnone' and v is False and strip(a[1])[0] in ('idx', 'mcall'):
            nn = True
    return eq and nn


def file_of(t, section):
    """is t the section of what was read from the configured path: the whole file, else None"""
    if t is None:
        return None
    t = strip(t)
    if t[0] == 'idx' and strip(t[2]) == C(section):
        y = strip(t[1])
        if y[0] == 'call' and y[1].startswith('yaml.') and y[2]:
            src = strip(y[2][0])
            if src[0] in ('mcall',) and src[2] == 'read':
                src = strip(src[1])
            if src[0] == 'call' and src[1] in ('open', 'file', 'io.open', 'codecs.open') and strip(src[2][0])[0] in ('attr', 'hv') and strip(src[2][0])[2] == 'config_filepath':
                return y
    return None


def below(F, a, b, strict=True):
    """a < b (a <= b) by the facts"""
    if F.get(('cmp', 'lt', a, b)) is True or F.get(('cmp', 'le', b, a)) is False:
        return True
    if not strict and (F.get(('cmp', 'le', a, b)) is True or F.get(('cmp', 'lt', b, a)) is False):
        return True
    if is_const(b) and not strict or is_const(a):
        for k, v in F.items():      # a tighter bound
            if k[0] == 'cmp' and k[1] in ('lt', 'le') and is_const(a) and not is_const(b):
                lo = k[2] if v else k[3]
                hi = k[3] if v else k[2]
                if hi == b and is_const(lo) and isinstance(lo[2], (int, float)) and isinstance(a[2], (int, float)) and (lo[2] > a[2] or lo[2] == a[2] and (not strict or (k[1] == 'lt') == v)):
                    return True
    return False


def needs(role, F, v, cur):
    """(what, is it known by the facts)"""
    def isbool(k):
        t = cur(k)
        return any(a[0] in ('cmp', 'isinstance', 'truthy') and x and mentions(a, t) and 'isinstance' in repr(a) and 'bool' in repr(a) for a, x in F.items()) or \
            any(a[0] == 'cmp' and a[1] == 'in' and x and a[2] == t and 'True' in repr(a[3]) for a, x in F.items())

    def has(k):
        return any(a == ('cmp', 'in', C(k), v) and x for a, x in F.items())

    def valid(k, ip):
        for a, x in F.items():
            if a[0] == 'truthy' and x and a[1][0] == 'call' and a[1][1].endswith('validate_connection_config') and strip(a[1][2][0]) == cur(k):
                second = strip(a[1][2][1]) if len(a[1][2]) > 1 else dict(a[1][3]).get('must_have_ip', FALSE)
                if not ip or second == TRUE:
                    return True
        return False

    def positive(k):
        return below(F, C(0), cur(k)) or below(F, C(0.0), cur(k)) or below(F, C(1), cur(k), strict=False)
    out = [('always_delay', isbool('always_delay'))]
    if role != 'TallyServer':
        out.append(('tally_server_info', valid('tally_server_info', True)))
    if role == 'DataCollector':
        name = cur('name')
        out.append(('name', F.get(('cmp', 'eq', name, C(''))) is False or F.get(('cmp', 'eq', C(''), name)) is False or F.get(('truthy', name)) is True
                    or any(a[0] == 'cmp' and x and below(F, C(0), a[3]) and a[3][0] == 'call' and a[3][1] == 'len' and a[3][2] == (name,) for a, x in F.items() if a[0] == 'cmp' and isinstance(a[3], tuple))))
        out.append(('event_source', valid('event_source', False)))
        out.append(('share_keepers', has('share_keepers') or any(a[0] == 'truthy' and x and a[1] == cur('share_keepers') for a, x in F.items())))
        out.append(('rotate_period', positive('rotate_period')))
    if role == 'TallyServer':
        for k in ('listen_port', 'sk_threshold', 'dc_threshold', 'collect_period', 'event_period', 'checkin_period'):
            out.append((k, positive(k)))
        r = cur('circuit_sample_rate')
        out.append(('circuit_sample_rate', (below(F, C(0.0), r, False) or below(F, C(0), r, False)) and (below(F, r, C(1.0), False) or below(F, r, C(1), False))))
        out.append(('reject_overlapping_lists', isbool('reject_overlapping_lists')))
        cont = cur('continue')
        out.append(('continue', isbool('continue') or below(F, C(0), cont, False)))
        out.append(('noise_weight', has('noise_weight') or any(a[0] == 'truthy' and x and a[1][0] == 'call' and a[1][1].endswith('check_noise_weight_config') for a, x in F.items())))
        out.append(('results', any(a[0] == 'truthy' and x and a[1][0] == 'call' and a[1][1].split('.')[-1] in ('exists', 'isdir') and strip(a[1][2][0]) == cur('results') for a, x in F.items())))
        coll = cur('collect_period')
        for k in ('event_period', 'checkin_period'):
            half = [x for x in (('bin', 'Div', coll, C(2)), ('bin', 'FloorDiv', coll, C(2)), ('bin', 'Div', coll, C(2.0)), ('bin', 'Mult', C(0.5), coll), ('bin', 'Mult', coll, C(0.5)))]
            out.append((k + ' within the round', any(cur(k) == h or below(F, cur(k), h, False) for h in half)))
    return out


def kept(role, v, k, x, ev):
    F = ev.facts
    key = k[2]
    absent = F.get(('cmp', 'in', k, v)) is False
    if absent or key in DERIVED:
        return True
    for y in subterms(x):
        if y[0] == 'idx' and strip(y[1]) == v and strip(y[2]) == k:
            return True
        if y[0] == 'mcall' and y[2] in ('get', 'pop', 'setdefault') and strip(y[1]) == v and y[3] and strip(y[3][0]) == k:
            return True
        if y[0] == 'call' and any(strip(a) == v for a in y[2]) and (y[1].split('.')[-1] in ('get_valid_delay_period', 'get_valid_sigma_decrease_tolerance') and key in y[1] or
                                                                   y[1].endswith('choose_secret_handshake_path') and key == 'secret_handshake'):
            return True
    old = strip(ev.st.heap.get((v, '[]', k), ('idx', v, k)))
    if key in ('event_period', 'checkin_period') and role == 'TallyServer':
        return below(F, x, ('idx', v, k)) or below(F, x, old)
    if key in ('key', 'cert') and role == 'TallyServer':
        return any(F.get(('cmp', 'in', C(o), v)) is False for o in ('key', 'cert'))
    if key == 'name' and role == 'ShareKeeper':
        return any(y[0] == 'call' and y[1].endswith('get_public_digest') and strip(y[2][0]) == strip(ev.st.heap.get((v, '[]', C('key')), ('idx', v, C('key')))) for y in subterms(x))
    # a truth value of itself
    return x in (TRUE, FALSE) and any(a[0] == 'truthy' and val is (x == TRUE) and a[1] == ('idx', v, k) for a, val in F.items())


def use(p, rep, role):
    cls = p.cls(role)
    SELF = ('self', role)
    only_own(p, rep, 'C25.owner', cls, ['config'], [g for g in (p.method(cls, 'refresh_config'), p.method(p.cls('PrivCountNode'), '__init__')) if g], 'its configuration')
    roots = [m for m in ('run', 'do_checkin', 'refresh_loop') if p.method(cls, m) is not None]
    for m in roots:
        f = p.method(cls, m)
        early = []

        def oc(ev):
            nm = ev.name.split('.')[-1]
            if ev.kind == 'call' and nm in ('refresh_config', 'do_checkin') and nm != m:
                return ('R',)
            if any(x[0] == 'R' for x in ev.st.trace):
                return None
            if ev.kind == 'call' and not ev.name.startswith('logging.'):
                early.append((nm, ev.loc()))
        eng = Engine(p, inline=lambda g: g.cls in p.mro(cls) and sq(g) not in KNOWN, on_call=oc, assert_inline=False, raisers=lambda n: False, zero_iter=False)
        n = 0
        for s, c in eng.run(f, selfcls=role):
            n += 1
            rep.ob('C25.fresh', '%s.%s' % (role, m), any(x[0] == 'R' for x in s.trace), '%s.%s may not read the file' % (role, m), f.loc())
        rep.ob('C25.fresh', '%s.%s first' % (role, m), not early, '%s.%s does %s before it reads the file' % (role, m, early[0][0] if early else ''), early[0][1] if early else f.loc())
        if m == 'run':
            bad = []

            def oc2(ev):
                if ev.kind == 'call' and ev.name.split('.')[-1] in ('do_checkin', 'listenSSL', 'start') or ev.kind == 'call' and ev.name == 'twisted.internet.reactor.run':
                    ok = any(a[0] == 'isnone' and v is False and strip(a[1])[0] in ('attr', 'hv') and strip(a[1])[2] == 'config' or
                             a[0] == 'truthy' and v and strip(a[1])[0] in ('attr', 'hv') and strip(a[1])[2] == 'config' for a, v in ev.facts.items())
                    if not ok:
                        bad.append(ev)
            eng = Engine(p, inline=lambda g: g.cls in p.mro(cls) and sq(g) not in KNOWN, on_call=oc2, assert_inline=False, raisers=lambda n: False, zero_iter=False)
            eng.run(f, selfcls=role)
            rep.ob('C25.fresh', role + ' starts', not bad, '%s starts without a configuration' % role, bad[0].loc() if bad else f.loc())
    if not roots:
        raise AnalysisBroken('anchor vanished: %s.run' % role)


def filters(p, rep):
    cls = p.cls('TallyServer')
    f = p.method(cls, 'refresh_config')
    SELF = ('self', 'TallyServer')
    iters, adopted = [], []

    def oc(ev):
        if ev.kind == 'setattr' and ev.name == '.config=':
            adopted.append(ev)
        m = ev.name.split('.')[-1]
        if ev.recv is not None and (ev.kind == 'delitem' or ev.kind == 'call' and m in ('pop', '__delitem__')) and ev.args and strip(ev.args[0])[0] == 'elem':
            return ('D', strip(ev.recv), strip(ev.args[0]))

    def oi(ends, it, elemv, lid, poss, n, fn):
        if it is not None and (any(x[0] == 'D' and mentions(x[2], elemv) for s in ends for x in s.trace) or
                               any(a[0] in ('isnone', 'truthy') and is_filter(a[1]) and mentions(a[1], elemv) for s in ends for a in s.facts)):
            iters.append((list(ends), it, elemv, list(eng.loop_left[0]) + [s for s, c in eng.loop_left[1]], fn))
    own = lambda g: g.cls is not None and g.cls in p.mro(cls) and sq(g) not in KNOWN
    eng = Engine(p, inline=own, on_call=oc, on_iter=oi, zero_iter=False, strict_cmp=True, raisers=lambda n: False, assert_inline=False, mark_loops=True,
                 track=lambda a: any('counter_name' in str(x[2]) for x in subterms(a) if x[0] == 'c') or is_filter(a))
    res = eng.run(f, selfcls='TallyServer')
    if not iters:
        rep.ob('C25.filter', 'some', False, 'no counter is dropped by its name', f.loc())
        return
    for ends, it, elemv, left, fn in iters:
        rep.ob('C25.filter', 'all', not left, 'the search for counters to drop may stop early', fn.loc())
        both = next((c for c in subterms(strip(it)) if c[0] == 'call' and c[1].split('.')[-1] in ('_common_keys', 'common_counters') and len(c[2]) > 1), None)
        both = {strip(a) for a in both[2][:2]} if both else None
        e = elemv
        for s in ends:
            facts = dict(s.facts)
            dropped = [x[1] for x in s.trace if x[0] == 'D' and mentions(x[2], e)]
            want = decide(facts)
            if want is None:
                rep.ob('C25.filter', 'decided', False, 'a counter is kept or dropped without a look at both patterns', fn.loc())
            elif want:
                rep.ob('C25.filter', 'dropped', both <= set(dropped) if both else len(dropped) >= 2, 'a counter that is not accepted, or is rejected, is kept', fn.loc())
            else:
                rep.ob('C25.filter', 'kept', not dropped, 'a counter that is accepted and not rejected is dropped', fn.loc())
    for ev in adopted:
        rep.ob('C25.filter', 'before', any(x[0] == 'loop' and any(x[1] == strip(i[1]) or base_map(x[1]) == base_map(strip(i[1])) for i in iters) for x in ev.st.trace), 'a configuration is taken whose counters were not filtered', ev.loc())


def which(t):
    """'accept'/'reject' of a term that holds a match of a pattern with a name"""
    s = [x[2] for x in subterms(t) if x[0] == 'c' and isinstance(x[2], str) and x[2].startswith('counter_name_')]
    s = {x[len('counter_name_'):] for x in s}
    return s.pop() if len(s) == 1 else None


def is_filter(t):
    return any(x[0] in ('mcall', 'call') and (x[2] if x[0] == 'mcall' else x[1].split('.')[-1] if isinstance(x[1], str) else '') in ('search', 'match', 'fullmatch', 'findall') and which(x) for x in subterms(t))


def decide(facts):
    """should the counter be dropped: True, False, or None if the facts leave it open"""
    given, found = {}, {}
    for a, v in facts.items():
        w = which(a[1] if a[0] in ('isnone', 'truthy') else a)
        if w is None:
            continue
        t = a[1] if a[0] in ('isnone', 'truthy') else None
        if t is not None and is_filter(t):
            m = [x for x in subterms(t) if x[0] in ('mcall', 'call') and is_filter(x)][0]
            if (m[2] if m[0] == 'mcall' else m[1].split('.')[-1]) not in ('search', 'findall'):
                continue        # only matches at the start of the name
            found[w] = v is (a[0] == 'truthy')
        elif a[0] == 'cmp' and a[1] == 'eq' and C('') in a[2:]:
            given[w] = not v
        elif a[0] == 'truthy':
            given[w] = v
        elif a[0] == 'isnone':
            given[w] = not v
        elif a[0] == 'cmp' and a[1] == 'in' and v is False:
            given[w] = False
    def both(a, b):
        if a is False or b is False:
            return False
        return True if a and b else None
    neg = lambda x: None if x is None else not x
    x = both(given.get('accept', True if 'accept' in found else None), neg(found.get('accept')))
    y = both(given.get('reject', True if 'reject' in found else None), found.get('reject'))
    if x or y:
        return True
    if x is False and y is False:
        return False
    return None
