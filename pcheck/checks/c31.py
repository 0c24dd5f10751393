"""C31: every path of the share keeper's start and stop, with the keystore followed as heap
state.  A start that answers success has imported every share it was given, each decrypted from
its own ciphertext, into a fresh keystore; a start that does not leaves no keystore of its own;
a stop hands the sum out at most once."""
from ..util import *

SK = 'ShareKeeper'
SELF = ('self', SK)


def check(p, rep):
    rep.rule('C31.all', 'a successful start holds a fresh sum of every share of its start message', 1)
    rep.rule('C31.decrypt', 'each share is decrypted from its own ciphertext and imported into the keystore of this round', 1)
    rep.rule('C31.failed', 'a start that fails leaves no partial sum', 1)
    rep.rule('C31.once', 'a stop hands out the sum of the keystore and drops it', 1)
    rep.rule('C31.owner', 'only starting and stopping change the keystore', 1)
    cls = p.cls(SK)
    f, g = p.method(cls, 'do_start'), p.method(cls, 'do_stop')
    if f is None or g is None:
        raise AnalysisBroken('anchor vanished: ShareKeeper.do_start or do_stop')
    cfg = ('sym', f.params[1])
    imports, decs = [], []

    def oc(ev):
        n = ev.name.split('.')[-1] if ev.kind in ('call', 'mcall') else ''
        if n == 'import_blinding_share':
            imports.append(ev)
        if n == 'decrypt':
            decs.append(ev)

    KEEP = {'decrypt', 'import_blinding_share', 'check_start_config', 'load_private_key_file', 'detach_counts', 'check_stop_config', '__init__'}
    own = lambda h: h.cls is cls and h.name not in KEEP
    eng = Engine(p, inline=own, assert_inline=False, raisers=lambda n: False, on_call=oc, zero_iter=False)
    shares = ('idx', cfg, C('shares'))
    share = ('elem', shares)
    succ = 0
    for s, c in eng.run(f, selfcls=SK):
        if c[0] != 'ret':
            continue
        for s2, b in ([(s, False)] if c[1] == NONE else [(s, True)]):
            ks = field(s2, SELF, 'keystore')
            if b:
                succ += 1
                fresh = ks[0] == 'obj' and ks[1] == 'SecureCounters'
                rep.ob('C31.all', 'fresh', fresh, 'a successful start ends with keystore %s' % show(ks), f.loc())
                got = any(k[0] == 'truthy' and v and k[1][0] in ('call', 'mcall') and 'import_blinding_share' in k[1][1:3][0 if k[1][0] == 'call' else 1]
                          and mentions(k[1], share) and mentions(k[1], ks) for k, v in s2.facts.items())
                rep.ob('C31.all', 'imported', got, 'a start succeeds although a share may not have been imported', f.loc())
                ok = any(k == ('isnone', x) and v is False or k == ('truthy', x) and v for k, v in s2.facts.items() for x in [k[1]]
                         if k[0] in ('isnone', 'truthy') and k[1][0] == 'call' and k[1][1].endswith('check_start_config'))
                rep.ob('C31.all', 'config', ok, 'a start succeeds although its configuration may be invalid', f.loc())
            else:
                rep.ob('C31.failed', 'keystore', ks == NONE or ks == ('attr', SELF, 'keystore'), 'a failed start leaves keystore %s' % show(ks), f.loc())
    if not succ:
        raise AnalysisBroken('ShareKeeper.do_start never succeeds')
    # paths on which an import fails have to fail
    for s, c in eng.run(f, selfcls=SK):
        bad = any(k[0] == 'truthy' and v is False and k[1][0] in ('call', 'mcall') and 'import_blinding_share' in show(k[1]) for k, v in s.facts.items())
        if bad and c[0] == 'ret':
            rep.ob('C31.failed', 'answer', c[1] == NONE, 'a start succeeds although a share was refused', f.loc())
    for ev in imports:
        a = [strip(x) for x in ev.args]
        a = a[-1] if a else NONE
        loc = ev.loc()
        rep.ob('C31.decrypt', 'share', a == share or a[0] == 'obj' and mentions(a, share), 'imports %s' % show(a), loc)
        sec = ev.st.heap.get((a, '[]', C('secret')))
        sec = sec and strip(sec)
        ok = sec is not None and sec[0] == 'call' and sec[1].split('.')[-1] == 'decrypt' and len(sec[2]) >= 2 and \
            strip(sec[2][1]) == ('idx', share, C('secret')) and 'load_private_key' in show(sec[2][0])
        rep.ob('C31.decrypt', 'secret', ok, 'the imported secret is %s' % (sec and show(sec)), loc)
    if not imports:
        raise AnalysisBroken('ShareKeeper.do_start imports no share')
    rep.count('imports analysed', len(imports))

    # ---- stop
    cfg = ('sym', g.params[1])
    eng = Engine(p, inline=own, assert_inline=False, raisers=lambda n: False)
    for s, c in eng.run(g, selfcls=SK):
        if c[0] != 'ret':
            continue
        ks = field(s, SELF, 'keystore')
        rep.ob('C31.once', 'dropped', ks == NONE, 'a stop leaves keystore %s' % show(ks), g.loc())
        det = [x for x in subterms(c[1]) if x[0] in ('call', 'mcall') and 'detach_counts' in str(x[1:3])]
        have = s.facts.get(('isnone', ('attr', SELF, 'keystore'))) is False or s.facts.get(('truthy', ('attr', SELF, 'keystore'))) is True
        rep.ob('C31.once', 'answer', bool(det) and all(mentions(x, ('attr', SELF, 'keystore')) for x in det) if have else not det,
               'a stop answers with %s' % show(c[1])[:120], g.loc())

    # ---- owner
    only_own(p, rep, 'C31.owner', cls, ('keystore',), (f, g, p.method(cls, '__init__')), 'the sum of the shares')
    init = p.method(cls, '__init__')
    st = [v for hh, n, v in attr_stores(p, 'keystore') if hh is init]
    rep.ob('C31.owner', 'initial', all(isinstance(v, ast.Constant) and v.value is None or isinstance(v, ast.Name) and v.id == 'None' for v in st) and st, 'begins with a keystore', init.loc())
    rep.assumption('an exception while importing ends the share keeper process (process_event stops the reactor)')
