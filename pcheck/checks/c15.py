"""C15: guarded evaluation of all event handlers with the field checks followed: what is known about a field
wherever it is read, and about the whole event wherever something is counted or kept; the parser of tagged events and
the field checks themselves path by path."""
from ..meaning import *
from ..counting import *
from ..sym import Engine
from .. import util as U, fields
from .. import terms as T
from .c18 import PARSE, parsed, only_event, EVENT

CHECKS = {'is_int_valid': 'int', 'is_flag_valid': 'flag', 'is_float_valid': 'float', 'is_ip_address_valid': 'ip', 'is_string_valid': 'string', 'is_list_valid': 'list', 'is_field_valid': 'field'}
FITS = {'int': ('int', 'flag'), 'flag': ('flag',), 'float': ('float', 'int', 'flag'), 'ip': ('ip',), 'ipobj': ('ip',), 'string': tuple(CHECKS.values()), 'list': tuple(CHECKS.values())}


class Reads(Guarded):
    reads = None

    def fcall(self, t, args, kw, g, e, bound=False):
        if t[0] == 'func':
            fn = self.p.funcs[t[1]]
            k = self.field(fn)
            if k and args is not None:
                self.reads.append((g, k, fn, args, kw, self.stack[-1].loc(e), self.stack[-1]))
        return Guarded.fcall(self, t, args, kw, g, e, bound)


def followed(p):
    roles = {}

    def opaque(f):
        if f.qual not in roles:
            roles[f.qual] = role(p, f)
        r = roles[f.qual]
        if r == 'valid':
            return False
        return r or sq(f) in KNOWN and f.mod.name != DC
    return opaque


def literal(a):
    """(check, field name, mandatory) of a guard atom that calls a field check"""
    if a[0] != 'truthy' or a[1][0] != 'call':
        return None
    n = str(a[1][1]).lstrip('!').split('.')[-1]
    if n not in CHECKS or not a[1][2]:
        return None
    ts, d = a[1][2], dict(a[1][3])
    mand = ts[3] if len(ts) > 3 else d.get('is_mandatory', FALSE)
    return CHECKS[n], ts[0], ts[1] if len(ts) > 1 else d.get('fields'), mand


def check(p, rep):
    rep.rule('C15.read', 'a field is only read where it is known to be valid for the way it is read', 40)
    rep.rule('C15.counted', 'nothing is counted or kept unless every field that matters was checked', 100)
    rep.rule('C15.mandatory', 'a field that has to be there is only read where it is known to be there', 5)
    rep.rule('C15.parse', 'an event with a malformed or repeated field has no fields, and one without fields is ignored', 4)
    rep.rule('C15.range', 'a field check accepts only a present field of the right kind and range, or an absent optional one', 6)
    rep.rule('C15.convert', 'positional fields are converted before anything is changed', 1)
    rep.rule('C15.finite', 'a time is only counted or kept when it is known to be a finite number', 14)
    rep.rule('C15.answer', 'a malformed event never ends as counted: wrong numbers of fields are refused', 4)
    cl = p.cls('Aggregator')
    ga = Reads(p, cl, followed(p), lambda f: GETTERS.get(f.name) if f.mod.name == 'privcount.tagged_event' else None,
               lambda r, n: n == 'increment' or r == ('attr', ('self',), 'traffic_model'))
    ga.reads = []
    h = p.method(cl, 'handle_event')
    if h is None:
        raise AnalysisBroken('anchor vanished: Aggregator.handle_event')
    res = ga.run(h, {})
    known = {}

    def facts(g):
        """{field: kinds known}, {fields known to be there}"""
        k = frozenset(a for a, v in g.items() if v)
        r = known.get(k)
        if r is None:
            ok, there = {}, set()
            for a in k:
                l = literal(a)
                if l and l[2] is not None and parsed(l[2]):
                    ok.setdefault(l[1], set()).add(l[0])
                    if l[3] == TRUE:
                        there.add(l[1])
                if a[0] == 'in' and len(a) > 2 and parsed(a[2]):
                    there.add(a[1])
            r = known[k] = (ok, there)
        return r
    for g, kind, fn, args, kw, loc, f in ga.reads:
        b = dict(zip(fn.params, args))
        b.update(kw)
        for h2, ts, d in ga.product([b[fn.params[0]], b.get('is_mandatory', [({}, FALSE)])], {}, g):
            ok, there = facts(h2)
            name, mand = ts
            kinds = ok.get(name, set())
            fine = kind in ('string', 'list') or bool(kinds & set(FITS[kind]))
            ev = event_of(h2)
            key = '%s %s %s' % (ev and ev.replace('PRIVCOUNT_', ''), show(name).strip("'"), kind)
            rep.ob('C15.read', key, fine, 'the field is read as %s before it is known to be valid (known: %s)' % (kind, sorted(kinds)), loc)
            if mand == TRUE:
                rep.ob('C15.mandatory', key, name in there, 'the field is read as mandatory, but may be missing', loc)
    # everything counted or kept
    places = [(r.g, r.loc, sq(r.fn), [t for x in (r.args or []) for _, t in x] + [t for x in r.kw.values() for _, t in x]) for r in ga.recs]
    places += [(g, loc, sq(f), [value] if isinstance(value, tuple) else []) for g, kind, target, loc, f, value, seq in ga.effects
               if not parsed(base(target))]
    for g, loc, name, ts in places:
        used = set()
        for a in list(g):
            fields_in(a, used)
        for t in ts:
            fields_in(t, used)
        ok, there = facts(g)
        bad = [(k, n) for k, n in sorted(used, key=str) if k in ('int', 'flag', 'float', 'ip', 'ipobj') and not (ok.get(n, set()) & set(FITS[k]))]
        tagged = any(parsed(x) for a in g for x in sub(a))
        rep.ob('C15.counted', '%s %s' % (name, event_of(g)), not bad and (not tagged or bool(ok)), 'counts or keeps %s, which was not checked' % ', '.join(show(n) for k, n in bad)[:120], loc)
        for x in sorted({x for t in ts for x in T.subterms(t) if x[0] == 'call' and x[1] == 'float' and len(x[2]) == 1 and raw_event(x[2][0])}, key=str):
            about = [(a, v) for a, v in g.items() if any(x in T.subterms(y) for y in a[1:] if isinstance(y, tuple))]
            fin = any(not v and a[0] == 'truthy' and a[1][0] == 'call' and a[1][1].split('.')[-1] == 'isnan' or v and a[0] == 'eq' and a[1] == a[2] for a, v in about) and \
                any(not v and (a[0] == 'eq' and isinstance(a[2], tuple) and a[2][0] == 'c' and a[2][2] in (float('inf'), float('-inf')) or a[0] == 'truthy' and a[1][0] == 'call' and a[1][1].split('.')[-1] == 'isinf') for a, v in about)
            rep.ob('C15.finite', '%s %s %s' % (name, event_of(g), show(x)), fin, 'counts or keeps %s, which may be nan or inf' % show(x), loc)
    rep.count('field reads', len(ga.reads))
    rep.count('increments and changes of kept state', len(places))
    # the answers
    for g, t in res:
        short = [a for a, v in g.items() if a[0] == 'eq' and not v and a[1][0] == 'call' and a[1][1] == 'len' and whole(a[1][2][0])]
        ev = event_of(g)
        if short and ev in ('PRIVCOUNT_STREAM_ENDED', 'PRIVCOUNT_STREAM_BYTES_TRANSFERRED'):
            rep.ob('C15.answer', ev, t == FALSE, 'an event with a wrong number of fields is accepted', h.loc())
    for r in list(ga.recs):
        ev = event_of(r.g)
        if ev == 'PRIVCOUNT_STREAM_ENDED':
            fits = any(v and a[0] == 'eq' and a[1][0] == 'call' and a[1][1] == 'len' and whole(a[1][2][0]) for a, v in r.g.items())
            rep.ob('C15.answer', ev + ' counted', fits, 'counts a stream event with any number of fields', r.loc)
    empties = [(g, t) for g, t in res if any((a[0] == 'eq' and v and a[2] == C(0) or a[0] == 'lt' and v and a[2] == C(1)) and a[1][0] == 'call' and a[1][1] == 'len' and parsed(a[1][2][0])
                                             or a[0] == 'truthy' and not v and parsed(a[1]) for a, v in g.items())]
    rep.ob('C15.parse', 'empty', bool(empties) and all(t[0] == 'c' for g, t in empties), 'an event without fields is handled', h.loc())
    for g, loc, name, ts in places:
        if any(parsed(x) for a in g for x in sub(a)):
            no = any((a[0] == 'eq' and v and a[2] == C(0)) and a[1][0] == 'call' and a[1][1] == 'len' and parsed(a[1][2][0]) or a[0] == 'truthy' and not v and parsed(a[1]) for a, v in g.items())
            if no:
                rep.ob('C15.parse', 'counted ' + name, False, 'an event without fields is counted', loc)
    convert(p, rep, cl)
    parser(p, rep)
    ranges(p, rep)
    rep.assumption('a field that is text needs no check to be read as text')


def whole(t):
    """the event, or all of it after some point"""
    return only_event(t) and all(x[0] != 'slice' or x[3] is None or x[3] == NONE for x in T.subterms(t))


def raw_event(t):
    return t[0] == 'idx' and only_event(t)


def base(t):
    while t[0] in ('idx', 'attr', 'mcall', 'slice', 'elem') and not parsed(t):
        t = t[1]
    return t


def sub(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
            if t[0] == 'c':
                return
        for x in t:
            if isinstance(x, (tuple, frozenset)):
                yield from sub(x)
    elif isinstance(t, frozenset):
        for x in t:
            yield from sub(x)


_f = {}


def fields_in(t, out):
    r = _f.get(t)
    if r is None:
        r = _f[t] = frozenset((x[1], C(x[2]) if isinstance(x[2], str) else x[2]) for x in sub(t) if x[0] == 'F')
    out |= r


def convert(p, rep, cl):
    """in the handler of stream events no conversion that may fail follows a change"""
    for f in sorted((f for f in p.funcs.values() if f.cls is cl and f.name.startswith('_handle') and 'items' in f.params), key=lambda f: f.qual):
        items = ('sym', 'items')
        state = {'late': None, 'n': 0}

        def oc(ev):
            if ev.kind in ('call', 'mcall') and ev.name.split('.')[-1] in ('increment', 'setdefault', 'append') or ev.kind in ('setitem', 'setattr') and False:
                if mut(ev):
                    ev.st.trace += (('changed', ev.loc()),)
            if ev.kind == 'call' and ev.name in ('int', 'float', 'long') and ev.args and T.mentions(ev.args[0], items):
                state['n'] += 1
                if any(isinstance(x, tuple) and x and x[0] == 'changed' for x in ev.st.trace):
                    state['late'] = ev.loc()

        def mut(ev):
            r = T.strip(ev.recv) if ev.recv is not None else C(None)
            return any(x[0] == 'attr' and x[2] in ('circ_info', 'secure_counters', 'cli_ips_current', 'cli_ips_previous') for x in T.subterms(r))
        if not any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('int', 'float', 'long') for n in ast.walk(f.node)):
            continue
        eng = Engine(p, inline=lambda g: U.sq(g) not in KNOWN, assert_inline=False, raisers=lambda n: False, on_call=oc)
        eng.run(f, selfcls='Aggregator')
        if state['n']:
            rep.ob('C15.convert', f.name, state['late'] is None, 'a field is converted at %s after the event was partly counted' % state['late'], state['late'] or f.loc())


def parser(p, rep):
    """parse_tagged_event: a field is kept only if it is well-formed and new, and skipped only if it is empty"""
    f = p.fn('privcount.tagged_event.parse_tagged_event')
    lst = ('sym', f.params[0])
    kept = set()

    def cmps(facts, op, right):
        return [(T.strip(k[2]), v) for k, v in facts.items() if k[0] == 'cmp' and k[1] == op and T.strip(k[3]) == right]

    def present(facts, t):
        """t is known not to be empty"""
        return any(v and k == ('truthy', t) or v and k[0] == 'cmp' and k[1] == 'eq' and ('len', t) in k[2:4] or v and k[0] == 'cmp' and k[1] == 'lt' and k[3] == ('len', t)
                   or not v and k[0] == 'cmp' and k[1] == 'eq' and (k[2:4] in ((('len', t), C(0)), (t, C('')), (C(''), t)))
                   or v and k[0] == 'cmp' and k[1] == 'eq' and C('=') in k[2:4] and t in k[2:4] for k, v in facts.items())

    def oi(ends, it, elemv, lid, poss, n, fn):
        if it is None or T.strip(it) != lst:
            return
        for s in ends:
            e = T.strip(elemv)
            stored = [(k, T.strip(v)) for k, v in s.heap.items() if len(k) == 3 and k[1] == '[]']
            if not stored:
                ok = not present(s.facts, e) and any(not v and (k == ('truthy', e)) or v and k[0] == 'cmp' and k[1] == 'eq' and (('len', e) in k[2:4] or C('') in k[2:4]) for k, v in s.facts.items())
                rep.ob('C15.parse', 'skipped', ok, 'a field that is not empty is skipped, and the rest of its event is used', fn.loc())
            for k, v in stored:
                kept.add(k[0])
                key, val = T.strip(k[2]), v
                sp = key[1] if key[0] == 'idx' else None
                how = sp[2] if sp is not None and sp[0] == 'mcall' else None
                shape = sp is not None and sp[0] == 'mcall' and sp[1] == e and sp[3][:1] == (C('='),) and key[2] == C(0) and val == ('idx', sp, C(2 if how == 'partition' else 1))
                rep.ob('C15.parse', 'split', bool(shape and how in ('partition', 'split')), 'a field is split into %s and %s' % (T.show(key)[:60], T.show(val)[:60]), fn.loc())
                if not shape:
                    continue
                if how == 'partition':
                    one = not any(v for t, v in cmps({k2: v2 for k2, v2 in s.facts.items() if k2[0] == 'cmp' and k2[2] == C('=')}, 'in', val)) and (('cmp', 'in', C('='), val) in s.facts) and present(s.facts, ('idx', sp, C(1)))
                    one = one or any(v2 and k2[0] == 'cmp' and k2[1] == 'eq' and C(1) in k2[2:4] and any(x[0] == 'mcall' and x[2] == 'count' and T.strip(x[1]) == e for x in k2[2:4]) for k2, v2 in s.facts.items())
                else:
                    one = len(sp[3]) == 1 and any(v2 and k2[0] == 'cmp' and k2[1] == 'eq' and C(2) in k2[2:4] and ('len', sp) in k2[2:4] for k2, v2 in s.facts.items())
                for x in {y for k2 in s.facts if k2[0] == 'cmp' for y in k2[2:4] if y[0] == 'mcall' and y[2] == 'count' and T.strip(y[1]) == e and y[3] == (C('='),)}:
                    # exactly one: neither less than one, nor more
                    less = s.facts.get(('cmp', 'lt', x, C(1))) is False or s.facts.get(('truthy', x)) is True or s.facts.get(('cmp', 'lt', C(0), x)) is True
                    more = s.facts.get(('cmp', 'lt', C(1), x)) is False or s.facts.get(('cmp', 'lt', x, C(2))) is True
                    one = one or less and more
                rep.ob('C15.parse', 'one separator', one, 'a field with no or several separators is accepted', fn.loc())
                rep.ob('C15.parse', 'key', present(s.facts, key), 'a field without a name is accepted', fn.loc())
                fresh = any(not v2 and k2[0] == 'cmp' and k2[1] == 'in' and T.strip(k2[2]) == key and T.strip(k2[3]) == k[0] for k2, v2 in s.facts.items())
                rep.ob('C15.parse', 'repeated', fresh, 'a repeated field replaces the first one', fn.loc())
                for ch in ' \r\n\0':
                    rep.ob('C15.parse', 'white space', s.facts.get(('cmp', 'in', C(ch), e)) is False or any(not v2 and 'isspace' in str(k2) or not v2 and 're.search' in str(k2) for k2, v2 in s.facts.items()),
                           'a field that contains %r is accepted' % ch, fn.loc())
    eng = Engine(p, inline=lambda g: U.sq(g) not in KNOWN, assert_inline=False, raisers=lambda n: False, strict_cmp=True, on_iter=oi)
    for s, c in eng.run(f):
        if c[0] != 'ret':
            continue
        v = T.strip(c[1])
        if v in kept:
            e = ('elem', lst)
            bad = [k for k, b in s.facts.items() if T.mentions(k, e) and (b and k[0] == 'cmp' and k[1] == 'in' or not b and k[0] in ('truthy', 'cmp') and k[:2] != ('cmp', 'in') and k != ('truthy', e))]
            rep.ob('C15.parse', 'result', not bad, 'the fields before a malformed one are returned', f.loc())
        elif v[0] == 'obj' and v[1] == 'dict':
            rep.ob('C15.parse', 'refused', not [k for k in s.heap if k[0] == v], 'returns other fields', f.loc())
        else:
            rep.ob('C15.parse', 'refused', v in (NONE, FALSE) or v[0] == 'dict' and not v[1:][0], 'returns %s' % T.show(v)[:60], f.loc())
    if not kept:
        raise AnalysisBroken('parse_tagged_event keeps no field')


CONV = {'is_int_valid': ('int', 'long'), 'is_float_valid': ('float',), 'is_string_valid': None, 'is_list_valid': None, 'is_ip_address_valid': None, 'is_field_valid': None}


def ranges(p, rep):
    """every answer of a field check is justified by what is known on its path"""
    for name in sorted(CONV):
        f = p.fn('privcount.tagged_event.' + name)
        fld, nm, mand = ('sym', f.params[1]), ('sym', f.params[0]), ('sym', 'is_mandatory')
        raw = ('idx', fld, nm)
        bounds = [('sym', x) for x in f.params[4:]]
        lows = [b for b in bounds if b[1].startswith('min')]
        highs = [b for b in bounds if b[1].startswith('max')]
        if name in ('is_int_valid', 'is_float_valid') and (len(lows) != 1 or len(highs) != 1):
            raise AnalysisBroken('%s has no bounds' % name)
        flt = name == 'is_float_valid'
        eng = Engine(p, inline=lambda g: g.mod is f.mod and g is not f, assert_inline=False, raisers=lambda n: False, strict_cmp=True)
        n = 0
        for s, c in eng.run(f):
            if c[0] != 'ret':
                continue
            v = T.strip(c[1])
            F_ = s.facts
            there = F_.get(('cmp', 'in', nm, fld))
            must = F_.get(('truthy', mand))
            if v not in (TRUE, FALSE):
                rep.ob('C15.range', name, False, 'answers %s' % T.show(v)[:80], f.loc())
                continue
            n += 1

            def is_v(t):
                t = T.strip(t)
                if CONV[name]:
                    return t[0] == 'call' and t[1] in CONV[name] and T.strip(t[2][0]) == raw
                if name == 'is_list_valid':
                    if t == C(0):
                        return F_.get(('truthy', raw)) is False or any(k[0] == 'cmp' and ('len', raw) in T.subterms(k) for k in F_)
                    return t != raw and T.mentions(t, raw) and fields.counted(t, raw, F_)
                return t[0] == 'len' and T.mentions(t, raw)

            isn = [(k[1][1].split('.')[-1], x) for k, x in F_.items() if k[0] == 'truthy' and k[1][0] == 'call' and k[1][1].split('.')[-1] in ('isnan', 'isinf') and is_v(k[1][2][0])] if flt else []
            finite = ('isnan', False) in isn and ('isinf', False) in isn

            def rel(b, low):
                """(inside known, outside known)"""
                ins = out = False
                for k, x in F_.items():
                    if k[0] != 'cmp' or k[1] not in ('lt', 'le'):
                        continue
                    l, r = T.strip(k[2]), T.strip(k[3])
                    if is_v(l) and r == b:
                        side = 'vb'
                    elif l == b and is_v(r):
                        side = 'bv'
                    else:
                        continue
                    good = ('bv', 'le') if low else ('vb', 'le')
                    badf = ('vb', 'lt') if low else ('bv', 'lt')
                    if (side, k[1]) == good:
                        ins, out = ins or x, out or not x
                    elif (side, k[1]) == badf:
                        out, ins = out or x, ins or (not x and (not flt or finite))
                    # the other two forms exclude the bound itself: they prove nothing about refusing
                return ins, out
            if v == TRUE:
                if there is False:
                    rep.ob('C15.range', name + ' absent', must is False, 'a missing mandatory field is accepted', f.loc())
                    continue
                if name == 'is_field_valid':
                    rep.ob('C15.range', name + ' present', must is False or there is True, 'a missing mandatory field is accepted', f.loc())
                    continue
                for b, low in [(b, True) for b in lows] + [(b, False) for b in highs]:
                    ok = F_.get(('isnone', b)) is True or rel(b, low)[0]
                    rep.ob('C15.range', '%s %s' % (name, b[1]), ok, 'a field is accepted that is not known to be %s %s' % ('at least' if low else 'at most', b[1]), f.loc())
                if flt:
                    rep.ob('C15.finite', name, finite, 'a time is accepted that may be nan or inf', f.loc())
                if name == 'is_ip_address_valid':
                    ok = any(k[0] == 'isnone' and not x or k[0] == 'truthy' and x for k, x in F_.items() if k[0] in ('isnone', 'truthy') and k[1][0] == 'call' and 'validate_ip_address' in k[1][1] and T.strip(k[1][2][0]) == raw)
                    rep.ob('C15.range', name, ok, 'a field is accepted that is not an IP address', f.loc())
            else:
                why = there is False and must is True or ('isnan', True) in isn or ('isinf', True) in isn or any(rel(b, True)[1] for b in lows) or any(rel(b, False)[1] for b in highs) or \
                    any((k[0] == 'isnone' and x or k[0] == 'truthy' and not x) and k[1][0] == 'call' and 'validate_ip_address' in k[1][1] for k, x in F_.items() if k[0] in ('isnone', 'truthy'))
                rep.ob('C15.range', name + ' refused', why, 'a valid field is refused', f.loc())
        if not n:
            raise AnalysisBroken('%s never answers' % name)
    fields.address(p, rep, 'C15.range')
    # a flag is 0 or 1
    f = p.fn('privcount.tagged_event.is_flag_valid')
    for s, c in Engine(p, inline=lambda g: False, assert_inline=False, raisers=lambda n: False).run(f):
        if c[0] == 'ret':
            t = T.strip(c[1])
            calls = [x for x in T.subterms(t) if x[0] == 'call' and x[1].endswith('is_int_valid')] + [x for k in s.facts for x in T.subterms(k) if x[0] == 'call' and x[1].endswith('is_int_valid')]
            ok = t == FALSE
            for x in calls:
                g = p.fn('privcount.tagged_event.is_int_valid')
                a = dict(zip(g.params, x[2]))
                a.update(dict(x[3]))
                ok = ok or a.get('min_value') == C(0) and a.get('max_value') == C(1) and a.get('is_mandatory') == ('sym', 'is_mandatory')
            rep.ob('C15.range', 'is_flag_valid', ok, 'a flag may be something else than 0 or 1', f.loc())
