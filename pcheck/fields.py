"""What the accessors of tagged fields return, decided on the terms of their paths: for texts of a field that
are chosen for its kind and around every constant that the paths mention, the paths that the text can take
must all return the value that the text stands for. A term that cannot be folded decides nothing."""
import re
from . import terms as T
from .terms import C
from .sym import Engine
from .util import *

HOLE = object()
TEXTS = {
    'int': ['0', '1', '-1', '2', '7', '007', '65536', '-70000', '4294967296', '4294967301', '99999999999999999999'],
    'flag': ['0', '1', '01', '00', '+1'],
    'float': ['0', '0.0', '1', '0.25', '-3.125', '0.0000152587890625', '1500000000.123456', '1e3', '-1e-9'],
    'string': ['', 'a', 'Ab c', ' a ', 'a,b', 'A.B.', '(redacted)', '0', 'x' * 300],
    'list': ['', 'a', 'b,a', 'a,a', 'a,', ',a', ',', 'a, B', ' a', 'A,b,c,d,e,f,g,h,i,j,k,l,m'],
}
VALUE = {'int': int, 'flag': lambda s: bool(int(s)), 'float': float, 'string': str, 'list': lambda s: s.split(',') if s else []}
COUNT = lambda s: s.count(',') + 1 if s else 0
PURE = {'int': int, 'long': int, 'float': float, 'bool': bool, 'str': str, 'unicode': str, 'len': len, 'sorted': sorted, 'list': list, 'tuple': list,
        'round': lambda x, n=0: round(x, n), 'abs': abs, 'max': max, 'min': min, 'set': lambda x: sorted(set(x)), 'reversed': lambda x: list(reversed(x))}
METHODS = ('split', 'count', 'strip', 'lstrip', 'rstrip', 'lower', 'upper', 'replace', 'startswith', 'endswith', 'rsplit', 'partition', 'isdigit', 'title', 'capitalize')
BIN = {'Add': lambda a, b: a + b, 'Sub': lambda a, b: a - b, 'Mult': lambda a, b: a * b, 'FloorDiv': lambda a, b: a // b, 'Mod': lambda a, b: a % b,
       'BitAnd': lambda a, b: a & b, 'BitOr': lambda a, b: a | b, 'Div': lambda a, b: a // b if isinstance(a, int) and isinstance(b, int) else a / b,
       'LShift': lambda a, b: a << b if b < 99 else HOLE, 'RShift': lambda a, b: a >> b}
CMP = {'startswith': lambda a, b: a.startswith(b), 'endswith': lambda a, b: a.endswith(b), 'eq': lambda a, b: a == b, 'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b, 'in': lambda a, b: a in b, 'is': lambda a, b: a is b}


def comment(s):
    return s == '' or s.startswith(('#', '//', ';'))


def fold(t, raw, s, heap=None):
    """the value of a term when the field's text is s, or HOLE"""
    if t == raw:
        return s
    k = t[0]
    try:
        if k == 'c':
            return t[2] if t[1] in ('int', 'long', 'float', 'str', 'unicode', 'bool', 'NoneType') else HOLE
        if k == 'obj':
            a = [fold(x, raw, s, heap) for x in t[3]]
            return HOLE if t[1] != 'list' or heap is None or (t, '#app') in heap or any(x is HOLE for x in a) else a
        if k == 'len':
            v = fold(t[1], raw, s, heap)
            return HOLE if v is HOLE else len(v)
        if k == 'idx':
            a, b = fold(t[1], raw, s, heap), fold(t[2], raw, s, heap)
            return HOLE if a is HOLE or b is HOLE else a[b]
        if k == 'call' and t[1].split('.')[-1] == 'line_is_comment' and len(t[2]) == 1:
            v = fold(t[2][0], raw, s, heap)
            return HOLE if v is HOLE else comment(v)
        if k == 'call' and t[1].split('.')[-1] in PURE and not t[3]:
            a = [fold(x, raw, s, heap) for x in t[2]]
            return HOLE if any(x is HOLE for x in a) else PURE[t[1].split('.')[-1]](*a)
        if k == 'mcall' and t[2] in METHODS and not t[4]:
            a = [fold(x, raw, s, heap) for x in (t[1],) + tuple(t[3])]
            return HOLE if any(x is HOLE for x in a) else getattr(a[0], t[2])(*a[1:])
        if k == 'bin' and t[1] in BIN:
            a, b = fold(t[2], raw, s, heap), fold(t[3], raw, s, heap)
            return HOLE if a is HOLE or b is HOLE else BIN[t[1]](a, b)
        if k == 'un':
            a = fold(t[2], raw, s, heap)
            return HOLE if a is HOLE else {'USub': lambda: -a, 'Not': lambda: not a, 'UAdd': lambda: a}.get(t[1], lambda: HOLE)()
        if k in ('cmp',):
            a, b = fold(t[2], raw, s, heap), fold(t[3], raw, s, heap)
            return HOLE if a is HOLE or b is HOLE or t[1] not in CMP else CMP[t[1]](a, b)
        if k == 'truthy':
            a = fold(t[1], raw, s, heap)
            return HOLE if a is HOLE else bool(a)
        if k == 'isnone':
            a = fold(t[1], raw, s, heap)
            return HOLE if a is HOLE else a is None
    except (ValueError, TypeError, IndexError, ZeroDivisionError, OverflowError, KeyError, AttributeError):
        return HOLE
    return HOLE


CHECKED = re.compile(r'(is_[a-z_]+_valid|check_[a-z0-9_]+|exists|isfile)$')


def possible(facts, raw, s, heap=None, about=None):
    """is the path one that the text s takes for certain: everything that it knows about the text (or the
    fields, `about`) folds to what it knows, apart from the answers of the checks"""
    for k, v in facts.items():
        if k[0] == 'cmp' and k[1] == 'in' and about is not None and k[2:4] == about:
            continue
        if not T.mentions(k, raw) and not (about is not None and T.mentions(k, about[1])):
            continue
        if k[0] == 'truthy' and k[1][0] == 'call' and CHECKED.search(k[1][1]):
            continue
        x = fold(k, raw, s, heap)
        if x is HOLE or x != v:
            return False
    return True


def texts(kind, paths):
    out = list(TEXTS[kind])
    for s, c in paths:
        for k in list(s.facts) + ([c[1]] if c[0] == 'ret' else []):
            for x in T.subterms(k):
                if x[0] != 'c' or isinstance(x[2], bool):
                    continue
                if kind in ('int', 'float') and isinstance(x[2], (int, float)) and abs(x[2]) < 1e18:
                    out += [str(int(x[2]) + d) for d in (-1, 0, 1)]
                    if kind == 'float':
                        out += [repr(float(x[2])), repr(float(x[2]) + 0.5)]
                if kind in ('string', 'list') and isinstance(x[2], str) and len(x[2]) < 40:
                    out += [x[2], 'a' + x[2], x[2] + 'a', 'a' + x[2] + 'b']
    return sorted(set(out), key=lambda x: (len(x), x))


def same(a, b):
    return type(a) is type(b) and a == b or isinstance(a, (int, bool)) and isinstance(b, (int, bool)) and a == b


def values(p, rep, rule):
    """rule: every accessor returns the value its field's text stands for, or its default"""
    n = 0
    for kind in TEXTS:
        f = p.funcs.get('privcount.tagged_event.get_%s_value' % kind)
        if f is None or len(f.params) < 2:
            continue
        n += 1
        nm, fld = ('sym', f.params[0]), ('sym', f.params[1])
        raw, there = ('idx', fld, nm), ('cmp', 'in', nm, fld)
        paths = [(s, c) for s, c in Engine(p, inline=lambda g: g.mod is f.mod and g is not f and not g.name.startswith('is_'), assert_inline=False, raisers=lambda x: False, strict_cmp=True).run(f) if c[0] == 'ret']
        if any(x[0] == 'mcall' and x[1] == fld for s, c in paths for k in list(s.facts) + [c[1]] for x in T.subterms(k)):
            continue     # another way to look a field up decides nothing
        bad = []
        for s in texts(kind, paths):
            try:
                want = VALUE[kind](s)
            except ValueError:
                continue
            for st, c in paths:
                if st.facts.get(there) is False or not possible(st.facts, raw, s, st.heap, (nm, fld)):
                    continue
                got = fold(c[1], raw, s, st.heap)
                if got is not HOLE and not same(got, want):
                    bad.append('%r is %r' % (s, got))
        rep.ob(rule, f.name, not bad, 'the field %s' % '; '.join(bad[:2]), f.loc())
        for st, c in paths:
            if st.facts.get(there) is False and 'default' in f.params:
                rep.ob(rule, f.name + ' absent', T.strip(c[1]) == ('sym', 'default'), 'an absent field is %s' % T.show(c[1])[:60], f.loc())
    for name in ('get_ip_address_object', 'get_ip_address_value'):
        f = p.funcs.get('privcount.tagged_event.' + name)
        if f is None:
            continue
        n += 1
        nm, fld = ('sym', f.params[0]), ('sym', f.params[1])
        raw, there = ('idx', fld, nm), ('cmp', 'in', nm, fld)
        for st, c in Engine(p, inline=lambda g: g.mod is f.mod and g is not f and not g.name.startswith('is_'), assert_inline=False, raisers=lambda x: False, strict_cmp=True).run(f):
            if c[0] != 'ret' or st.facts.get(there) is False:
                continue
            t = c[1]
            text = t[0] == 'call' and t[1] in ('str', 'unicode')
            while t[0] == 'call' and t[1] in ('str', 'unicode') and len(t[2]) == 1:
                t = t[2][0]
            ok = t[0] == 'call' and t[1].endswith('validate_ip_address') and T.strip(t[2][0]) == raw and text == (name == 'get_ip_address_value')
            if t[0] == 'call' and not t[1].endswith('validate_ip_address') or t[0] == 'mcall':
                continue     # another way to read an address decides nothing
            rep.ob(rule, name, ok, 'the field is %s' % T.show(c[1])[:80], f.loc())
    return n


def address(p, rep, rule):
    """an address is what the ipaddress module makes of the whole text"""
    f = p.funcs.get('privcount.config.validate_ip_address')
    if f is None:
        return
    for st, c in Engine(p, inline=lambda g: False, assert_inline=False, raisers=lambda n: False, strict_cmp=True).run(f):
        for x in T.subterms(c[1]) if c[0] == 'ret' else ():
            if x[0] == 'call' and x[1].startswith('ipaddress.') and len(x[2]) == 1:
                t = x[2][0]
                while t[0] == 'call' and t[1] in ('str', 'unicode') and len(t[2]) == 1:
                    t = t[2][0]
                rep.ob(rule, f.name, T.strip(t) == ('sym', f.params[0]), 'the address is made of %s' % T.show(t)[:80], f.loc())


def counted(t, raw, facts):
    """may the term be the number of items of the list in the field, as far as it folds"""
    for s in TEXTS['list']:
        if possible({k: v for k, v in facts.items() if not any(x == ('sym', b) for x in T.subterms(k) for b in ('min_count', 'max_count'))}, raw, s):
            v = fold(t, raw, s)
            if v is not HOLE and v != COUNT(s):
                return False
    return True


LINES = {
    'check_domain': (['example.com\n', ' A.Example.COM \r\n', '.x.org.\n', 'a-b_c.de', 'com\n', '1.2'], lambda s: s.strip().lower().strip('.')),
    'check_country': (['us\n', 'DE', ' Fr \n', '??\n', '!!', 'a1\n'], lambda s: s.strip().lower()),
    'check_as': (['1\n', ' 65536 ', '007\n', '4294967295'], lambda s: int(s.strip())),
    'check_reason': (['DESTROYED\n', ' timeout', 'Finished\r\n', '1'], lambda s: s.strip().lower()),
    'check_onion': (['facebookcorewwwi\n', 'http://3g2upl4pq6kufc4m.onion/a;b#c\n', ' 3G2UPL4PQ6KUFC4M '], None),
}
LINES['map'] = (['1.0.0.0/24\t13335\n', ' 2001::/32 6939\r\n', '1.2.3.0/24 12_34\n'], lambda s: s.strip())
COMMENTS = ['\n', '', '  \r\n', '# a\n', '#\n', '// b\n', '  ; c\n', ';', '//x.y']


def lines(p, rep, rule, engine, f):
    """every line of a list file that is not a comment is one item of the list, in its normal form"""
    kinds = [a for a in LINES if a in f.params and a != 'map'] or ['map']

    def one(facts):
        if kinds == ['map']:
            return 'map'
        on = [a for a in kinds if facts.get(('truthy', ('sym', a))) is not False]
        return on[0] if len(on) == 1 and facts.get(('truthy', ('sym', on[0]))) is True else None

    def oc(ev):
        if ev.kind == 'call' and ev.recv is not None and ev.name.split('.')[-1] in ('append', 'add') and ev.args and ev.loops:
            raw = ('elem', ev.loops[-1][0])
            if not T.mentions(ev.args[0], raw):
                return None
            a = one(ev.st.facts)
            if a and LINES[a][1]:
                bad = []
                for s in LINES[a][0]:
                    got = fold(ev.args[0], raw, s) if possible(ev.st.facts, raw, s) else HOLE
                    if got is not HOLE and got != LINES[a][1](s):
                        bad.append('the line %r is loaded as %r' % (s, got))
                rep.ob(rule, a + ' item', not bad, '; '.join(bad[:2]), ev.loc())
            return ('loaded',)

    def oi(ends, it, elemv, lid, poss, n, fn):
        for e in ends:
            if not T.mentions(it, ('sym', f.params[0])):
                continue
            got = sum(1 for x in e.trace if x == ('loaded',))
            again = any(k[0] == 'cmp' and k[1] == 'in' and v and T.mentions(k[2], elemv) and not T.mentions(k[3], elemv) for k, v in e.facts.items())
            for a in kinds:
                if e.facts.get(('truthy', ('sym', a))) is False or any(e.facts.get(('truthy', ('sym', b))) is True for b in kinds if b != a):
                    continue
                odd = [s for s in LINES[a][0] if not again and got != 1 and possible(e.facts, elemv, s)] + [s for s in COMMENTS if got and possible(e.facts, elemv, s)]
                rep.ob(rule, a + ' lines', not odd, odd and 'the line %r is %s' % (odd[0], 'loaded' if got == 1 else 'not loaded' if not got else 'loaded twice') or '', f.loc())
    engine(p, f, on_call=oc, on_iter=oi).run(f)
    if kinds == ['map']:
        return
    g = p.funcs.get('privcount.match.line_is_comment')
    if g is not None:
        raw = ('sym', g.params[0])
        for st, c in engine(p, g).run(g):
            if c[0] == 'ret':
                for s in sorted({x.strip() for x in COMMENTS} | {'a#b', 'a//b', 'a;b', '/a', 'http://x.onion', '12', 'a', '!x'}):
                    got = fold(c[1], raw, s) if possible(st.facts, raw, s) else HOLE
                    rep.ob(rule, 'comment', got is HOLE or bool(got) == comment(s), 'the line %r is %s' % (s, 'a comment' if got is not HOLE and got else 'not a comment'), g.loc())
    g = p.funcs.get('privcount.config.strip_onion_str')
    if g is not None:
        for st, c in engine(p, g).run(g):
            if c[0] == 'ret':
                v = T.strip(c[1])
                rep.ob(rule, 'onion lower case', v[0] != 'c' and any(x[0] == 'mcall' and x[2] == 'lower' for x in T.subterms(v)) or v[0] == 'c' and str(v[2]) == str(v[2]).lower(), 'an onion address is loaded as %s' % T.show(v)[:80], g.loc())
