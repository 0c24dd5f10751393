"""Abstract values of the path analysis: hashable tuples."""

def C(v):
    return ('c', type(v).__name__, v)

NONE, TRUE, FALSE = C(None), C(True), C(False)

def is_const(t):
    return t[0] == 'c'

def cval(t):
    return t[2]

def is_str(t):
    return t[0] == 'c' and isinstance(t[2], str)

def is_num(t):
    return t[0] == 'c' and isinstance(t[2], (int, float)) and not isinstance(t[2], bool)

def subterms(t):
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
                if x[0] == 'c':
                    continue
            for y in x:
                if isinstance(y, (tuple, frozenset)):
                    st.append(y)
        elif isinstance(x, frozenset):
            for y in x:
                if isinstance(y, (tuple, frozenset)):
                    st.append(y)

_mention_cache = {}

def mentions(t, sub):
    k = (t, sub)
    r = _mention_cache.get(k)
    if r is None:
        r = any(x == sub for x in subterms(t))
        _mention_cache[k] = r
    return r

def subst(t, old, new):
    if t == old:
        return new
    if isinstance(t, tuple):
        if t and t[0] == 'c':
            return t
        return tuple(subst(x, old, new) if isinstance(x, (tuple, frozenset)) else x for x in t)
    if isinstance(t, frozenset):
        return frozenset(subst(x, old, new) if isinstance(x, (tuple, frozenset)) else x for x in t)
    return t

def strip(t):
    """drop copy wrappers"""
    if not isinstance(t, tuple):
        if isinstance(t, frozenset):
            return frozenset(strip(x) for x in t)
        return t
    if t and t[0] == 'c':
        return t
    if t and t[0] == 'copy':
        return strip(t[1])
    return tuple(strip(x) if isinstance(x, (tuple, frozenset)) else x for x in t)

def show(t, d=0):
    if not isinstance(t, tuple) or not t:
        return str(t)
    k = t[0]
    if d > 14:
        return '...'
    s = lambda x: show(x, d + 1)
    if k == 'c':
        return repr(t[2])
    if k in ('self',):
        return 'self'
    if k == 'sym':
        return t[1]
    if k == 'attr':
        return '%s.%s' % (s(t[1]), t[2])
    if k == 'idx':
        return '%s[%s]' % (s(t[1]), s(t[2]))
    if k == 'call':
        return '%s(%s)' % (t[1] if isinstance(t[1], str) else s(t[1]), ', '.join([s(x) for x in t[2]] + ['%s=%s' % (a, s(b)) for a, b in t[3]]))
    if k == 'mcall':
        return '%s.%s(%s)' % (s(t[1]), t[2], ', '.join([s(x) for x in t[3]] + ['%s=%s' % (a, s(b)) for a, b in t[4]]))
    if k == 'bin':
        return '(%s %s %s)' % (s(t[2]), t[1], s(t[3]))
    if k == 'cmp':
        return '%s %s %s' % (s(t[2]), t[1], s(t[3]))
    if k == 'not':
        return 'not ' + s(t[1])
    if k == 'elem':
        return 'elem(%s)' % s(t[1])
    if k == 'len':
        return 'len(%s)' % s(t[1])
    if k in ('tuple', 'list', 'set'):
        return '%s(%s)' % (k, ', '.join(s(x) for x in t[1]))
    if k == 'copy':
        return 'copy(%s)' % s(t[1])
    if k == 'obj':
        return '<%s#%s>' % (t[1], t[2])
    if k in ('func', 'ext', 'builtin', 'class', 'mod'):
        return str(t[1])
    if k == 'bound':
        return '%s.<%s>' % (s(t[1]), t[2])
    return '%s(%s)' % (k, ', '.join(s(x) if isinstance(x, tuple) else str(x) for x in t[1:]))


def lead(t):
    """constant text a string term begins with"""
    t = strip(t)
    if t[0] == 'c' and isinstance(t[2], str):
        return t[2]
    if t[0] == 'bin' and t[1] == 'Add':
        a = strip(t[2])
        return lead(a) + (lead(t[3]) if is_const(a) else '')
    if t[0] == 'fmt':
        s = t[2] if isinstance(t[2], str) else t[2][2] if is_const(t[2]) else ''
        i = min([s.find(c) for c in ('{', '}', '%') if c in s] + [len(s)])
        return s[:i]
    if t[0] == 'mcall' and t[2] in ('rstrip', 'strip'):
        return lead(t[1]).strip()
    return ''
