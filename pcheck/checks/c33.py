"""C33: the bin and the amount of every increment of a counter, as terms over the observation, against what
the counter's name says is counted; the helpers that turn observations into quantities are decided too."""
from ..meaning import *
from ..counting import *
from .c32 import increments
from .. import fields


def roots(c, what):
    return [f for f in c.p.funcs.values() if f.cls is c.cl and role(c.p, f) == what]


def is_float_of(t, n):
    while t[0] == 'call' and t[1] in ('float', 'int') and len(t[2]) == 1:
        t = t[2][0]
    return t == ('sym', n)


def zero_of(a, n):
    """does the atom say parameter n is 0 (True), is not (False)"""
    k, t = a[0], a[1]
    if not is_float_of(t, n):
        return None
    if k == 'eq' and a[2][2] == 0:
        return True
    if k == 'truthy':
        return False
    if k == 'lt' and a[2] in (0, 1) or k == 'le' and a[2] == 0:
        return a[2] == 1 or k == 'le' or None      # not negative: < 1 and <= 0 are "zero" for counts
    return None


def ratio(rep, p, c, fn):
    """log2(out / in), finite everywhere"""
    pars = [x for x in fn.params if x not in ('self', 'cls')]
    ga = Guarded(p, c.cl)
    res = ga.run(fn, {})
    if len(pars) != 2:
        rep.ob('ratio', fn.qual, False, 'the ratio is not computed from two amounts', fn.loc(fn.node))
        return
    i, o = pars
    want = {(True, True): 'zero', (True, False): 'big', (False, True): 'small', (False, False): 'log'}
    for iz, oz in want:
        got = []
        for g, t in res:
            ok = True
            for a, v in g.items():
                for n, z in ((i, iz), (o, oz)):
                    x = zero_of(a, n)
                    if x is not None and (x == v) != z:
                        ok = False
            if ok:
                got.append(t)
        w = want[iz, oz]
        good = bool(got) and all(fits(t, w, i, o) for t in got)
        rep.ob('ratio', '%s in=%s out=%s' % (fn.name, '0' if iz else '>0', '0' if oz else '>0'), good,
               'the ratio of %s inbound and %s outbound is %s' % ('no' if iz else 'some', 'no' if oz else 'some', [show(t) for t in got] or 'undefined'), fn.loc(fn.node))


def fits(t, w, i, o):
    x = t
    while x[0] == 'call' and x[1] == 'float' and len(x[2]) == 1:
        x = x[2][0]
    if w == 'zero':
        return num_c(x) and x[2] == 0
    if w in ('big', 'small'):
        if num_c(x):
            return (x[2] > 100 if w == 'big' else x[2] < -100) and abs(x[2]) != float('inf')
        neg = x[0] == 'un' and x[1] == 'USub'
        s = show(x[2] if neg else x).split('.')[-1].strip("')")
        return not neg and s == ('max_exp' if w == 'big' else 'min_exp') or neg and w == 'small' and s == 'max_exp'
    if x[0] == 'un' and x[1] == 'USub':
        x, i, o = x[2], o, i
    if x[0] == 'bin' and x[1] == 'Div' and logof(x[2]) is not None and x[3] == ('call', 'math.log', (C(2),), ()):
        return quot(logof(x[2]), i, o)
    return x[0] == 'call' and x[1] == 'math.log' and len(x[2]) == 2 and num_c(x[2][1]) and x[2][1][2] == 2 and quot(x[2][0], i, o)


def logof(t):
    return t[2][0] if t[0] == 'call' and t[1] == 'math.log' and len(t[2]) == 1 else None


def quot(t, i, o):
    # (one of them a float: dividing integers would round)
    return t[0] == 'bin' and t[1] == 'Div' and is_float_of(t[2], o) and is_float_of(t[3], i) and any(x[0] == 'call' and x[1] == 'float' for x in t[2:])


def gaps(rep, p, fn):
    """differences of neighbours of the sorted times: the subtraction is of consecutive elements, of every
    pair, and the list is sorted before"""
    ps = [x for x in fn.params if x not in ('self', 'cls')]
    t = ps[0]
    srt = {t: False}
    ok_sort, subs, iters = False, [], []
    names = {t}
    for n in ast.walk(fn.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'sort' and ast.unparse(n.func.value) in names and not n.args and not n.keywords:
            ok_sort = True
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and ast.unparse(n.value.func) == 'sorted' and len(n.value.args) == 1 and not n.value.keywords and ast.unparse(n.value.args[0]) in names:
            ok_sort = True
            names |= {x.id for x in n.targets if isinstance(x, ast.Name)}
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Sub) and not (isinstance(n.right, ast.Constant)):
            subs.append(n)
    rep.ob('gaps', 'sorted', ok_sort, 'the creation times are not sorted before their differences are taken', fn.loc(fn.node))
    good = False
    for s in subs:
        a, b = s.left, s.right
        if isinstance(a, ast.Subscript) and isinstance(b, ast.Subscript) and ast.unparse(a.value) in names and ast.unparse(b.value) in names:
            good = ast.unparse(a.slice) == ast.unparse(b.slice) + ' + 1' or ast.unparse(b.slice) == ast.unparse(a.slice) + ' - 1'
        elif isinstance(a, ast.Name) and isinstance(b, ast.Name):
            good = pairs(fn, names, a.id, b.id)
        elif isinstance(a, ast.Name) and isinstance(b, ast.Subscript) or isinstance(b, ast.Name) and isinstance(a, ast.Subscript):
            good = False
        if not good:
            break
    rep.ob('gaps', 'neighbours', good, 'the differences are not those of each time and the one before it', fn.loc(subs[0]) if subs else fn.loc(fn.node))
    rep.ob('gaps', 'all', whole(fn, names), 'not every pair of neighbours is used', fn.loc(fn.node))


def pairs(fn, names, later, earlier):
    """for earlier, later in zip(t, t[1:]), or earlier = previous element kept by the loop"""
    for n in ast.walk(fn.node):
        it, tg = (n.iter, n.target) if isinstance(n, (ast.For, ast.comprehension)) else (None, None)
        if it is None:
            continue
        if isinstance(it, ast.Call) and ast.unparse(it.func).split('.')[-1] in ('zip', 'izip') and len(it.args) == 2 and isinstance(tg, (ast.Tuple, ast.List)):
            a, b = [ast.unparse(x) for x in it.args]
            x, y = [ast.unparse(z) for z in tg.elts]
            if a in names and b in ('%s[1:]' % a,) and (x, y) == (earlier, later):
                return True
            if a in names and b == '%s[:-1]' % a:
                return False
            if b in names and a in ('%s[1:]' % b,) and (x, y) == (later, earlier):
                return True
        if isinstance(n, ast.For) and isinstance(tg, ast.Name) and tg.id == later:
            last = n.body[-1]
            if isinstance(last, ast.Assign) and ast.unparse(last.targets[0]) == earlier and ast.unparse(last.value) == later:
                return True
    return False


def whole(fn, names):
    """the loops run over everything: no stops inside, no shortened ranges"""
    for n in ast.walk(fn.node):
        if isinstance(n, ast.Break):
            return False
        if isinstance(n, ast.Call) and ast.unparse(n.func) in ('range', 'xrange'):
            a = [ast.unparse(x) for x in n.args]
            full = ['len(%s)' % x for x in names]
            if a and not (len(a) == 1 and (a[0] in full or a[0] in [x + ' - 1' for x in full]) or len(a) == 2 and a[0] in ('0', '1') and (a[1] in full or a[0] == '0' and a[1] in [x + ' - 1' for x in full])):
                return False
        if isinstance(n, ast.If) and any(isinstance(x, ast.Continue) for x in n.body) and ast.unparse(n.test) not in ('i == 0', 'not i', 'i < 1') and not first(n.test):
            return False
        if isinstance(n, ast.comprehension) and n.ifs:
            return False
    return True


def first(t):
    """is the test one that holds for the first element only"""
    return isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and isinstance(t.comparators[0], ast.Constant) and \
        (isinstance(t.ops[0], ast.Eq) and t.comparators[0].value == 0 or isinstance(t.ops[0], ast.Lt) and t.comparators[0].value == 1 or isinstance(t.ops[0], ast.Is) and t.comparators[0].value is None)


def check(p, rep):
    rep.rule('bin', 'the bin each increment uses is the observed quantity the counter\'s name states', 1251)
    rep.rule('amount', 'the amount each increment adds is the one the counter\'s name states', 1251)
    rep.rule('ratio', 'the logarithmic ratio of two amounts is finite and has the documented value in each of its cases', 1)
    rep.rule('gaps', 'inter-stream times are the differences of neighbours of the sorted creation times', 1)
    rep.rule('value', 'what is read from a tagged field is the value its text stands for, or the default if it is absent', 5)
    c = increments(p)
    tab, dup = table(p)
    for n in sorted(tab):
        m = meaning(n, tab[n])
        if m is None:
            continue
        ev, f, pieces = m
        recs = c.by.get((ev, n), [])
        if not recs:
            continue
        wrong = {'bin': None, 'amount': None}
        for i, g, _ in recs:
            b, a = i.args.get('bin'), i.args.get('inc')
            for cond, wb, wa in pieces:
                if b == wb and a == wa:
                    continue
                if cond is not True:
                    t = Table(set(g) | atoms_of(cond), CAN[ev])
                    if not t.set(g) & t.formula(cond):
                        continue
                for k, x, w in (('bin', b, wb), ('amount', a, wa)):
                    if x != w and not same(x, w, g) and wrong[k] is None:
                        wrong[k] = (i, x, w)
        for k in ('bin', 'amount'):
            w = wrong[k]
            rep.ob(k, n, w is None, w and '%s: the %s is %s, not %s' % (n, k, show(w[1])[:160] if w[1] else 'missing', show(w[2])[:160]) or '', w[0].loc if w else recs[0][0].loc)
    for f in roots(c, 'log_ratio'):
        ratio(rep, p, c, f)
    for f in roots(c, 'gaps'):
        gaps(rep, p, f)
    fields.values(p, rep, 'value')


def same(x, w, g):
    """equal where the condition holds"""
    for s, t in ((x, w), (w, x)):
        if s is not None and s[0] == 'c' and t is not None and any(v and a[0] == 'eq' and a[1] == t and a[2] == s or v and a[0] == 'isnone' and a[1] == t and s == NONE for a, v in g.items()):
            return True
    return False
