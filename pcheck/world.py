"""Evaluation of path conditions in a world: an assignment of values to the atoms of terms. A world stands for all
inputs that are ordered (or spelt) like it: the conditions evaluated here compare, and do no arithmetic on the atoms."""
import json
import math
from . import terms as T


class Unknown(Exception):
    pass


class Raises(Exception):
    pass


PURE = {'float': float, 'int': int, 'long': int, 'str': str, 'len': len, 'math.isnan': math.isnan, 'isnan': math.isnan, 'math.isinf': math.isinf,
        'isinf': math.isinf, 'min': min, 'max': max, 'abs': abs, 'sorted': sorted, 'bool': bool, 'round': round, 'list': list, 'tuple': tuple,
        'set': set, 'enumerate': lambda x: list(enumerate(x)), 'range': lambda *a: list(range(*a)), 'xrange': lambda *a: list(range(*a)),
        'math.log': math.log, 'log': math.log, 'math.floor': math.floor, 'json.loads': json.loads, 'loads': json.loads}
METH = ('endswith', 'startswith', 'partition', 'rpartition', 'split', 'rsplit', 'strip', 'lower', 'upper', 'find', 'rfind', 'count', 'get', 'keys',
        'replace', 'index', 'items', 'iteritems', 'values', 'itervalues', 'iterkeys', 'join', 'format')


class World:
    def __init__(self, atoms, gconst=None, elem=None):
        self.atoms, self.gconst, self.elem = atoms, gconst or {}, elem

    def ev(self, t):
        t = T.strip(t)
        if t in self.atoms:
            return self.atoms[t]
        k = t[0]
        if k == 'c':
            return t[2]
        if k == 'gconst' and t[1] in self.gconst:
            return self.ev(self.gconst[t[1]])
        if k == 'idx':
            try:
                return self.ev(t[1])[self.ev(t[2])]
            except (KeyError, IndexError, TypeError):
                raise Unknown(T.show(t))
        if k == 'slice' and len(t) >= 4:
            a, b = [None if x in (None, T.NONE) else self.ev(x) for x in t[2:4]]
            return self.ev(t[1])[a:b]
        if k == 'len':
            return len(self.ev(t[1]))
        if k == 'tuple':
            return tuple(self.ev(x) for x in t[1])
        if k == 'fmt':
            a = [self.ev(x) for x in t[3]]
            kw = {n: self.ev(x) for n, x in (t[4] if len(t) > 4 else ())}
            f = self.ev(t[2]) if isinstance(t[2], tuple) else t[2]
            try:
                return f.format(*a, **kw) if t[1] == 'format' else f % (a[0] if len(a) == 1 and isinstance(a[0], (tuple, dict)) else tuple(a))
            except (IndexError, KeyError, TypeError, ValueError):
                raise Raises(T.show(t))
        if k == 'elem' and self.elem is not None:
            return self.elem(t[1])
        if k == 'call' and t[1] in PURE and not (len(t) > 3 and t[3]):
            a = [self.ev(x) for x in t[2]]
            try:
                return PURE[t[1]](*a)
            except (ValueError, OverflowError, TypeError):
                raise Raises(T.show(t))
        if k == 'mcall' and t[2] in METH and not (len(t) > 4 and t[4]):
            return getattr(self.ev(t[1]), {'iteritems': 'items', 'itervalues': 'values', 'iterkeys': 'keys'}.get(t[2], t[2]))(*[self.ev(x) for x in t[3]])
        if k == 'not':
            return not self.ev(t[1])
        if k in ('and', 'or'):
            vs = [self.ev(x) for x in (t[1] if isinstance(t[1], (tuple, frozenset)) and not isinstance(t[1][0], str) else t[1:])]
            return all(vs) if k == 'and' else any(vs)
        if k in ('cmp', 'truthy', 'isnone'):
            return self.fact(t)
        if k in ('min', 'max') and len(t) >= 3:
            return (min if k == 'min' else max)(self.ev(x) for x in t[-1])
        if k == 'neg':
            return -self.ev(t[1])
        if k == 'bin' and t[1] in ('Add', 'Sub', 'Mod', 'Mult', 'Pow'):
            a, b = self.ev(t[2]), self.ev(t[3])
            return a + b if t[1] == 'Add' else a - b if t[1] == 'Sub' else a * b if t[1] == 'Mult' else a ** b if t[1] == 'Pow' else a % b
        raise Unknown(T.show(t))

    def fact(self, k):
        if k[0] == 'isnone':
            return self.ev(k[1]) is None
        if k[0] == 'truthy':
            return bool(self.ev(k[1]))
        if k[0] == 'cmp':
            a, b = self.ev(k[2]), self.ev(k[3])
            op = k[1]
            if op == 'eq':
                return a == b
            if op == 'lt':
                return a < b
            if op == 'le':
                return a <= b
            if op == 'gt':
                return a > b
            if op == 'ge':
                return a >= b
            if op == 'in':
                return a in b
            if op in ('startswith', 'endswith'):
                return getattr(a, op)(b)
            if op == 'is':
                return a is b or a == b
        raise Unknown(str(k[0]))

    def possible(self, facts):
        """(may the path be taken in this world, conditions that the world does not decide)"""
        unk = []
        for k, v in facts.items():
            try:
                if self.fact(k) != v:
                    return False, []
            except Raises:
                return False, []
            except Unknown:
                unk.append(k)
        return True, unk
