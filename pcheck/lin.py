"""Linear normal forms of integer terms, optionally modulo a term."""
from .terms import *

CASTS = ('int', 'long', 'float')


def uncast(t):
    """remove numeric casts everywhere"""
    if isinstance(t, frozenset):
        return frozenset(uncast(x) for x in t)
    if not isinstance(t, tuple) or not t or t[0] == 'c':
        return t
    if t[0] == 'call' and t[1] in CASTS and len(t[2]) == 1 and not t[3]:
        return uncast(t[2][0])
    return tuple(uncast(x) if isinstance(x, (tuple, frozenset)) else x for x in t)


def lin(t, mod=None):
    """-> dict atom->coefficient (None: constant term), modulo `mod` when given"""
    out = {}

    def add(k, c):
        out[k] = out.get(k, 0) + c
        if out[k] == 0:
            del out[k]

    def go(t, c):
        if is_num(t):
            add(None, c * t[2])
        elif t[0] == 'bin' and t[1] == 'Add':
            go(t[2], c)
            go(t[3], c)
        elif t[0] == 'bin' and t[1] == 'Sub':
            go(t[2], c)
            go(t[3], -c)
        elif t[0] == 'un' and t[1] == 'USub':
            go(t[2], -c)
        elif t[0] == 'bin' and t[1] == 'Mult' and is_num(t[2]):
            go(t[3], c * t[2][2])
        elif t[0] == 'bin' and t[1] == 'Mult' and is_num(t[3]):
            go(t[2], c * t[3][2])
        elif t[0] == 'bin' and t[1] == 'Mod' and mod is not None and t[3] == mod:
            go(t[2], c)
        else:
            add(t, c)
    go(uncast(t), 1)
    if mod is not None:
        out.pop(mod, None)
    return out


def reduced(t, mod):
    """t is syntactically a residue: x % mod"""
    t = uncast(t)
    return t[0] == 'bin' and t[1] == 'Mod' and t[3] == mod


def factors(t):
    """(coefficient constants, sorted numerator factors, sorted denominator factors) of a product term"""
    num, den = [], []

    def go(t, up):
        if t[0] == 'bin' and t[1] == 'Mult':
            go(t[2], up)
            go(t[3], up)
        elif t[0] == 'bin' and t[1] == 'Div':
            go(t[2], up)
            go(t[3], not up)
        elif is_num(t) and t[2] == 1:
            pass
        else:
            (num if up else den).append(t)
    go(uncast(t), True)
    for x in list(num):
        if x in den:
            num.remove(x)
            den.remove(x)
    return sorted(num, key=repr), sorted(den, key=repr)
