"""Shared extraction for the SecureCounters properties."""
from ..util import *
from ..lin import *

MOD = ('attr', ('self', 'SecureCounters'), 'modulus')
COUNTERS = ('attr', ('self', 'SecureCounters'), 'counters')
ZERO = ('attr', ('self', 'SecureCounters'), 'zero_counters')
BINS = C('bins')


def uncopy1(t):
    return (t[1], t[2]) if t[0] == 'copy' else (t, None)


def struct_of(t):
    """(X, key, index term) when t denotes one bin of the counters structure X, else None"""
    if t[0] == 'elem':
        B, i = t[1], t
    elif t[0] == 'idx':
        B, i = t[1], t[2]
    elif t[0] == 'copy':
        r = struct_of(t[1])
        return r and (('copy', r[0], t[2]), r[1], r[2])
    else:
        return None
    B, u = uncopy1(B)
    if B[0] != 'idx' or B[2] != BINS:
        return None
    inner, u2 = uncopy1(B[1])
    u = u if u is not None else u2
    if inner[0] != 'idx':
        return None
    X = inner[1]
    if u is not None and X[0] != 'copy':
        X = ('copy', X, u)
    return X, inner[2], i


def bin_value(t):
    """(X, key, index) when t is the count (third item) of a bin of X"""
    if t[0] == 'copy':
        r = bin_value(t[1])
        return r and (('copy', r[0], t[2]), r[1], r[2])
    if t[0] == 'loopheap':
        # widened value of a bin across loop iterations
        if len(t) >= 5 and t[3] == '[]' and t[4] == C(2):
            return struct_of(t[2])
        return None
    if t[0] == 'idx' and t[2] == C(2):
        return struct_of(t[1])
    return None


def same_index(i, j):
    """two index terms that denote the same position of parallel bins (both arbitrary elements of the current iteration)"""
    def base(x):
        return 'it' if x[0] == 'elem' else x
    return i == j or base(i) == base(j) == 'it'


def whole(loops, X, strict=True):
    """the innermost loops run over every key of X and every bin of it"""
    ls = [strip(l[0]) for l in loops]
    if len(ls) < 2:
        return False
    k, b = ls[-2], ls[-1]
    sx = strip(X)
    if b[0] == 'tuple':      # zip
        b = b[1][0] if b[1] else b
    return k == sx and b[0] == 'idx' and b[2] == BINS and b[1][0] == 'idx' and b[1][1] == sx


def sc_engine(p, opaque, on_call, **k):
    SC = p.cls('SecureCounters')
    o = dict(assert_inline=False, keep_copies=True, raisers=lambda n: False, zero_iter=False)
    o.update(k)
    return Engine(p, inline=lambda g: sq(g) not in opaque and (g.cls is SC or g.mod is SC.mod and g.cls is None and g.name not in ('sample', 'noise', 'adjust_count_signed')),
                  on_call=on_call, **o)


T = 'counter.SecureCounters._tally_counter'


def is_bin_store(ev):
    return ev.kind == 'setitem' and ev.args[0] == C(2) and struct_of(ev.recv) is not None
