"""What each counter name says is counted: the event, the condition on the observation, and the bin and
amount.  Written from doc/CounterDefinitions.markdown and doc/TorEvents.markdown, over the atoms and terms
of the guarded evaluation; nothing here looks at how the handlers are written."""
import re
from .guard import *

STREAM, CIRCUIT, CONN = 'PRIVCOUNT_STREAM_ENDED', 'PRIVCOUNT_CIRCUIT_CLOSE', 'PRIVCOUNT_CONNECTION_CLOSE'
STORE, FETCH = 'PRIVCOUNT_HSDIR_CACHE_STORE', 'PRIVCOUNT_HSDIR_CACHE_FETCH'
PACKETS, STREAMS = 'PRIVCOUNT_VITERBI_PACKETS', 'PRIVCOUNT_VITERBI_STREAMS'
TIMER = 'timer'
SINGLE = ('gconst', 'privcount.data_collector.SINGLE_BIN')
ONE = C(1)
INF = C(float('inf'))
SELF = ('self',)


def slf(a):
    return ('attr', SELF, a)


def F(kind, name, d=NONE):
    return ('F', kind, name, d)


def call(n, *a):
    return ('call', n, tuple(a), ())


def item(i):
    return ('idx', ('sym', 'event'), C(i))


def total(*ts):
    return ('sum', tuple(sorted(ts, key=repr)))


def AND(*a):
    return ('and',) + a


def OR(*a):
    return ('or',) + a


def NOT(a):
    return ('not', a)


def flag(n):
    return ('truthy', F('flag', n))


def absent(t):
    return ('isnone', t)


def eq(t, v):
    return ('eq', t, v if isinstance(v, tuple) else C(v))


def cells(d):
    return ('max', 'max', tuple(sorted((F('int', d + w + 'CellCount', C(0)) for w in ('Received', 'Sent', 'Exit')), key=repr)))


def idx(t, *ks):
    for k in ks:
        t = ('idx', t, k)
    return t


def match_bin(objs, t, md5=False):
    return ('match_bin', objs, t, md5)


# -------------------------------------------------------------------- streams
PORT, RD, WR = call('int', item(4)), call('int', item(5)), call('int', item(6))
T0, T1 = call('float', item(7)), call('float', item(8))
HOST, ADDR, NTH = item(9), item(10), call('int', item(11))
WEB = OR(eq(PORT, 80), eq(PORT, 443))
INTERACTIVE = ('truthy', ('class', 'Interactive'))
P2P = ('truthy', ('class', 'P2P'))
STREAM_BASE = AND(NOT(('lt', RD, 0)), NOT(('lt', WR, 0)), NOT(('lt', total(RD, WR), 1)))
CLASS = {'Web': WEB, 'Interactive': AND(INTERACTIVE, NOT(WEB)), 'P2P': AND(P2P, NOT(WEB), NOT(INTERACTIVE)), 'OtherPort': AND(NOT(P2P), NOT(WEB), NOT(INTERACTIVE))}
IPOF = lambda t: call('privcount.config.validate_ip_address', t)
V = lambda t, n: AND(NOT(absent(IPOF(t))), eq(('attr', IPOF(t), 'version'), n))
EXACT = match_bin(slf('domain_exact_objs'), HOST)
SUFFIX = call('privcount.match.suffix_match', slf('domain_suffix_obj'), HOST, C('.'))
NEED_E, NEED_S = ('truthy', slf('needs_domain_exact_match')), ('truthy', slf('needs_domain_suffix_match'))
USE_E = AND(NEED_E, NOT(eq(EXACT, INF)))
HOSTNAME = AND(NOT(V(HOST, 4)), NOT(V(HOST, 6)))
WORDS = {'IPv4': V(ADDR, 4), 'IPv6': V(ADDR, 6), 'IPv4Literal': V(HOST, 4), 'IPv6Literal': V(HOST, 6), 'Hostname': HOSTNAME,
         'Initial': eq(NTH, 1), 'Subsequent': NOT(eq(NTH, 1)), 'NonWeb': NOT(WEB),
         'DomainExactMatch': AND(NEED_E, eq(EXACT, 0)), 'DomainNoExactMatch': AND(NEED_E, NOT(eq(EXACT, 0))),
         'DomainSuffixMatch': AND(NEED_S, OR(AND(USE_E, eq(EXACT, 0)), AND(NOT(USE_E), eq(SUFFIX, 0)))),
         'DomainNoSuffixMatch': AND(NEED_S, NOT(OR(AND(USE_E, eq(EXACT, 0)), AND(NOT(USE_E), eq(SUFFIX, 0)))))}
WORDS.update(CLASS)
SW = re.compile('|'.join(sorted(WORDS, key=len, reverse=True)))
SQ = re.compile(r'^Exit(?!Circuit)(\w*?)Stream(Count|ByteCount|InboundByteCount|OutboundByteCount|ByteHistogram|InboundByteHistogram|OutboundByteHistogram|ByteRatio|LifeTime|(?:|Byte|InboundByte|OutboundByte)CountList)$')


def split(w, rx):
    out, i = [], 0
    while i < len(w):
        m = rx.match(w, i)
        if not m:
            return None
        out.append(m.group(0))
        i = m.end()
    return out


def quantity(q, amounts, special):
    """-> [(condition, bin, inc)]"""
    if q in special:
        return special[q]
    m = re.match(r'^(\w*?)(Count|Histogram)$', q)
    if m and m.group(1) in amounts:
        v = amounts[m.group(1)]
        if m.group(2) == 'Count':
            return [(True, SINGLE, v)]
        if m.group(1):
            return [(True, v, ONE)]
    return None


def stream(n):
    m = SQ.match(n)
    if not m:
        return None
    ws = split(m.group(1), SW)
    if ws is None:
        return None
    q = m.group(2)
    amounts = {'': ONE, 'Byte': total(RD, WR), 'InboundByte': RD, 'OutboundByte': WR}
    f = [STREAM_BASE] + [WORDS[w] for w in ws]
    dom = [w for w in ws if w.startswith('Domain')]
    special = {'ByteRatio': [(True, call('log_ratio', RD, WR), ONE)], 'LifeTime': [(True, ('bin', 'Sub', T1, T0), ONE)]}
    if dom:
        if 'Web' not in ws or 'Initial' not in ws:
            return None
        f.append(HOSTNAME)
        if q.endswith('CountList'):
            v = amounts[q[:-9]]
            if dom[0] == 'DomainExactMatch':
                f[1 + ws.index(dom[0])] = NEED_E
                special[q] = [(True, EXACT, v)]
            elif dom[0] == 'DomainSuffixMatch':
                f[1 + ws.index(dom[0])] = NEED_S
                special[q] = [(USE_E, EXACT, v), (AND(NOT(USE_E), absent(SUFFIX)), INF, v), (AND(NOT(USE_E), NOT(absent(SUFFIX))), SUFFIX, v)]
            else:
                return None
    elif q.endswith('CountList'):
        return None
    return STREAM, AND(*f), quantity(q, amounts, special)


# -------------------------------------------------------------------- circuits
IN, OUT = cells('Inbound'), cells('Outbound')
BUSY = NOT(('lt', total(IN, OUT), 8))
VER = F('int', 'HiddenServiceVersionNumber')
FAIL = F('string', 'FailureReasonString')
SIDE = F('flag', 'IsHSClientSideFlag')
LIFE = ('bin', 'Sub', F('float', 'EventTimestamp'), F('float', 'CreatedTimestamp'))
ENDS = ['IsExitFlag', 'IsDirFlag', 'IsHSDirFlag', 'IsIntroFlag', 'IsRendFlag']
ONEHOP = AND(flag('IsEntryFlag'), flag('IsEndFlag'))
POS = {w: flag('Is%sFlag' % w) for w in ('Origin', 'Entry', 'Mid', 'End', 'Exit', 'Dir', 'HSDir', 'Intro', 'Rend')}
POS['SingleHop'] = ONEHOP
ACTIVE = OR(flag('IsExitFlag'), flag('IsDirFlag'), flag('IsHSDirFlag'), AND(NOT(AND(OR(flag('IsIntroFlag'), flag('IsRendFlag')), absent(VER))), BUSY))
CLIENT, SERVICE = ('truthy', SIDE), AND(NOT(absent(SIDE)), NOT(('truthy', SIDE)))
ROLE = {'Client': CLIENT, 'Service': SERVICE, 'MultiHopClient': AND(CLIENT, NOT(ONEHOP)), 'Tor2WebClient': AND(CLIENT, ONEHOP),
        'MultiHopService': AND(SERVICE, NOT(ONEHOP)), 'SingleOnionService': AND(SERVICE, ONEHOP)}
VERS = {'U': absent(VER), '2': eq(VER, 2), '3': eq(VER, 3)}
CQ = re.compile(r'^(Origin|Entry|Mid|End|SingleHop|Exit|Dir|HSDir|Intro|Rend)(U|2|3)?(MultiHopClient|Tor2WebClient|MultiHopService|SingleOnionService|Client|Service)?(Active|Inactive)?(Success|Failure)?'
                r'Circuit(Count|InboundCellCount|OutboundCellCount|InboundCellHistogram|OutboundCellHistogram|CellRatio|LifeTime|ReasonCountList)$')


def circuit(n):
    m = re.match('^ExitAndRend2(Client|Service)CircuitCount$', n)
    if m:
        return CIRCUIT, OR(flag('IsExitFlag'), AND(flag('IsRendFlag'), VERS['2'], ROLE[m.group(1)])), [(True, SINGLE, ONE)]
    m = CQ.match(n)
    if not m:
        return None
    pos, ver, role, act, res, q = m.groups()
    f = [POS[pos]]
    if ver:
        f.append(VERS[ver])
    if role:
        f.append(ROLE[role])
    if act:
        f.append(ACTIVE if act == 'Active' else NOT(ACTIVE))
    if res:
        f.append(absent(FAIL) if res == 'Success' else NOT(absent(FAIL)))
    special = {'CellRatio': [(True, call('log_ratio', IN, OUT), ONE)], 'LifeTime': [(True, LIFE, ONE)],
               'ReasonCountList': [(True, match_bin(slf('circuit_failure_exact_objs'), FAIL), ONE)]}
    if q == 'CellRatio':
        f.append(ACTIVE)
    if q == 'ReasonCountList':
        f.append(NOT(absent(FAIL)))
    return CIRCUIT, AND(*f), quantity(q, {'': ONE, 'InboundCell': IN, 'OutboundCell': OUT}, special)


# exit circuits, with what their streams left behind
CHAN, CIRC = F('int', 'PreviousChannelId'), F('int', 'PreviousCircuitId')
KNOWN_CIRC = AND(('in', CHAN, slf('circ_info')), ('in', CIRC, idx(slf('circ_info'), CHAN)))
LEGACY = flag('IsLegacyCircuitEndEventFlag')
LEGACY_EXIT = AND(LEGACY, NOT(flag('IsEntryFlag')), flag('IsExitFlag'))
NUM = idx(slf('circ_info'), CHAN, CIRC, C('num_streams'))
TIMES = idx(slf('circ_info'), CHAN, CIRC, C('stream_starttimes'))
NALL = call('sum', ('mcall', NUM, 'values', (), ()))
HAS = AND(LEGACY_EXIT, KNOWN_CIRC, NOT(('lt', NALL, 1)))
LQ = re.compile(r'^Exit(?:(Web|Interactive|P2P|OtherPort)(CircuitCount)|Circuit(Web|Interactive|P2P|OtherPort)?(StreamHistogram|InterStreamCreationTime))$')


def elem(t):
    return ('elem', call('gaps', t))


def exit_circuit(n):
    m = LQ.match(n)
    if not m:
        return None
    w, q = m.group(1) or m.group(3), m.group(2) or m.group(4)
    f = HAS
    if w:
        f = AND(f, NOT(('lt', idx(NUM, C(w)), 1)))
        num, times = idx(NUM, C(w)), idx(TIMES, C(w))
    else:
        num, times = NALL, total(*[idx(TIMES, C(x)) for x in CLASS])
    return CIRCUIT, f, {'CircuitCount': [(True, SINGLE, ONE)], 'StreamHistogram': [(True, num, ONE)], 'InterStreamCreationTime': [(True, elem(times), ONE)]}[q]


# entry clients: counted when the window rotates
PREV = slf('cli_ips_previous')
CLI = idx(PREV, ('elem', PREV))


def entry_clients(n):
    act = ('truthy', idx(CLI, C('is_active')))
    num = lambda v: ('counted', PREV, v)
    r = {'EntryClientIPCount': [(True, SINGLE, num('all'))], 'EntryActiveClientIPCount': [(True, SINGLE, num(True))], 'EntryInactiveClientIPCount': [(True, SINGLE, num(False))],
         'EntryClientIPActiveCircuitHistogram': [(True, ('mcall', CLI, 'get', (C('num_active_completed'), C(0)), ()), ONE)],
         'EntryClientIPInactiveCircuitHistogram': [(True, ('mcall', CLI, 'get', (C('num_inactive_completed'), C(0)), ()), ONE)]}.get(n)
    return (TIMER, True, r) if r else None


# -------------------------------------------------------------------- connections
COUNTRY = match_bin(slf('country_exact_objs'), F('string', 'RemoteCountryCode', C('!!')))
RIP = F('ipobj', 'RemoteIPAddress')
ASBIN = match_bin(slf('as_exact_objs'), call('privcount.match.ipasn_prefix_match', ('mcall', slf('as_prefix_map_objs'), 'get', (('attr', RIP, 'version'),), ()), RIP))
NQ = re.compile(r'^(Entry|NonEntry)(RelayOnAddress|NoRelayOnAddress)?Connection(CountryMatch|CountryNoMatch|ASMatch|ASNoMatch)?'
                r'((?:Inbound|Outbound)?(?:Byte|Circuit)(?:CountList|Count|Histogram)|CountList|Count|LifeTime|OverlapHistogram)$')


def connection(n):
    m = NQ.match(n)
    if not m:
        return None
    ent, shared, mt, q = m.groups()
    e = flag('RemoteIsClientFlag')
    f = [e if ent == 'Entry' else NOT(e)]
    few = ('lt', F('int', 'PeerIPAddressConsensusRelayCount'), 1)
    if shared:
        f.append(NOT(few) if shared == 'RelayOnAddress' else few)
    amounts = {'': ONE}
    for w in ('Byte', 'Circuit'):
        i, o = F('int', 'Inbound%sCount' % w, C(0)), F('int', 'Outbound%sCount' % w, C(0))
        amounts.update({w: total(i, o), 'Inbound' + w: i, 'Outbound' + w: o})
    special = {'LifeTime': [(True, LIFE, ONE)], 'OverlapHistogram': [(True, F('int', 'RemoteIPAddressConnectionCount'), ONE)]}
    if mt:
        b = COUNTRY if mt.startswith('Country') else ASBIN
        if q.endswith('CountList'):
            if 'NoMatch' in mt:
                return None
            special[q] = [(True, b, amounts[q[:-9]])]
        else:
            if q.endswith('Count'):
                return None
            f.append(NOT(eq(b, 0)) if 'NoMatch' in mt else eq(b, 0))
    elif q.endswith('CountList'):
        return None
    return CONN, AND(*f), quantity(q, amounts, special)


# -------------------------------------------------------------------- onion service directories
AUTH = F('flag', 'RequiresClientAuthFlag')
ADDRESS = F('string', 'OnionAddress')
HQ = re.compile(r'^HSDir(2|3)?(Store|Fetch)(Add|Reject)?(Cached|Uncached)?(ClientAuth|NoClientAuth)?'
                r'(Count|DescriptorByteCount|DescriptorByteHistogram|IntroByteCount|IntroByteHistogram|IntroPointHistogram|RevisionHistogram|UploadDelayTime|ReasonCountList|OnionAddressCountList)$')


def hsdir(n):
    m = HQ.match(n)
    if not m:
        return None
    ver, what, added, cached, auth, q = m.groups()
    f = []
    if ver:
        f.append(VERS[ver])
    if added:
        if what == 'Fetch':
            return None
        f.append(flag('WasAddedToCacheFlag') if added == 'Add' else NOT(flag('WasAddedToCacheFlag')))
    if cached:
        c = flag('HasExistingCacheEntryFlag' if what == 'Store' else 'HasCacheEntryFlag')
        f.append(c if cached == 'Cached' else NOT(c))
    if auth:
        f.append(AND(NOT(absent(AUTH)), ('truthy', AUTH) if auth == 'ClientAuth' else NOT(('truthy', AUTH))))
    need = {'Descriptor': F('int', 'EncodedDescriptorByteCount'), 'IntroByte': F('int', 'EncodedIntroPointByteCount'), 'IntroPoint': F('int', 'IntroPointCount'),
            'Revision': F('int', 'RevisionNumber'), 'UploadDelay': F('float', 'DescriptorCreationTime'), 'OnionAddress': ADDRESS}
    for k, t in need.items():
        if q.startswith(k):
            f.append(NOT(absent(t)))
    d, i = need['Descriptor'], need['IntroByte']
    return (STORE if what == 'Store' else FETCH), AND(*f), {
        'Count': [(True, SINGLE, ONE)], 'DescriptorByteCount': [(True, SINGLE, d)], 'DescriptorByteHistogram': [(True, d, ONE)],
        'IntroByteCount': [(True, SINGLE, i)], 'IntroByteHistogram': [(True, i, ONE)], 'IntroPointHistogram': [(True, need['IntroPoint'], ONE)],
        'RevisionHistogram': [(True, need['Revision'], ONE)],
        'UploadDelayTime': [(True, ('bin', 'Sub', F('float', 'EventTimestamp'), need['UploadDelay']), ONE)],
        'ReasonCountList': [(True, match_bin(slf('hsdir_store_exact_objs' if what == 'Store' else 'hsdir_fetch_exact_objs'), F('string', 'CacheReasonString')), ONE)],
        'OnionAddressCountList': [(True, match_bin(slf('onion_address_exact_objs'), ADDRESS, True), ONE)]}[q]


def meaning(n, events):
    """-> (where it is counted, condition, [(condition, bin, inc)]), or None"""
    if 'TrafficModel' in n:
        return None
    if events == {STREAM, CIRCUIT}:
        return exit_circuit(n)
    if events == {STREAM}:
        return stream(n)
    if events == {CIRCUIT}:
        return entry_clients(n) or circuit(n)
    if events == {CONN}:
        return connection(n)
    if events in ({STORE}, {FETCH}):
        r = hsdir(n)
        return r if r and {r[0]} == events else None
    return None


# -------------------------------------------------------------------- what can be observed
LEGACY_FIELDS = {'PreviousChannelId', 'PreviousCircuitId', 'InboundExitByteCount', 'OutboundExitByteCount', 'CreatedTimestamp', 'EventTimestamp'}

V2_FIELDS = {'OnionAddress', 'DescriptorCreationTime', 'RequiresClientAuthFlag', 'IntroPointCount', 'CacheLastServedTime'}
V3_FIELDS = {'RevisionNumber', 'CacheCreatedTime'}


def can(ev):
    """the rows that can occur in this event: assumptions about tor"""
    ends = {flag(x) for x in ENDS}

    def keep(row):
        vs = [row[a] for a in (VERS['2'], VERS['3']) if a in row]
        none = row.get(VERS['U'])
        if ev == CIRCUIT:
            if sum(1 for a in ends if row.get(a)) > 1:
                return False            # "Exactly one of these should be true, except for unused preemptive circuits"
            if len(vs) == 2 and not any(vs) and none is False:
                return False            # the version is absent, 2 or 3 (is_hs_version_valid)
            if any(a[0] == 'isnone' and v and a[1][0] == 'F' and a[1][2] in LEGACY_FIELDS for a, v in row.items()):
                return False            # tor sends these fields in every circuit event
        elif ev in (STORE, FETCH):
            if len(vs) == 2 and not any(vs) or none:
                return False            # the version is 2 or 3 (is_hs_version_valid)
            two, three = row.get(VERS['2']), row.get(VERS['3'])
            for a, v in row.items():
                if a[0] == 'isnone' and not v and a[1][0] == 'F':
                    if a[1][2] in V2_FIELDS and (three or two is False) or a[1][2] in V3_FIELDS and (two or three is False):
                        return False    # is_allowed_version_valid
        elif ev == STREAM:
            if row.get(P2P) and (row.get(INTERACTIVE) or row.get(eq(PORT, 80)) or row.get(eq(PORT, 443))) or row.get(INTERACTIVE) and (row.get(eq(PORT, 80)) or row.get(eq(PORT, 443))):
                return False            # the sets of ports are disjoint
            for t in (HOST, ADDR):
                n = row.get(absent(IPOF(t)))
                v = [row[a] for a in (eq(('attr', IPOF(t), 'version'), 4), eq(('attr', IPOF(t), 'version'), 6)) if a in row]
                if n and any(v) or n is False and len(v) == 2 and not any(v):
                    return False        # an address has version 4 or 6
            if ('truthy', NTH) in row and row.get(eq(NTH, 1)) not in (None, row[('truthy', NTH)]):
                return False
        return True
    return keep


CAN = {e: can(e) for e in (STREAM, CIRCUIT, CONN, STORE, FETCH, TIMER)}


# -------------------------------------------------------------------- the terms and atoms of the code, in these words
INTERACTIVE_PORTS = frozenset([22, 194, 994, 6679, 6697, 7000] + list(range(6660, 6671)))
P2P_PORTS = frozenset([1214, 6699, 45682, 51413] + list(range(4661, 4667)) + list(range(6346, 6430)) + list(range(6881, 7000)))
ISACT = ('truthy', idx(CLI, C('is_active')))


class Norm:
    def __init__(self, p2p=None):
        self.cache, self.p2p = {}, p2p

    def container(self, t):
        """(the mapping gone through, 'keys'|'values'|'items')"""
        if t[0] == 'call' and t[1] in ('list', 'sorted', 'iter') and len(t[2]) == 1:
            return self.container(t[2][0])
        if t[0] == 'mcall' and t[2] in ('keys', 'iterkeys', 'values', 'itervalues', 'items', 'iteritems') and not t[3]:
            return t[1], t[2].replace('iter', '')
        return t, 'keys'

    def term(self, t):
        if not isinstance(t, tuple) or not t or t[0] == 'c':
            return t
        r = self.cache.get(t)
        if r is None:
            r = self.cache[t] = self.one(t)
        return r

    def one(self, t):
        t = tuple(self.term(x) if isinstance(x, tuple) else frozenset(self.term(y) for y in x) if isinstance(x, frozenset) else x for x in t)
        k = t[0]
        if k == 'call':
            n = t[1].lstrip('!')
            if n == 'match_bin':
                kw = dict(t[3])
                md5 = t[2][2] if len(t[2]) > 2 else list(kw.values())[0] if kw else FALSE
                return ('match_bin', t[2][0], t[2][1], md5[2] if md5[0] == 'c' else md5)
            if n == 'len' and t[2] == (PREV,):
                return ('counted', PREV, 'all')
            return ('call', n) + t[2:]
        if k == 'mcall' and t[2] == 'get' and len(t[3]) == 1:
            return t
        if k == 'elem':
            c, how = self.container(t[1])
            if c is not t[1] or how != 'keys':
                e = ('elem', c)
                return e if how == 'keys' else idx(c, e) if how == 'values' else ('pair', c)
        if k == 'idx' and t[1][0] == 'pair':
            c = t[1][1]
            return ('elem', c) if t[2] == C(0) else idx(c, ('elem', c))
        if k == 'acc' and t[1] == C(0):
            c, how = self.container(t[2])
            if c == PREV:
                by = {}
                for g, v in t[3]:
                    by[g] = v
                gs = set(by)
                if all(v == ONE for v in by.values()):
                    lit = lambda v: frozenset([(ISACT, v)])
                    if gs == {lit(True)}:
                        return ('counted', PREV, True)
                    if gs == {lit(False)}:
                        return ('counted', PREV, False)
                    if gs in ({frozenset()}, {lit(True), lit(False)}):
                        return ('counted', PREV, 'all')
        if k == 'sum':
            c = [x for x in t[1] if x[0] == 'counted' and x[2] in (True, False) and isinstance(x[2], bool)]
            if {x[2] for x in c} == {True, False} and len(c) == 2:
                rest = [x for x in t[1] if x not in c] + [('counted', PREV, 'all')]
                return rest[0] if len(rest) == 1 else total(*rest)
            return total(*t[1])
        if k == 'bin' and t[1] == 'Sub' and t[2] == ('counted', PREV, 'all') and t[3][0] == 'counted' and isinstance(t[3][2], bool):
            return ('counted', PREV, not t[3][2])
        if k == 'max':
            return ('max', t[1], tuple(sorted(t[2], key=repr)))
        return t

    def atom(self, a, v):
        a = self.term(a)
        if a[0] == 'among' and a[1] == PORT:
            if a[2] == INTERACTIVE_PORTS:
                return INTERACTIVE, v
            if a[2] == P2P_PORTS:
                return P2P, v
        if a[0] == 'in' and a[1] == PORT and a[2][0] == 'call' and a[2][1] == 'p2p_ports' and self.p2p:
            return P2P, v
        return a, v

    def guard(self, g):
        """the condition without its context, and the context: (condition, [what is wrong with the context])"""
        out, bad = {}, []
        for a, v in g.items():
            a, v = self.atom(a, v)
            k = a[0]
            t = a[1] if len(a) > 1 else ()
            if k == 'eq' and t == item(0) or k == 'each':
                continue
            if k in ('lt', 'eq', 'truthy') and self.length(t) or k == 'truthy' and self.whole(t):
                continue
            if k in ('truthy', 'isnone') and t == slf('secure_counters'):
                if v is (k == 'isnone'):
                    bad.append('the counters are missing')
                continue
            if k == 'truthy' and t[0] == 'call' and t[1] == 'valid':
                if not v:
                    bad.append('the fields are not valid')
                continue
            if k == 'truthy' and t[0] == 'call' and t[1].split('.')[-1] in ('isnan', 'isinf') or k == 'eq' and "('call', 'float'," in str(t) and isinstance(a[2], tuple) and a[2][:2] == ('c', 'float') and a[2][2] in (float('inf'), float('-inf')):
                if v:
                    bad.append('a time is not a number')
                continue
            if k == 'truthy' and t[0] == 'call' and t[1].split('.')[-1] == 'parse_tagged_event':
                continue
            if out.get(a, v) != v:
                return None, bad
            out[a] = v
        return out, bad

    def length(self, t):
        return t[0] == 'call' and t[1] == 'len' and self.whole(t[2][0], True)

    def whole(self, t, calls=False):
        while t and (t[0] == 'slice' or calls and t[0] == 'call'):
            t = t[1] if t[0] == 'slice' else t[2][0] if t[2] else ()
        return t == ('sym', 'event')
