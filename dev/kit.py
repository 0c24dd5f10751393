"""Ready-made nodes on top of stubs.py (Python 2)."""
import sys, os, base64, logging, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs
reactor = stubs.install()
logging.disable(logging.CRITICAL)
import privcount.log, privcount.node, privcount.data_collector, privcount.share_keeper, privcount.protocol, privcount.counter, privcount.crypto
from privcount.crypto import get_public_digest_string
privcount.log.reactor = reactor

NOW = [1000000.0]
for m in (privcount.node, privcount.data_collector, privcount.share_keeper, privcount.protocol):
    m.time = lambda: NOW[0]


def key(n):
    return base64.b64encode('PUBLIC ' + n)


def digest(n):
    return get_public_digest_string('PUBLIC ' + n, is_private_key=False)


def advance(s):
    NOW[0] += s
    reactor.advance(s)


def common():
    return {'delay_period': 100.0, 'always_delay': False, 'sigma_decrease_tolerance': 1e-6, 'name': 'node',
            'tally_server_info': {'ip': '127.0.0.1', 'port': 1}, 'secret_handshake': '/nonexistent'}


def dc(sks=('a', 'b'), **k):
    d = privcount.data_collector.DataCollector('/nonexistent')
    d.config = dict(common(), share_keepers=[digest(s) for s in sks], event_source={'ip': '127.0.0.1', 'port': 2},
                    rotate_period=600, use_setconf=False, **k)
    return d


def sk():
    s = privcount.share_keeper.ShareKeeper('/nonexistent')
    d = tempfile.mkdtemp()
    p = os.path.join(d, 'key.pem')
    with open(p, 'w') as f:
        f.write('PRIVATE a')
    s.config = dict(common(), key=p)
    return s


COUNTERS = {'ExitStreamCount': {'bins': [[0.0, float('inf')]]},
            'ExitStreamByteHistogram': {'bins': [[0.0, 10.0], [10.0, float('inf')]]},
            'ZeroCount': {'bins': [[0.0, float('inf')]]}}


def start_config(sigma=2.0, sks=('a', 'b'), counters=COUNTERS, **k):
    c = {'counters': counters, 'noise': {'counters': dict((n, {'sigma': sigma}) for n in counters)},
         'noise_weight': {'*': 1.0}, 'dc_threshold': 1, 'collect_period': 60,
         'sharekeepers': dict((s, key(s)) for s in sks)}
    c.update(k)
    return c


class Recorder(object):
    """stands in for SecureCounters: what was incremented"""
    def __init__(self):
        self.got = []

    def increment(self, counter_name, bin=None, inc=1):
        self.got.append((counter_name, bin, inc))

    def of(self, name):
        return [(b, i) for n, b, i in self.got if n == name]

    def reset(self):
        self.got = []


def agg(counters=COUNTERS, lists=None, **k):
    a = dict(counters=counters, traffic_model_config=None, sk_uids=['a'], noise_weight={'*': 1.0}, modulus=privcount.counter.counter_modulus(),
             tor_control_port={'ip': '127.0.0.1', 'port': 2}, rotate_period=600, use_setconf=False, max_cell_events_per_circuit=-1, circuit_sample_rate=1.0,
             domain_lists=[], domain_suffixes={}, country_lists=[], as_data={}, hsdir_store_lists=[], hsdir_fetch_lists=[], circuit_failure_lists=[], onion_address_lists=[])
    a.update(k)
    g = privcount.data_collector.Aggregator(**a)
    g.secure_counters = Recorder()
    return g


def fields(d):
    return ['%s=%s' % (n, v) for n, v in sorted(d.items()) if v is not None]


def stream(g, port=80, read=10, written=20, start=10.0, end=12.0, host='example.com', ip='1.2.3.4', nth=1, chan=1, circ=2):
    """read, written: bytes the exit read from and wrote to the stream"""
    return g.handle_event(['PRIVCOUNT_STREAM_ENDED'] + [str(x) for x in (chan, circ, 3, port, read, written, start, end, host, ip, nth)])


def circuit(g, **k):
    d = dict(CreatedTimestamp='1.0', EventTimestamp='5.0', PreviousChannelId=1, PreviousCircuitId=2, PreviousNodeIPAddress='5.6.7.8',
             InboundSentCellCount=4, InboundReceivedCellCount=0, OutboundSentCellCount=0, OutboundReceivedCellCount=4,
             InboundExitByteCount=0, OutboundExitByteCount=0, InboundDirByteCount=0, OutboundDirByteCount=0, OnionHandshakeType=2,
             IsLegacyCircuitEndEventFlag=0, StateString='OPEN', PurposeCode=1)
    d.update(k)
    return g.handle_event(['PRIVCOUNT_CIRCUIT_CLOSE'] + fields(d))


def connection(g, **k):
    d = dict(ChannelId=1, CreatedTimestamp='1.0', EventTimestamp='5.0', RemoteIPAddress='5.6.7.8', RemoteIPAddressConnectionCount=1, PeerIPAddressConsensusRelayCount=0,
             RemoteIsClientFlag=1, InboundByteCount=100, OutboundByteCount=50, InboundCircuitCount=3, OutboundCircuitCount=2, RemoteCountryCode='ca')
    d.update(k)
    return g.handle_event(['PRIVCOUNT_CONNECTION_CLOSE'] + fields(d))


def hsdir(g, what='STORE', **k):
    d = dict(HiddenServiceVersionNumber=2, EventTimestamp='100.0', CacheReasonString='new', EncodedDescriptorByteCount=1000, EncodedIntroPointByteCount=400)
    d.update(dict(WasAddedToCacheFlag=1, HasExistingCacheEntryFlag=0) if what == 'STORE' else dict(CacheQueryByteCount=10, HasCacheEntryFlag=1))
    d.update(k)
    return g.handle_event(['PRIVCOUNT_HSDIR_CACHE_' + what] + fields(d))
