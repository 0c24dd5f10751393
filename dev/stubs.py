"""Stand-ins for the libraries missing under the test runtime, so that PrivCount's modules can be imported.
Python 2 (Jython). import stubs; stubs.install()"""
import sys, types, hashlib, hmac as _hmac, json, os, base64


def mod(name, **k):
    m = types.ModuleType(name)
    m.__dict__.update(k)
    sys.modules[name] = m
    parent, _, last = name.rpartition('.')
    if parent:
        if parent not in sys.modules:
            try:
                __import__(parent)
            except ImportError:
                mod(parent)
        setattr(sys.modules[parent], last, m)
    return m


class SHA256(object):
    digest_size = 32
    name = 'sha256'


class InvalidSignature(Exception):
    pass


class UnsupportedAlgorithm(Exception):
    pass


class HMAC(object):
    def __init__(self, key, algorithm, backend=None):
        self.h = _hmac.new(key, '', hashlib.sha256)

    def update(self, d):
        self.h.update(d)

    def finalize(self):
        return self.h.digest()

    def verify(self, sig):
        if self.h.digest() != sig:
            raise InvalidSignature()


class Fernet(object):
    """records the key beside the text: enough to check who can decrypt what"""
    def __init__(self, key):
        self.key = key

    @staticmethod
    def generate_key():
        return base64.urlsafe_b64encode(os.urandom(32))

    def encrypt(self, text):
        return base64.urlsafe_b64encode('F|%s|%s' % (hashlib.sha256(self.key).hexdigest(), text))

    def decrypt(self, token, ttl=None):
        f, k, text = base64.urlsafe_b64decode(token).split('|', 2)
        if k != hashlib.sha256(self.key).hexdigest():
            raise ValueError('wrong key')
        return text


class PublicKey(object):
    def __init__(self, n):
        self.n = n

    def encrypt(self, text, pad):
        return 'R|%s|%s' % (self.n, text)

    def public_bytes(self, **k):
        return 'PUBLIC ' + self.n


class PrivateKey(object):
    def __init__(self, n):
        self.n = n

    def public_key(self):
        return PublicKey(self.n)

    def decrypt(self, text, pad):
        r, n, t = text.split('|', 2)
        if n != self.n:
            raise ValueError('wrong key')
        return t

    def private_bytes(self, **k):
        return 'PRIVATE ' + self.n


class Anything(object):
    def __init__(self, *a, **k):
        pass

    def __getattr__(self, n):
        return Anything()

    def __call__(self, *a, **k):
        return Anything()


class FakeTransport(object):
    def __init__(self):
        self.lines, self.closed = [], False

    def write(self, d):
        self.lines += [x for x in d.split('\r\n') if x]

    def loseConnection(self):
        self.closed = True

    abortConnection = loseConnection

    def getPeer(self):
        return 'peer'

    def getHost(self):
        return 'host'


class LineOnlyReceiver(object):
    """Twisted's, without the import that fails here"""
    _buffer = ''
    delimiter = '\r\n'
    MAX_LENGTH = 16384
    transport = None

    def makeConnection(self, transport):
        self.transport = transport
        self.connectionMade()

    def connectionMade(self):
        pass

    def connectionLost(self, reason=None):
        pass

    def dataReceived(self, data):
        lines = (self._buffer + data).split(self.delimiter)
        self._buffer = lines.pop(-1)
        for line in lines:
            if self.transport.closed:
                return
            if len(line) > self.MAX_LENGTH:
                return self.lineLengthExceeded(line)
            self.lineReceived(line)
        if len(self._buffer) > self.MAX_LENGTH:
            return self.lineLengthExceeded(self._buffer)

    def sendLine(self, line):
        return self.transport.write(line + self.delimiter)

    def lineLengthExceeded(self, line):
        return self.transport.loseConnection()


def install():
    """-> the fake reactor (a task.Clock)"""
    mod('cryptography'), mod('cryptography.hazmat'), mod('cryptography.hazmat.primitives')
    mod('cryptography.hazmat.primitives.hashes', SHA256=SHA256, SHA1=SHA256)
    mod('cryptography.hazmat.primitives.hmac', HMAC=HMAC)
    mod('cryptography.hazmat.primitives.serialization', Encoding=Anything(), PublicFormat=Anything(),
        PrivateFormat=Anything(), NoEncryption=Anything, load_pem_private_key=lambda s, **k: PrivateKey(s.split()[1]),
        load_pem_public_key=lambda s, **k: PublicKey(s.split()[1]))
    mod('cryptography.hazmat.primitives.asymmetric')
    mod('cryptography.hazmat.primitives.asymmetric.padding', OAEP=Anything, MGF1=Anything)
    mod('cryptography.hazmat.primitives.asymmetric.rsa', generate_private_key=lambda **k: PrivateKey('gen'))
    mod('cryptography.x509')
    mod('cryptography.fernet', Fernet=Fernet)
    mod('cryptography.hazmat.backends', default_backend=Anything)
    mod('cryptography.exceptions', UnsupportedAlgorithm=UnsupportedAlgorithm, InvalidSignature=InvalidSignature)
    mod('pyasn', pyasn=Anything)
    import twisted.internet
    from twisted.internet import task

    class Reactor(task.Clock):
        stopped = 0

        def __init__(self):
            task.Clock.__init__(self)
            self.connected = []

        def stop(self):
            Reactor.stopped += 1

        def run(self):
            pass

        def connectSSL(self, *a, **k):
            self.connected.append(a)

        connectTCP = connectUNIX = connectSSL

        def listenSSL(self, *a, **k):
            return Anything()

        listenTCP = listenUNIX = listenSSL

        def addSystemEventTrigger(self, *a, **k):
            pass

        def callInThread(self, f, *a, **k):
            f(*a, **k)

        def callFromThread(self, f, *a, **k):
            f(*a, **k)
    r = Reactor()
    sys.modules['twisted.internet.reactor'] = r
    twisted.internet.reactor = r
    mod('twisted.internet.ssl', ClientContextFactory=Anything, DefaultOpenSSLContextFactory=Anything, PrivateCertificate=Anything(), CertificateOptions=Anything)
    mod('twisted.protocols.basic', LineOnlyReceiver=LineOnlyReceiver)
    return r
