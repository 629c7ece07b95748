'''
The environment every Jython-side check runs privcount in.

Importing this module (before any privcount module):
- replaces the clock with a virtual one (time.time(), and the reactor's clock),
- installs a deterministic in-memory reactor as twisted.internet.reactor,
- installs a fake twisted.internet.ssl, and the stand-ins for libraries that
  are not available here (see /verif/stubs),
- replaces random.SystemRandom and os.urandom by recording sources,
- turns process exit into an exception that the monitors can observe.

Nothing in privcount is edited: the code under test is /repo/privcount as it is.
'''
import imp
import logging
import os
import random
import sys
import time
import types

from java.lang import System

# ---------------------------------------------------------------- real time

def real_time():
    return System.nanoTime() / 1e9

# ------------------------------------------------------------- virtual time

EPOCH = 1500000000.0

class VTime(object):
    now = EPOCH

class _VTimeCall(object):
    'callable, but not a function: the time module is a Java class here'
    def __call__(self):
        return VTime.now

_real_time_time = time.time
time.time = _VTimeCall()
assert time.time() == EPOCH

# --------------------------------------------------------------- randomness

_BaseSystemRandom = random.SystemRandom

class _Rand(object):
    '''
    The state of the recording SystemRandom. All SystemRandom instances draw
    from `source`. `gauss_log` has one (mu, sigma, z) entry per gaussian draw.
    '''
    source = random.Random(1)
    bits_log = None
    gauss_log = None
    # when set: function(k) -> k-bit integer, or None for the default
    bits_hook = None
    # when set: function() -> standard normal z
    gauss_hook = None

    def reset(self, seed):
        self.source = random.Random(seed)
        self.bits_log = []
        self.gauss_log = []
        self.bits_hook = None
        self.gauss_hook = None

Rand = _Rand()

class RecordingSystemRandom(random.Random):
    'A SystemRandom whose draws are recorded, reproducible and controllable'

    def __init__(self, *args):
        pass

    def getrandbits(self, k):
        k = int(k)
        if k <= 0:
            raise ValueError('number of bits must be greater than zero')
        v = None
        if Rand.bits_hook is not None:
            v = Rand.bits_hook(k)
        if v is None:
            v = Rand.source.getrandbits(k)
        v = long(v)
        if Rand.bits_log is not None:
            Rand.bits_log.append((k, v))
        return v

    def random(self):
        return self.getrandbits(53) * 2.0 ** -53

    def gauss(self, mu, sigma):
        if Rand.gauss_hook is not None:
            z = Rand.gauss_hook()
        else:
            z = Rand.source.gauss(0.0, 1.0)
        if Rand.gauss_log is not None:
            Rand.gauss_log.append((mu, sigma, z))
        return mu + z * sigma

    def normalvariate(self, mu, sigma):
        return self.gauss(mu, sigma)

    # composite draws, from the primitives above
    def randrange(self, start, stop=None, step=1):
        if stop is None:
            start, stop = 0, start
        width = (stop - start + step - 1) // step
        if width <= 0:
            raise ValueError('empty range for randrange()')
        while True:
            v = self.getrandbits(max(1, (width - 1).bit_length() if width > 1 else 1))
            if v < width:
                return start + step * v

    def randint(self, a, b):
        return self.randrange(a, b + 1)

    def choice(self, seq):
        return seq[self.randrange(len(seq))]

    def seed(self, *args, **kwargs):
        return None

    def jumpahead(self, *args):
        return None

random.SystemRandom = RecordingSystemRandom

URANDOM = []
_urandom_hook = [None]
_real_urandom = os.urandom

def _urandom(n):
    if _urandom_hook[0] is not None:
        v = _urandom_hook[0](n)
    else:
        v = ''.join([chr(Rand.source.getrandbits(8)) for _ in range(n)])
    URANDOM.append(v)
    return v

os.urandom = _urandom

# ------------------------------------------------------------ process exits

class ProcessExit(BaseException):
    'os._exit() was called'
    def __init__(self, code):
        BaseException.__init__(self, 'process exit %s' % (code,))
        self.code = code

EXITS = []

def _exit(code):
    EXITS.append(code)
    raise ProcessExit(code)

os._exit = _exit

# ----------------------------------------------------- twisted, and the stubs

import twisted.internet
from twisted.internet import error, interfaces
from twisted.internet.address import IPv4Address, UNIXAddress
from twisted.python.failure import Failure

# task.Clock imports nothing of the reactor
_placeholder = types.ModuleType('twisted.internet.reactor')
sys.modules['twisted.internet.reactor'] = _placeholder
twisted.internet.reactor = _placeholder
from twisted.internet import task

class Connection(object):
    'one simulated connection between two protocols'

    def __init__(self, net, client_node=None, server_node=None, client_addr=None, server_addr=None, connector=None):
        self.net = net
        self.nodes = {'c': client_node, 's': server_node}
        self.connector = connector
        self.addr = {'c': client_addr, 's': server_addr}
        self.proto = {'c': None, 's': None}
        self.transport = {'c': SimTransport(self, 'c'), 's': SimTransport(self, 's')}
        self.open = {'c': True, 's': True}
        # per-direction time of the last scheduled delivery (keeps order)
        self.last = {'c': 0.0, 's': 0.0}
        self.dead = False
        self.id = net.next_id()

    def other(self, side):
        return 's' if side == 'c' else 'c'

    def _schedule(self, to_side, fn, *args):
        lat = self.net.latency(self)
        t = max(self.net.reactor.seconds() + lat, self.last[to_side])
        self.last[to_side] = t
        self.net.reactor.callLater(t - self.net.reactor.seconds(), fn, *args)

    def write(self, side, data):
        if self.dead or not self.open[side]:
            return
        to = self.other(side)
        if self.net.tap is not None:
            self.net.tap(self, side, data)
        for chunk in self.net.chunks(data):
            self._schedule(to, self._deliver, to, chunk)

    def _deliver(self, side, chunk):
        if self.dead or not self.open[side] or self.proto[side] is None:
            return
        if not self.net.isolate:
            self.net.call(self.nodes[side], self.proto[side].dataReceived, chunk)
            return
        try:
            self.net.call(self.nodes[side], self.proto[side].dataReceived, chunk)
        except Exception as e:
            self.net.errors.append((self.nodes[side], e))
            self.drop()

    def lose(self, side):
        'a graceful close by side: queued data arrives first'
        if self.dead or not self.open[side]:
            return
        self.open[side] = False
        to = self.other(side)
        self._schedule(side, self._closed, side, error.ConnectionDone())
        self._schedule(to, self._peer_closed, to)

    def _peer_closed(self, side):
        if self.dead:
            return
        if self.open[side]:
            self.open[side] = False
            self.transport[side].disconnecting = True
            self._closed(side, error.ConnectionDone())

    def _closed(self, side, exc):
        if self.proto[side] is None:
            return
        proto, self.proto[side] = self.proto[side], None
        self.transport[side].connected = False
        self.transport[side].disconnected = True
        self.net.call(self.nodes[side], proto.connectionLost, Failure(exc))
        if side == 'c' and self.connector is not None:
            self.connector.state = 'disconnected'
            self.net.call(self.nodes[side], self.connector.factory.clientConnectionLost,
                          self.connector, Failure(exc))
        if self.proto['c'] is None and self.proto['s'] is None:
            self.dead = True
            if self in self.net.connections:
                self.net.connections.remove(self)

    def drop(self):
        'the network drops the connection: data in flight is lost'
        for side in ('c', 's'):
            self.open[side] = False
            self.transport[side].disconnecting = True
        for side in ('c', 's'):
            self.net.reactor.callLater(0, self._closed, side, error.ConnectionLost())

class SimTransport(object):
    def __init__(self, conn, side):
        self.conn, self.side = conn, side
        self.connected = True
        self.disconnecting = False
        self.disconnected = False

    def write(self, data):
        if isinstance(data, unicode):
            raise TypeError('Data must not be unicode')
        self.conn.write(self.side, data)

    def writeSequence(self, seq):
        self.write(b''.join(seq))

    def loseConnection(self, *args):
        self.disconnecting = True
        self.conn.lose(self.side)

    def abortConnection(self):
        self.disconnecting = True
        self.conn.drop()

    def getHost(self):
        return self.conn.addr[self.side]

    def getPeer(self):
        return self.conn.addr[self.conn.other(self.side)]

    def setTcpNoDelay(self, enabled):
        pass

    def setTcpKeepAlive(self, enabled):
        pass

class SimConnector(object):
    def __init__(self, net, address, factory, node):
        self.net, self.address, self.factory, self.node = net, address, factory, node
        self.state = 'disconnected'
        self.conn = None
        self.host = None
        self.factory_started = False

    def connect(self):
        assert self.state == 'disconnected', "can't connect in this state"
        self.state = 'connecting'
        if not self.factory_started:
            self.factory.doStart()
            self.factory_started = True
        self.factory.startedConnecting(self)
        self.net.reactor.callLater(self.net.latency(None), self._established)

    def _established(self):
        if self.state != 'connecting':
            return
        port = self.net.listeners.get(self.address)
        if getattr(self.node, 'dead', False):
            self.state = 'disconnected'
            return
        if port is None or (self.net.refuse is not None and self.net.refuse(self)):
            self.state = 'disconnected'
            self.net.call(self.node, self.factory.clientConnectionFailed, self,
                          Failure(error.ConnectionRefusedError()))
            return
        self.state = 'connected'
        caddr = IPv4Address('TCP', '127.0.0.1', 40000 + self.net.next_id())
        saddr = self.address_object()
        conn = Connection(self.net, self.node, port.node, caddr, saddr, self)
        self.conn = conn
        self.net.connections.append(conn)
        sp = self.net.call(port.node, port.factory.buildProtocol, caddr)
        cp = self.net.call(self.node, self.factory.buildProtocol, saddr)
        conn.proto['c'], conn.proto['s'] = cp, sp
        if self.net.on_connect is not None:
            self.net.on_connect(conn)
        if cp is not None:
            self.net.call(self.node, cp.makeConnection, conn.transport['c'])
        if sp is not None:
            self.net.call(port.node, sp.makeConnection, conn.transport['s'])
        if sp is None or cp is None:
            conn.drop()

    def address_object(self):
        if isinstance(self.address, tuple):
            return IPv4Address('TCP', '127.0.0.1', self.address[1])
        return UNIXAddress(self.address)

    def stopConnecting(self):
        if self.state != 'connecting':
            raise error.NotConnectingError("we're not trying to connect")
        self.state = 'disconnected'

    def disconnect(self):
        if self.state == 'connecting':
            self.stopConnecting()
        elif self.state == 'connected':
            self.conn.transport['c'].loseConnection()

    def getDestination(self):
        return self.address_object()

class SimPort(object):
    def __init__(self, net, address, factory, node):
        self.net, self.address, self.factory, self.node = net, address, factory, node
        self.listening = True
        self.interface = None

    def stopListening(self):
        self.listening = False
        if self in self.net.ports:
            self.net.ports.remove(self)
        if self.net.listeners.get(self.address) is self:
            del self.net.listeners[self.address]
        self.factory.doStop()

class Net(object):
    'the simulated network, its faults, and the node that is running now'

    def __init__(self, reactor):
        self.reactor = reactor
        self.reset(None)

    def reset(self, rng):
        self.rng = rng
        self.listeners = {}
        self.ports = []
        self.connections = []
        self.connectors = []
        self.tap = None
        self.refuse = None
        self.max_latency = 0.0
        self.fragment = False
        self.current = None
        self.exits = []
        self.errors = []
        self._id = 0
        self.on_exit = None
        # exceptions in a protocol are logged, and end its connection, as in Twisted
        self.isolate = False
        # called with each new connection, before its first data
        self.on_connect = None

    def next_id(self):
        self._id += 1
        return self._id

    def latency(self, conn):
        if self.rng is None or self.max_latency <= 0:
            return 0.001
        return 0.001 + self.rng.random() * self.max_latency

    def chunks(self, data):
        if not self.fragment or len(data) < 2 or self.rng is None:
            return [data]
        out = []
        n = self.rng.choice([1, 1, 2, 3])
        cuts = sorted(self.rng.randrange(1, len(data)) for _ in range(n - 1))
        prev = 0
        for c in cuts + [len(data)]:
            if c > prev:
                out.append(data[prev:c])
            prev = c
        return out

    def call(self, node, fn, *args):
        'run fn as node: exits and exceptions are attributed to the node'
        if getattr(node, 'dead', False):
            return None
        old, self.current = self.current, node
        try:
            return fn(*args)
        except (ProcessExit, SystemExit) as e:
            self.exits.append((node, getattr(e, 'code', 0)))
            if self.on_exit is not None:
                self.on_exit(node)
            return None
        finally:
            self.current = old

class SimReactor(task.Clock):
    running = False

    def __init__(self):
        task.Clock.__init__(self)
        self.rightNow = EPOCH
        self.net = Net(self)
        self.stopped = 0
        self.threadpool = None

    def seconds(self):
        return VTime.now

    def callLater(self, when, what, *a, **kw):
        # calls made while a node runs belong to that node
        node = self.net.current
        self.rightNow = VTime.now
        return task.Clock.callLater(self, when, self._as_node, node, what, a, kw)

    def _as_node(self, node, what, a, kw):
        if getattr(node, 'dead', False):
            return
        old, self.net.current = self.net.current, node
        try:
            what(*a, **kw)
        except (ProcessExit, SystemExit) as e:
            self.net.exits.append((node, getattr(e, 'code', 0)))
            if self.net.on_exit is not None:
                self.net.on_exit(node)
        finally:
            self.net.current = old

    def reset(self, rng=None):
        for c in list(self.getDelayedCalls()):
            if c.active():
                c.cancel()
        self.calls = []
        VTime.now = EPOCH
        self.rightNow = EPOCH
        self.stopped = 0
        self.net.reset(rng)

    def step(self):
        'run the next call; False when there is none'
        live = [c for c in self.calls if not (c.cancelled or c.called)]
        if not live:
            return False
        t = min(c.getTime() for c in live)
        self.run_until(t)
        return True

    def run_until(self, t, max_calls=200000):
        'virtual time moves to t, and every call due by then is made'
        n = 0
        while True:
            live = [c for c in self.calls if not (c.cancelled or c.called)]
            due = [c for c in live if c.getTime() <= t]
            if not due:
                break
            # the first of the earliest: stable order
            first = min(due, key=lambda c: c.getTime())
            if first.getTime() > VTime.now:
                VTime.now = first.getTime()
                self.rightNow = VTime.now
            self.calls.remove(first)
            first.called = 1
            first.func(*first.args, **first.kw)
            n += 1
            if n > max_calls:
                raise SimStuck('more than %d calls before %s' % (max_calls, t))
        if t > VTime.now:
            VTime.now = t
            self.rightNow = t
        return n

    def advance(self, dt, max_calls=200000):
        return self.run_until(VTime.now + dt, max_calls)

    # connections
    def _connect(self, address, factory):
        c = SimConnector(self.net, address, factory, self.net.current)
        self.net.connectors.append(c)
        c.connect()
        return c

    def connectSSL(self, host, port, factory, contextFactory=None, timeout=30, bindAddress=None):
        c = self._connect(('tcp', int(port)), factory)
        c.host = host
        return c

    def connectTCP(self, host, port, factory, timeout=30, bindAddress=None):
        self.net.last_connect = ('tcp', host, port)
        c = self._connect(('tcp', int(port)), factory)
        c.host = host
        return c

    def connectUNIX(self, path, factory, timeout=30, checkPID=0):
        return self._connect(path, factory)

    def _listen(self, address, factory, interface=None):
        for p in self.net.ports:
            if p.address == address and (interface in (None, '') or p.interface in (None, '', interface)):
                raise error.CannotListenError('sim', address, 'in use')
        p = SimPort(self.net, address, factory, self.net.current)
        p.interface = interface
        self.net.ports.append(p)
        # (clients do not choose between the interfaces of a port)
        self.net.listeners.setdefault(address, p)
        factory.doStart()
        return p

    def listenSSL(self, port, factory, contextFactory=None, backlog=50, interface=''):
        return self._listen(('tcp', int(port)), factory, interface)

    def listenTCP(self, port, factory, backlog=50, interface=''):
        return self._listen(('tcp', int(port)), factory, interface)

    def listenUNIX(self, path, factory, backlog=50, mode=0o666, wantPID=0):
        return self._listen(path, factory)

    # running
    def run(self, installSignalHandlers=True):
        pass

    def stop(self):
        self.stopped += 1

    def addSystemEventTrigger(self, *a, **k):
        return None

    def callFromThread(self, f, *a, **k):
        self.callLater(0, f, *a, **k)

    def callWhenRunning(self, f, *a, **k):
        self.callLater(0, f, *a, **k)

class SimStuck(Exception):
    pass

reactor = SimReactor()
sys.modules['twisted.internet.reactor'] = reactor
twisted.internet.reactor = reactor
net = reactor.net

_ssl = types.ModuleType('twisted.internet.ssl')
class ClientContextFactory(object):
    def __init__(self, *a, **k):
        pass
class DefaultOpenSSLContextFactory(object):
    def __init__(self, *a, **k):
        pass
_ssl.ClientContextFactory = ClientContextFactory
_ssl.DefaultOpenSSLContextFactory = DefaultOpenSSLContextFactory
sys.modules['twisted.internet.ssl'] = _ssl
twisted.internet.ssl = _ssl

import twisted.protocols
try:
    import twisted.protocols.basic
except ImportError:
    for _p in sys.path:
        _f = os.path.join(_p, 'twisted', 'protocols', 'basic.py')
        if os.path.exists(_f):
            _m = imp.load_source('twisted.protocols.basic', _f)
            sys.modules['twisted.protocols.basic'] = _m
            twisted.protocols.basic = _m
            break

# --------------------------------------------------------------------- logs

class LogTap(logging.Handler):
    'counts log records, and keeps the messages a check asks for'
    def __init__(self):
        logging.Handler.__init__(self)
        self.keep = None
        self.count = 0

    def emit(self, record):
        self.count += 1
        if self.keep is not None:
            try:
                self.keep.append((record.levelno, record.getMessage()))
            except Exception as e:
                self.keep.append((record.levelno, 'unformattable: %r' % (e,)))

LOG = LogTap()
logging.getLogger().handlers = [LOG]

def set_logging(on, level=logging.INFO):
    if on:
        logging.disable(logging.NOTSET)
        logging.getLogger().setLevel(level)
        LOG.keep = []
    else:
        LOG.keep = None
        logging.disable(logging.CRITICAL)

set_logging(False)

# ------------------------------------------------------------ configurations

# nodes read their configuration again and again, and the parser is slow here:
# parse each text once, and hand out copies

def _parse_once(load):
    import copy
    kept = {}
    def load_once(stream, *args, **kw):
        if args or kw:
            return load(stream, *args, **kw)
        text = stream.read() if hasattr(stream, 'read') else stream
        if text not in kept:
            if len(kept) > 20:
                kept.clear()
            kept[text] = load(text)
        return copy.deepcopy(kept[text])
    return load_once

import yaml
yaml.load = _parse_once(yaml.load)
