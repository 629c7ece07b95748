'''
A recording transport, factories that record what the protocols ask of them,
and an independent implementation of the handshake.
'''
import base64
import hashlib
import hmac
import json
from twisted.internet.address import IPv4Address

import simenv

class Transport(object):
    'records what is written, and whether the connection was closed'
    def __init__(self):
        self.out = []
        self.disconnecting = False
        self.closed = 0
        self.aborted = False
    def write(self, data):
        if isinstance(data, unicode):
            raise TypeError('Data must not be unicode')
        if not self.closed:
            self.out.append(data)
    def writeSequence(self, seq):
        self.write(''.join(seq))
    def loseConnection(self, *a):
        self.disconnecting = True
        self.closed += 1
    def abortConnection(self):
        self.loseConnection()
        self.aborted = True
    def getPeer(self):
        return IPv4Address('TCP', '10.9.8.7', 1234)
    def getHost(self):
        return IPv4Address('TCP', '10.9.8.6', 4321)
    def data(self):
        return ''.join(self.out)
    def lines(self):
        parts = self.data().split('\r\n')
        return parts[:-1]

def hmac64(key, prefix, sc, cc):
    return base64.b64encode(hmac.new(key, prefix + sc + cc, hashlib.sha256).digest())

H1 = 'HANDSHAKE1-SERVER-COOKIE PRIVCOUNT-100 SERVER HMAC-SHA256'
H2 = 'HANDSHAKE2-CLIENT-COOKIE-HMAC PRIVCOUNT-100 CLIENT HMAC-SHA256'
H3 = 'HANDSHAKE3-SERVER-HMAC PRIVCOUNT-100 SERVER HMAC-SHA256'
H4 = 'HANDSHAKE4-CLIENT-VERIFY PRIVCOUNT-100 CLIENT HMAC-SHA256'

def b64d(s):
    try:
        return base64.b64decode(s)
    except Exception:
        return None

def valid2(line, key, server_cookie):
    'the client cookie, when the line proves knowledge of the key for this server cookie'
    t = line.split()
    if t[:4] != H2.split() or len(t) != 6:
        return None
    cc, h = b64d(t[4]), b64d(t[5])
    if cc is None or h is None or len(cc) != 32:
        return None
    if h != hmac.new(key, H2 + server_cookie + cc, hashlib.sha256).digest():
        return None
    return cc

def valid3(line, key, server_cookie, client_cookie):
    t = line.split()
    if t[:4] != H3.split() or len(t) != 5 or server_cookie is None or client_cookie is None:
        return False
    return b64d(t[4]) == hmac.new(key, H3 + server_cookie + client_cookie, hashlib.sha256).digest()

class ServerFactory(object):
    'what the server side asks of the tally server'
    def __init__(self, secret_path):
        self.secret_path = secret_path
        self.calls = []
        self.stop_config, self.start_config = None, None
        self.period = 37
    def get_secret_handshake_path(self):
        return self.secret_path
    def get_status(self):
        return {'state': 'idle', 'time': 1}
    def set_client_status(self, uid, status):
        self.calls.append(('status', uid, status))
    def get_stop_config(self, uid):
        self.calls.append(('get_stop', uid))
        return self.stop_config
    def get_start_config(self, uid):
        self.calls.append(('get_start', uid))
        return self.start_config
    def set_start_result(self, uid, data):
        self.calls.append(('start_result', uid, data))
    def set_stop_result(self, uid, data):
        self.calls.append(('stop_result', uid, data))
    def get_checkin_period(self):
        return self.period

class ClientFactory(object):
    'what the client side asks of a node'
    def __init__(self, secret_path, name='client1'):
        self.secret_path, self.name = secret_path, name
        self.calls = []
        self.start_result, self.stop_result = {'ok': 1}, {'Counts': {}}
        self.task = None
        self.reset_delays = 0
        self.stopped_trying = 0
        self.raise_on = None
    def get_secret_handshake_path(self):
        return self.secret_path
    def set_server_status(self, status):
        self.calls.append(('server_status', status))
    def get_status(self):
        return {'name': self.name, 'state': 'idle', 'type': 'DataCollector'}
    def do_start(self, config):
        self.calls.append(('start', config))
        return self.start_result
    def do_stop(self, config):
        self.calls.append(('stop', config))
        return self.stop_result
    def do_checkin(self):
        self.calls.append(('checkin',))
    def get_checkin_task(self):
        return self.task
    def set_checkin_task(self, t):
        self.task = t
    def resetDelay(self):
        self.reset_delays += 1
    def stopTrying(self):
        self.stopped_trying += 1

def deliver(proto, data, rng=None):
    'hands data to the protocol, perhaps in pieces; True when the process ended'
    pieces = [data]
    if rng is not None and len(data) > 1 and rng.random() < 0.5:
        cuts = sorted(rng.randrange(1, len(data)) for _ in range(rng.randrange(1, 4)))
        pieces, prev = [], 0
        for c in cuts + [len(data)]:
            pieces.append(data[prev:c])
            prev = c
    for p in pieces:
        if not p:
            continue
        try:
            proto.dataReceived(p)
        except (simenv.ProcessExit, SystemExit):
            return True
        if simenv.EXITS:
            return True
    return False
