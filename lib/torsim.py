'''
A Tor relay with the PrivCount patch, seen through its control port: it
answers as tor does, keeps the configuration that controllers set, and
records what each of them did. It sends events to the controllers that asked
for them, and can misbehave in ways a real network or relay can.

Nothing here uses the code under test.
'''
import hashlib
import hmac
import json

from simenv import reactor, net

S2C = 'Tor safe cookie authentication server-to-controller hash'
C2S = 'Tor safe cookie authentication controller-to-server hash'

def mac(key, msg):
    return hmac.new(key, msg, hashlib.sha256).digest()

def secret(arg):
    'what an argument of AUTHENTICATE stands for, or None'
    try:
        if arg[:1] == '"':
            return arg[1:-1].replace('\\"', '"').replace('\\\\', '\\')
        return arg.decode('hex')
    except Exception:
        return None

class Relay(object):
    'the relay; what is left after its control connections are gone'

    def __init__(self, rng, **options):
        self.rng = rng
        self.methods = ['NULL']
        self.cookie_path = None
        self.cookie = None              # what tor itself uses
        self.password = None
        self.lie = None                 # function(hash, nonce) -> (hash, nonce)
        self.nickname = 'relay1'
        self.orports = ['9001']
        self.dirports = []
        self.geoip, self.geoip6 = '/usr/share/tor/geoip', None
        self.version = '0.3.0.7'
        self.full_version = '0.3.0.7 (git-abcdef0123456789)'
        self.privcount_version = '1.2.0'    # None: not patched
        self.address = '192.0.2.7'
        self.fingerprint = 'A' * 40         # None: a client
        self.flags = ['Fast', 'Running']    # None: not in the consensus
        self.missing_as_552 = False
        self.early = []                     # lines sent just before the fingerprint is
        for k in options:
            assert hasattr(self, k), k
            setattr(self, k, options[k])
        # what controllers can change
        self.conf = {'EnablePrivCount': '0', 'PrivCountCircuitSampleRate': '1.0', 'PrivCountMaxCellEventsPerCircuit': '-1',
                     '__ReloadTorrcOnSIGHUP': '1'}
        self.tmodel = None
        self.sessions = []

    # a Twisted factory, for the simulated network
    def doStart(self):
        pass

    def doStop(self):
        pass

    def buildProtocol(self, addr):
        s = Session(self)
        self.sessions.append(s)
        return s

    def listen(self, port=20003):
        reactor.listenTCP(port, self)

    def live(self):
        return [s for s in self.sessions if s.open]

    def emit(self, code, items):
        'an event happens'
        line = ' '.join(['650', code] + list(items))
        n = 0
        for s in self.live():
            if code in s.events and self.conf['EnablePrivCount'] == '1':
                s.send(line)
                n += 1
        return n

class Session(object):
    'one control connection'

    def __init__(self, relay):
        self.relay = relay
        self.transport = None
        self.open = False
        self.buf = ''
        self.lines = []             # every line the controller sent, with the state it was in
        self.authenticated = False
        self.auth = None            # how
        self.client_nonce = self.server_nonce = None
        self.lied = False
        self.events = set()
        self.quit = False
        self.enabled = []           # (events, EnablePrivCount, sample rate, max cells, reload, model) at each non-empty SETEVENTS
        self.told_fingerprint = False
        self.ns_requests = []
        self.hold = None            # when a list: replies wait here

    def makeConnection(self, transport):
        self.transport = transport
        self.open = True

    def connectionLost(self, reason=None):
        self.open = False
        self.events = set()

    def drop(self):
        self.open = False
        self.transport.conn.drop()

    def send(self, *lines):
        if not self.open:
            return
        self.transport.write(''.join(l + '\r\n' for l in lines))

    def dataReceived(self, data):
        self.buf += data
        while '\r\n' in self.buf:
            line, _, self.buf = self.buf.partition('\r\n')
            self.lines.append((reactor.seconds(), self.authenticated, line))
            if not self.quit:
                self.command(line)

    def fail(self, line):
        self.send(line)
        self.quit = True
        self.transport.loseConnection()

    def command(self, line):
        r = self.relay
        word, _, rest = line.partition(' ')
        if word == 'QUIT':
            self.send('250 closing connection')
            self.quit = True
            self.open = False
            self.events = set()
            self.transport.loseConnection()
            return
        if not self.authenticated:
            if word == 'PROTOCOLINFO':
                cookie = ''
                if r.cookie_path is not None:
                    cookie = ' COOKIEFILE="%s"' % r.cookie_path.replace('\\', '\\\\').replace('"', '\\"')
                self.send('250-PROTOCOLINFO 1', '250-AUTH METHODS=%s%s' % (','.join(r.methods), cookie),
                          '250-VERSION Tor="%s"' % r.version, '250 OK')
            elif word == 'AUTHCHALLENGE':
                try:
                    kind, nonce = rest.split(' ')
                    self.client_nonce = nonce.decode('hex')
                except Exception:
                    return self.fail('513 Invalid base16 client nonce')
                if kind != 'SAFECOOKIE' or 'SAFECOOKIE' not in r.methods:
                    return self.fail('513 AUTHCHALLENGE only supports SAFECOOKIE authentication')
                self.server_nonce = ''.join(chr(r.rng.randrange(256)) for _ in range(32))
                h, n = mac(S2C, r.cookie + self.client_nonce + self.server_nonce), self.server_nonce
                if r.lie is not None:
                    h, n = r.lie(h, n)
                    self.lied = True
                self.send('250 AUTHCHALLENGE SERVERHASH=%s SERVERNONCE=%s' % (h.encode('hex').upper(), n.encode('hex').upper()))
            elif word == 'AUTHENTICATE':
                self.auth = self.check(rest.strip())
                if self.auth is None:
                    return self.fail('515 Authentication failed: Password did not match HashedControlPassword *or* authentication cookie.')
                self.send('250 OK')
                self.authenticated = True
            else:
                self.fail('514 Authentication required.')
            return
        if word == 'SETEVENTS':
            self.events = set(rest.split())
            self.send('250 OK')
            if self.events:
                self.enabled.append((self.events, dict(r.conf), r.tmodel))
        elif word == 'SETCONF':
            k, _, v = rest.partition('=')
            if k not in r.conf or (r.privcount_version is None and k != '__ReloadTorrcOnSIGHUP'):
                return self.send("552 Unrecognized option: Unknown option '%s'.  Failing." % k)
            r.conf[k] = v
            self.send('250 OK')
        elif word == 'SET_TMODEL':
            if r.privcount_version is None:
                return self.send('510 Unrecognized command "SET_TMODEL"')
            on, _, model = rest.partition(' ')
            r.tmodel = model if on == 'TRUE' else None
            self.send('250 OK')
        elif word == 'GETCONF':
            if rest == 'EnablePrivCount':
                if r.privcount_version is None:
                    return self.send('552 Unrecognized configuration key "EnablePrivCount"')
                return self.send('250 EnablePrivCount=%s' % r.conf[rest])
            values = {'Nickname': [r.nickname], 'ORPort': r.orports, 'DirPort': r.dirports, 'GeoIPFile': [r.geoip],
                      'GeoIPv6File': [r.geoip6]}.get(rest)
            if values is None:
                return self.send('552 Unrecognized configuration key "%s"' % rest)
            values = [v for v in values if v is not None]
            if not values:
                return self.send('250 %s' % rest)
            self.send(*(['250-%s=%s' % (rest, v) for v in values[:-1]] + ['250 %s=%s' % (rest, values[-1])]))
        elif word == 'GETINFO':
            if rest == 'version':
                self.send('250-version=%s' % r.full_version, '250 OK')
            elif rest == 'privcount-version' and r.privcount_version is not None:
                self.send('250-privcount-version=%s' % r.privcount_version, '250 OK')
            elif rest == 'address':
                if r.address is None:
                    return self.send('551 Address unknown')
                self.send('250-address=%s' % r.address, '250 OK')
            elif rest == 'fingerprint':
                for l in r.early:
                    self.send(l)
                if r.fingerprint is None:
                    return self.send('551 Not running in server mode')
                self.told_fingerprint = True
                self.send('250-fingerprint=%s' % r.fingerprint, '250 OK')
            elif rest.startswith('ns/id/'):
                self.ns_requests.append((reactor.seconds(), rest[6:]))
                self.send_ns(rest)
            else:
                self.send('552 Unrecognized key "%s"' % rest)
        else:
            self.send('510 Unrecognized command "%s"' % word)

    def send_ns(self, key):
        r = self.relay
        if r.flags is None:
            if r.missing_as_552:
                return self.send('552 Unrecognized key "%s"' % key)
            return self.send('250-%s=' % key, '250 OK')
        self.send('250+%s=' % key)
        for l in ('r relay1 O+LhCTaoUucTfoolDNMk67JG+gw BuWvIcuvDhapTNbrbHnglHluQ6c 2017-06-22 03:59:43 192.0.2.7 5000 7000',
                  's ' + ' '.join(r.flags), 'w Bandwidth=100', 'p reject 1-65535', '.', '250 OK'):
            if self.interleave is not None:
                self.interleave(self)
            self.send(l)

    # called between the lines of a consensus entry
    interleave = None

    def check(self, arg):
        'the method by which this AUTHENTICATE is accepted, or None'
        r = self.relay
        if arg == '' and 'NULL' in r.methods:
            return 'NULL'
        word = secret(arg)
        if word is None:
            return None
        if 'SAFECOOKIE' in r.methods and self.server_nonce is not None and \
                word == mac(C2S, r.cookie + self.client_nonce + self.server_nonce):
            return 'SAFECOOKIE'
        if 'HASHEDPASSWORD' in r.methods and r.password is not None and word == r.password:
            return 'HASHEDPASSWORD'
        if 'COOKIE' in r.methods and r.cookie is not None and word == r.cookie:
            return 'COOKIE'
        if 'NULL' in r.methods:
            return 'NULL'
        return None
