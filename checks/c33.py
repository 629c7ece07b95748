'''C33: the connections that a connection configuration stands for.'''
import simenv
from simenv import reactor, net
from gen import *
from twisted.internet import protocol
from twisted.internet.address import IPv4Address, UNIXAddress, HostnameAddress
from privcount import connection as C

ID, LEVEL = 'C33', 'exploration'
RULE = ('random connection configurations: one or several items, valid and invalid in 25 ways, unix paths and IPv4 and IPv6 ports, local and '
        'other defaults, one or several default IP versions; opened in a simulated reactor that records what listens and connects where; '
        'distinct by the shapes of the items, the defaults and the call')
ASSUMPTIONS = ['each item is a dictionary (or missing), and its values are strings, integers or missing; two items never name the same place']
QUICK = dict(cases=4000, seconds=15)
THOROUGH = dict(cases=200000, seconds=600)
REQUIRE = {'listens': 500, 'connects': 500, 'items refused': 2000, 'items opened': 2000, 'ports by default address': 200,
           'places opened in IPv6': 200, 'passwords chosen': 300, 'stopped': 300, 'descriptions': 1000}
MIN_DISTINCT = 500

LOCAL = {4: '127.0.0.1', 6: '::1'}
ANY = {4: '0.0.0.0', 6: '::'}

GOOD_IP = ['127.0.0.1', '192.0.2.7', '0.0.0.0', '255.255.255.255', '::1', '::', '2001:db8::17', 'fe80::1', '::ffff:192.0.2.7', u'10.1.2.3',
           '2001:DB8:0:0:0:0:0:1']
BAD_IP = ['localhost', '1.2.3', '1.2.3.4.5', '256.1.1.1', '1.2.3.4/32', ':::', 'fe80::1::2', '2001:db8::g', '1.2.3.4:80', '[::1]', ' ', 'None',
          '1.2.3.-4', '12345::1', '']
BAD_PORT = [0, -1, '0', '-9051', 'http', '', 'control', '90x51', '9051 9052', None, '1e3', '0x50']

class Factory(protocol.ClientFactory):
    protocol = protocol.Protocol
    noisy = False

class Item(object):
    'one item, and what it stands for'
    def __init__(self, rng, i):
        c = self.config = {}
        self.ok, self.missing_ip = True, False
        self.unix = self.port = self.ip = None
        self.shape = []
        if rng.random() < 0.04:
            self.config, self.ok, self.shape = None, False, ['none']
            return
        if rng.random() < 0.4:
            self.unix = '/nowhere/%d.sock' % i
            c['unix'] = self.unix if rng.random() < 0.85 else rng.choice([None, ''])
            if not c['unix']:
                self.bad('unix')
            self.shape.append('unix')
        if rng.random() < 0.7:
            self.port = 9000 + 7 * i
            c['port'] = rng.choice([self.port, str(self.port), unicode(self.port)])
            self.shape.append('port')
            if rng.random() < 0.12:
                c['port'] = rng.choice(BAD_PORT)
                self.bad('port')
        if rng.random() < (0.6 if self.port else 0.08):
            self.ip = c['ip'] = rng.choice(GOOD_IP)
            self.shape.append('ip6' if ':' in self.ip else 'ip')
            if rng.random() < 0.15:
                c['ip'] = rng.choice(BAD_IP + [None])
                self.bad('ip')
            if self.port is None:
                self.bad('ip without port')
        if rng.random() < 0.4:
            c['control_password'] = self.password(rng, i)
            self.shape.append('password')
            if rng.random() < 0.15:
                c['control_password'] = rng.choice([None, ''])
                self.bad('password')
        if rng.random() < 0.15:
            c[rng.choice(['Port', 'timeout', 'sock', 'hostname'])] = rng.choice(['x', 5, None])
            self.shape.append('unknown')

    def password(self, rng, i):
        return rng.choice(['secret', 'p%d' % i, u'"quoted"', ' '])

    def bad(self, what):
        self.ok = False
        self.shape.append('bad ' + what)

    def ports(self, defaults):
        'the (address, port) that it stands for'
        if not self.ok or self.port is None:
            return []
        return [(a, self.port) for a in ([self.ip] if self.ip is not None else defaults)]

    def path(self):
        return [self.unix] if self.ok and self.unix is not None else []

def setup(ctx):
    simenv.set_logging(False)

def case(ctx, rng, i):
    reactor.reset(rng)
    items = [Item(rng, k) for k in range(rng.choice([1, 1, 1, 2, 3, 5]))]
    confs = [t.config for t in items]
    form = rng.choice(['one', 'list', 'tuple']) if len(items) == 1 else rng.choice(['list', 'tuple'])
    config = {'one': lambda: confs[0], 'list': lambda: list(confs), 'tuple': lambda: tuple(confs)}[form]()
    local = rng.random() < 0.5
    versions = rng.choice([4, 6, [4], [6], [4, 6], (6, 4)])
    kw = {}
    if rng.random() < 0.7:
        kw['ip_local_default'] = local
    else:
        local = True
    if rng.random() < 0.7:
        kw['ip_version_default'] = versions
    else:
        versions = 4
    vlist = [versions] if isinstance(versions, int) else list(versions)
    call = rng.choice(['listen', 'connect'])
    w = dict(config=confs, form=form, call=call, options=kw)
    shapes = tuple(tuple(t.shape) for t in items)
    before = repr(config)

    # which are valid
    for t in items:
        ctx.eq(C.validate_connection_config(t.config), t.ok, 'whether the item is valid', item=t.config)
        need = t.ok and not (t.port is not None and t.ip is None)
        ctx.eq(C.validate_connection_config(t.config, must_have_ip=True), need, 'whether the item is valid, when it must have an address',
               item=t.config)
        ctx.count('items opened' if t.ok else 'items refused')
    ctx.eq(C.validate_connection_config(config), all(t.ok for t in items), 'whether the configuration is valid', **w)
    ctx.eq(C.validate_connection_config(config, must_have_ip=True), all(t.ok and not (t.port is not None and t.ip is None) for t in items),
           'whether the configuration is valid, when it must have addresses', **w)

    factory = Factory()
    if call == 'listen':
        got = C.listen(factory, config, **kw)
        defaults = [(LOCAL if local else ANY)[v] for v in vlist]
        want = sorted([('unix', p) for t in items for p in t.path()] + [p for t in items for p in t.ports(defaults)])
        where = sorted([('unix', p.address) if not isinstance(p.address, tuple) else (p.interface, p.address[1]) for p in net.ports])
        ctx.eq(where, want, 'what listens where', **w)
        ctx.check(all(p.factory is factory for p in net.ports), 'the given factory listens', **w)
        opened = list(net.ports)
        ctx.count('listens')
    else:
        got = C.connect(factory, config, **kw)
        defaults = [LOCAL[v] for v in vlist] if local else []
        unix = [('unix', p) for t in items for p in t.path()]
        ip = [p for t in items for p in t.ports(defaults)]
        where = [('unix', c.address) if not isinstance(c.address, tuple) else (c.host, c.address[1]) for c in net.connectors]
        ctx.eq(sorted(where), sorted(unix + ip), 'what is connected to', **w)
        ctx.eq(sorted(where[:len(unix)]), sorted(unix), 'unix sockets are connected to before ports', **w)
        ctx.check(all(c.factory is factory for c in net.connectors), 'the given factory connects', **w)
        opened = list(net.connectors)
        want = where
        ctx.count('connects')
    ctx.count('places opened', len(want))
    ctx.count('places opened in IPv6', len([1 for h, _ in want if ':' in h]))
    ctx.count('ports by default address', sum(len(t.ports(defaults)) for t in items if t.ip is None))
    # what is returned is what was opened
    if len(opened) == 1:
        ctx.check(got is opened[0], 'the one thing that was opened is returned', returned=repr(got), **w)
    else:
        ctx.check(isinstance(got, list) and len(got) == len(opened) and all(any(g is o for o in opened) for g in got) and
                  all(any(g is o for g in got) for o in opened), 'everything that was opened is returned', returned=repr(got), **w)
    ctx.eq(repr(config), before, 'the configuration is not changed', **w)
    if opened:
        ctx.nontrivial(call, form, shapes, local, tuple(vlist))
        if i % 50 == 0:
            ctx.sample(dict(w, opened=want))
    # and can be closed
    if call == 'listen':
        C.stopListening(got)
        ctx.eq(len(net.ports), 0, 'everything stopped listening', **w)
    else:
        if rng.random() < 0.5:
            for c in opened:
                net.listeners[c.address] = simenv.SimPort(net, c.address, Factory(), None)
            reactor.advance(rng.choice([0, 5]))
        states = [c.state for c in opened]
        if all(s != 'disconnected' for s in states):
            C.disconnect(got)
            reactor.advance(5)
            ctx.eq(sorted(set(c.state for c in opened)), ['disconnected'][:len(opened)], 'everything is disconnected', **w)
    ctx.count('stopped', 1 if opened else 0)

    # passwords
    given = [c for c in confs if c is not None]
    if len(given) == len(confs):
        have = [c for c in given if 'control_password' in c]
        p = C.get_a_control_password(config)
        if have:
            ctx.check(p in [c['control_password'] for c in have], 'a password of the configuration', password=p, **w)
            ctx.count('passwords chosen')
        else:
            ctx.check(p is None, 'no password when there is none in the configuration', password=p, **w)
        ctx.check(any(C.choose_a_connection(config) is c for c in confs), 'an item of the configuration', **w)

    # descriptions
    describe(ctx, rng)

class Addr(object):
    pass

class FakeTransport(object):
    def __init__(self, peer, host, has_host):
        self.peer = peer
        if has_host:
            self.getHost = lambda: host

    def getPeer(self):
        return self.peer

def some_address(rng):
    'an address, its host and its port in text'
    k = rng.randrange(5)
    port = rng.randrange(1, 65536)
    if k == 0:
        h = rng.choice(['127.0.0.1', '192.0.2.9'])
        return IPv4Address('TCP', h, port), h, str(port)
    if k == 1:
        a = Addr()
        a.host, a.port = '2001:db8::%x' % port, port
        return a, a.host, str(port)
    if k == 2:
        return HostnameAddress('relay%d.example.com' % port, port), 'relay%d.example.com' % port, str(port)
    if k == 3:
        return UNIXAddress('/nowhere/%d' % port), '/nowhere/%d' % port, None
    return UNIXAddress(None), None, None

def text(host, port):
    if host is None:
        return '(port:%s)' % port
    return host if port is None else '%s:%s' % (host, port)

def describe(ctx, rng):
    peer, ph, pp = some_address(rng)
    host, hh, hp = some_address(rng)
    kind = rng.choice(['host', 'host', 'no host', 'none'])
    t = FakeTransport(peer, host if kind == 'host' else None, kind != 'no host')
    w = dict(peer=repr(peer), host=repr(host), kind=kind)
    ctx.eq(C.address_hostname(peer), ph, 'the host of an address', **w)
    ctx.eq(C.address_port(peer), pp, 'the port of an address', **w)
    ctx.eq(C.transport_remote_info(t), text(ph, pp), 'the description of the remote end', **w)
    ctx.eq(C.transport_peer_hostname(t), ph, 'the host of the remote end', **w)
    if kind == 'host':
        ctx.eq(C.transport_local_info(t), text(hh, hp), 'the description of the local end', **w)
        ctx.eq(C.transport_local_hostname(t), hh, 'the host of the local end', **w)
        ctx.eq(C.transport_info(t), 'remote: %s local: %s' % (text(ph, pp), text(hh, hp)), 'the description of the connection', **w)
    else:
        ctx.check(C.transport_local_info(t) is None, 'an unknown local end', **w)
        ctx.check(C.transport_local_hostname(t) is None, 'the host of an unknown local end', **w)
        ctx.eq(C.transport_info(t), 'remote: %s' % text(ph, pp), 'the description of the connection', **w)
    ctx.count('descriptions')
