'''
A whole deployment: a tally server, share keepers, and data collectors with
their relays, each a real node in its own simulated process, on one simulated
network. Processes can be killed and started again, connections cut, nodes
cut off, and relays restarted. Monitors on the wire keep the true counts.
'''
import base64
import json
import os

import c20
import evsim
import keys
import rounds
import torsim
from evsim import SINGLE
from gen import *
from simenv import VTime, Rand, net, reactor
from privcount.data_collector import DataCollector
from privcount.share_keeper import ShareKeeper
from privcount.tally_server import TallyServer

KINDS = {'dc': DataCollector, 'sk': ShareKeeper, 'ts': TallyServer}
PORT = 20001

class Proc(object):
    'one process: killed for good when it ends'
    def __init__(self, name):
        self.name, self.dead = name, False
    def __repr__(self):
        return self.name

class Node(object):
    def __init__(self, dep, kind, name, path):
        self.dep, self.kind, self.name, self.path = dep, kind, name, path
        self.proc = self.obj = None
        self.starts = 0
        # the round of this process, as seen on the wire
        self.counting = False
        self.total = {}

    def start(self):
        self.starts += 1
        self.proc = Proc('%s #%d' % (self.name, self.starts))
        self.counting, self.total = False, {}
        def run():
            self.obj = KINDS[self.kind](self.path)
            self.obj.run()
        net.call(self.proc, run)

    def kill(self):
        if self.proc is None or self.proc.dead:
            return
        self.proc.dead = True
        for p in list(net.ports):
            if p.node is self.proc:
                net.ports.remove(p)
        for a in list(net.listeners):
            if net.listeners[a].node is self.proc:
                del net.listeners[a]
        for c in list(net.connections):
            if self.proc in c.nodes.values():
                c.drop()
        self.obj = None

    def up(self):
        return self.proc is not None and not self.proc.dead

    def connections(self):
        return [c for c in net.connections if self.proc in c.nodes.values()]

class Deployment(object):
    def __init__(self, ctx, rng, n_dc, n_sk, names, **ts):
        self.ctx, self.rng = ctx, rng
        self.dir = ctx.scratch()
        net.isolate = True
        self.log = []
        self.effects = {}
        self.active = {}
        self.events = self.unasked = 0
        self.cut_off = set()
        self.sent_counts = {}       # what each data collector counted, when it sent its counts
        self.answers = {}           # what was sent as counts
        self.rounds = {}
        d = self.dir
        self.split = False
        self.results = os.path.join(d, 'results')
        os.mkdir(self.results)
        f = open(os.path.join(d, 'hs'), 'w')
        f.write(base64.b64encode('0123456789abcdef' * 2))
        f.close()
        self.sigma = rng.choice([0.0, 3.0, 7.0])
        Rand.gauss_hook = lambda: 1.0
        self.set_counters(names)
        self.ts_conf = {'listen_port': PORT, 'sk_threshold': n_sk, 'dc_threshold': n_dc, 'collect_period': 60, 'event_period': 10,
                        'checkin_period': 10, 'delay_period': 0, 'continue': True, 'results': self.results, 'noise_weight': {'*': 1.0},
                        'key': keys.path(0), 'cert': keys.path(0), 'secret_handshake': os.path.join(d, 'hs')}
        self.ts_conf.update(ts)
        self.write_ts()
        self.nodes = [Node(self, 'ts', 'ts', os.path.join(d, 'ts.yaml'))]
        self.ts = self.nodes[0]
        info = {'ip': '127.0.0.1', 'port': PORT}
        for i in range(n_sk):
            p = os.path.join(d, 'sk%d.yaml' % i)
            rounds.write(p, {'share_keeper': {'key': keys.path(i), 'delay_period': self.ts_conf['delay_period'], 'tally_server_info': info,
                                              'secret_handshake': os.path.join(d, 'hs')}})
            self.nodes.append(Node(self, 'sk', 'sk%d' % i, p))
        self.relays = {}
        for i in range(n_dc):
            p = os.path.join(d, 'dc%d.yaml' % i)
            rounds.write(p, {'data_collector': {
                'name': 'dc%d' % i, 'delay_period': self.ts_conf['delay_period'], 'event_source': {'port': 30000 + i, 'ip': '127.0.0.1'},
                'tally_server_info': info, 'secret_handshake': os.path.join(d, 'hs'), 'share_keepers': [keys.digest(k) for k in range(n_sk)]}})
            n = Node(self, 'dc', 'dc%d' % i, p)
            self.nodes.append(n)
            r = torsim.Relay(rng, fingerprint=rand_fp(rng), nickname='relay%d' % i)
            r.listen(30000 + i)
            self.relays[n.name] = r
        net.on_connect = self.connected
        net.tap = self.tap
        net.on_exit = self.exited
        net.refuse = lambda c: any(c.node is n.proc for n in self.nodes if n.name in self.cut_off)
        self.ended = []
        self.wire = {}

    def node(self, proc):
        for n in self.nodes:
            if n.proc is proc and proc is not None:
                return n
        return None

    def note(self, *what):
        self.log.append((round(VTime.now - 1.5e9, 2),) + what)

    def set_counters(self, names):
        self.bins = {}
        for n in names:
            self.bins[n] = evsim.make_bins(self.rng, n, [0, 1, 5, 514, 10.0, 119.0])

    def write_ts(self):
        conf = {'tally_server': self.ts_conf}
        bins = dict((k, {'bins': self.bins[k]}) for k in self.bins)
        noise = dict((k, {'sigma': self.sigma, 'sensitivity': 1.0}) for k in self.bins)
        if self.split:
            # the counters and their noise in separate files
            for key, values in [('counters', bins), ('sigmas', noise)]:
                path = os.path.join(self.dir, key + '.yaml')
                rounds.write(path, {'counters': values})
                self.ts_conf[key] = path
        else:
            conf['counters'] = dict((k, dict(bins[k], **noise[k])) for k in bins)
        rounds.write(os.path.join(self.dir, 'ts.yaml'), conf)

    # -- monitors

    def connected(self, conn):
        n = self.node(conn.nodes['c'])
        if n is None:
            return
        proto = conn.proto['c']
        old = proto.lineReceived
        to_ts = conn.nodes['s'] is self.ts.proc
        self.wire[conn] = ''
        self.active[conn] = set()
        def received(line):
            if to_ts:
                if n.kind == 'dc' and line.startswith('START '):
                    # (a refused or repeated start changes nothing)
                    n.before = (n.counting, n.total)
            else:
                parts = line.strip().split(' ')
                if parts[0] == '650' and len(parts) > 2:
                    if parts[1] in self.active[conn] and n.counting:
                        self.events += 1
                        evsim.merge(n.total, self.effects.get(line, {}))
                    else:
                        self.unasked += 1
            return old(line)
        proto.lineReceived = received

    def tap(self, conn, side, data):
        if side != 'c' or conn not in self.wire:
            return
        n = self.node(conn.nodes['c'])
        self.wire[conn] += data
        while '\r\n' in self.wire[conn]:
            line, _, self.wire[conn] = self.wire[conn].partition('\r\n')
            if conn.nodes['s'] is not self.ts.proc:
                if line.split(' ')[0] == 'SETEVENTS':
                    self.active[conn] = set(line.split()[1:])
                elif line == 'QUIT':
                    self.active[conn] = set()
            elif line.startswith('START SUCCESS'):
                n.counting, n.total = True, {}
                self.note(n.name, 'starts')
            elif line.startswith('STOP SUCCESS'):
                answer = json.loads(line[len('STOP SUCCESS '):])
                counts = answer.get('Counts')
                self.note(n.name, 'stops', bool(counts))
                self.ctx.count('rounds stopped')
                if counts and n.kind == 'dc':
                    self.sent_counts[n.name] = n.total
                    self.answers.setdefault(n.name, []).append(rounds.values(counts))
                n.counting, n.total = False, {}

    def exited(self, proc):
        self.note(str(proc), 'ends by itself')
        self.ended.append(str(proc))
        n = self.node(proc)
        if n is not None:
            n.kill()

    # -- what happens

    def make_event(self):
        rng = self.rng
        if rng.random() < 0.75:
            f = c20.connection(rng)
            e, _, _ = c20.reference(f, [], None, [])
            return 'PRIVCOUNT_CONNECTION_CLOSE', evsim.tagged(rng, f), e
        t = 1.5e9 + rng.randrange(1000)
        items = [str(rng.randrange(5)), str(rng.randrange(100)), str(rng.randrange(100)), rng.choice(['80', '443', '22']),
                 str(rng.randrange(10 ** 6)), str(rng.randrange(10 ** 6)), '%.6f' % t, '%.6f' % (t + 5), 'example.com', '192.0.2.1', rng.choice('12')]
        return 'PRIVCOUNT_STREAM_ENDED', items, {('ExitStreamCount', SINGLE): 1}

    def emit(self, name):
        code, items, e = self.make_event()
        self.effects[' '.join(['650', code] + items)] = e
        self.relays[name].emit(code, items)

    def outcomes(self):
        return sorted(os.listdir(self.results))
