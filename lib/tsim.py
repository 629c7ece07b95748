'''
The real tally server, driven through the calls its protocol makes, with
simulated clients that misbehave in many ways, and an independent reference
of the rounds it should run. Every answer of the tally server is compared
with that of the reference; what it publishes is compared with the truth.

Checks give a profile, and evaluate the parts they are about: a comparison
raises only when its topic is one of the check's topics.
'''
import copy
import glob
import json
import os
import shutil

import keys
import rounds
import simenv
from base64 import b64encode
from gen import *
from simenv import VTime
from privcount.tally_server import TallyServer

M = 2 ** 70
VERSIONS = ['2.0.0', '2.1.0 some-branch', '1.0.2', '1.1.0', '10.0.0', '1.0.10']
OLD = ['1.0.0', '1.0.1', '1.0.0 abc', '1.0.1 (x)']
SIG = {'ZeroCount': 0.0}

def zero_counters(c):
    return dict((k, {'bins': [[l, u, 0] for l, u in c[k]['bins']]}) for k in c)

class Client(object):
    def __init__(self, sim, rng, kind, i):
        self.sim, self.kind = sim, kind
        self.uid = ('dc%d' if kind == 'DataCollector' else 'sk%d') % i
        if kind == 'ShareKeeper':
            self.uid = 'sk%d%s' % (i, '0123456789abcdef' * 4)
        self.dc = kind == 'DataCollector'
        self.state = 'idle'
        self.life = 0               # what a client sent before it last changed its state does not arrive afterwards
        self.rtt = rng.choice([0.01, 0.25, 1.5, 12.0])
        self.skew = rng.choice([0.0, 0.03, 3.0])
        self.pubkey = 'public key of %s %032x' % (self.uid, rng.getrandbits(128))
        self.version = rng.choice(VERSIONS)
        self.fingerprint = None
        self.extra_fp = rng.random() < 0.1      # changes its fingerprint all the time
        self.gone_until = 0.0
        self.next = 0.0
        self.round = None
        self.secret_paths = 0

    def status(self, rng):
        s = {'type': self.kind, 'name': self.uid, 'state': self.state, 'alive': VTime.now, 'privcount_version': self.version,
             'rtt': self.rtt, 'clock_skew': self.skew, 'client_address': '127.0.0.1:4%03d' % rng.randrange(1000)}
        if not self.dc:
            s['public_key'] = self.pubkey
        elif self.round is not None or self.fingerprint is not None:
            if self.fingerprint is None or self.extra_fp:
                self.fingerprint = rand_fp(rng)
            s.update({'fingerprint': self.fingerprint, 'nickname': rng.choice(['', 'relay']), 'flag_list': ['Fast', 'Exit'],
                      'tor_version': '0.3', 'tor_privcount_version': '1.2', 'last_event_time': VTime.now - 1.0})
        return s

class Ref(object):
    'what a tally server should do, from the documentation'
    def __init__(self):
        self.conf = None
        self.table = {}
        self.done = 0
        self.round = None
        self.delay = None
        self.idle_since = VTime.now

    def status(self, s):
        if s['type'] == 'DataCollector' and s['privcount_version'].split(' ')[0] in ('1.0.0', '1.0.1'):
            return False
        e = self.table.setdefault(s['name'], {})
        fp = e.get('fingerprint')
        e.update(s)
        if fp is not None:
            e['fingerprint'] = fp
        return True

    def max_rtt(self):
        return max([1.0] + [e['rtt'] + 1.0 for e in self.table.values()])

    def idle(self, kind):
        return sorted(u for u in self.table if self.table[u]['type'] == kind and self.table[u]['state'] == 'idle')

    def rounds_left(self):
        c = self.conf['continue']
        if c is True:
            return True
        return self.done < (1 if c is False else c)

    def loop(self):
        'what the periodic loop should do: None, start, stop, end'
        now = VTime.now
        for u in list(self.table):
            e = self.table[u]
            if now - e['alive'] > 7 * self.conf['checkin_period'] + e['rtt'] + 1.0:
                del self.table[u]
        r = self.round
        if r is None:
            sg = rounds.sigmas({'counters': self.conf['sigmas']})
            dcs, sks = self.idle('DataCollector'), self.idle('ShareKeeper')
            if not self.rounds_left():
                return 'limit'
            if len(dcs) < self.conf['dc_threshold'] or len(sks) < self.conf['sk_threshold']:
                return 'clients'
            self.delay.delay = self.conf['delay_period'] + self.max_rtt()
            self.delay.always = self.conf['always_delay']
            self.delay.tol = self.conf['sigma_decrease_tolerance']
            if not self.delay.permitted(sg, now):
                return 'delay'
            if now < self.conf['start_after_time']:
                return 'start_after'
            self.round = Round(self, dcs, sks, sg)
            return 'start'
        if r.error or now - r.t0 >= r.conf['collect_period']:
            return r.stop()
        return None

class Round(object):
    def __init__(self, ref, dcs, sks, sg):
        self.ref, self.dcs, self.sks, self.sigmas = ref, dcs, sks, sg
        self.conf = copy.deepcopy(ref.conf)
        self.t0 = VTime.now
        self.t1 = None
        self.padding = max(ref.table[u]['rtt'] + ref.table[u]['clock_skew'] for u in dcs + sks) + self.conf['checkin_period']
        self.pubkeys = dict((u, ref.table[u]['public_key']) for u in sks)
        self.phase = 'dcs'
        self.waiting = set(dcs)
        self.shares = dict((u, {}) for u in sks)
        self.error = False
        self.counts = {}
        self.configs = {}
        self.dcs_done = []
        self.bad = set()

    def want(self, uid):
        'the command a client that checks in should get: None, start or stop'
        if self.phase == 'stopping':
            return 'stop' if uid in self.waiting else None
        if uid not in self.waiting:
            return None
        if self.phase == 'dcs' and uid in self.dcs:
            return 'start'
        if self.phase == 'sks' and uid in self.sks:
            return 'start'
        return None

    def started(self, uid, result):
        if result is None or uid not in self.waiting:
            return
        if self.phase == 'dcs' and uid in self.dcs:
            self.waiting.discard(uid)
            for sk in result:
                self.shares[sk][uid] = result[sk]
            if not self.waiting:
                self.phase, self.waiting = 'sks', set(self.sks)
        elif self.phase == 'sks' and uid in self.sks:
            self.waiting.discard(uid)
            if not self.waiting:
                self.phase = 'running'

    def stop(self):
        if self.t1 is None:
            self.t1 = VTime.now
        if self.phase == 'stopping':
            if self.waiting:
                return 'waiting'
            return 'end'
        self.error = self.phase == 'dcs'
        self.phase, self.waiting = 'stopping', set(self.dcs + self.sks)
        return 'stop'

    def stopped(self, uid, result, good):
        if result is None or self.phase != 'stopping' or uid not in self.waiting:
            return
        self.waiting.discard(uid)
        counts = result.get('Counts')
        if not counts:
            self.error = True
        elif not self.error:
            self.counts[uid] = counts
            if not good:
                self.bad.add(uid)

class Sim(object):
    periods = [8, 40, 100, 300]
    serial = 10

    def __init__(self, ctx, rng, topics, calm=0.0):
        self.ctx, self.rng, self.topics, self.calm = ctx, rng, topics, calm
        self.dir = ctx.scratch()
        self.private = os.path.join(self.dir, 'very-private')
        os.mkdir(self.private)
        self.results = os.path.join(self.dir, 'results')
        os.mkdir(self.results)
        self.log = []
        self.truth = {}
        self.big = set()
        self.rounds = []
        self.files = set()
        os.chdir(self.dir)
        self.ref = Ref()
        self.make_config()
        self.ts = TallyServer(self.path)
        # the tally server's methods are called as its protocol calls them
        self.ts.refresh_config()
        ctx.check(self.ts.config is not None, 'a valid configuration is accepted', config=self.yaml)
        self.ref.delay = rounds.Delay(0)
        n_dc = rng.randrange(1, 5)
        n_sk = rng.randrange(1, 4)
        if rng.random() < 0.8:
            n_dc = max(n_dc, self.ts_conf['dc_threshold'])
            n_sk = max(n_sk, self.ts_conf['sk_threshold'])
        self.clients = [Client(self, rng, 'DataCollector', i) for i in range(n_dc)] + \
                       [Client(self, rng, 'ShareKeeper', i) for i in range(n_sk)]
        for c in self.clients:
            if c.dc and rng.random() < 0.12 * (1 - calm):
                c.version = rng.choice(OLD)
            c.next = VTime.now + rng.random() * self.ref.conf['checkin_period']
            if rng.random() < 0.2:
                c.next += 5 * self.ref.conf['checkin_period']
        self.next_loop = VTime.now + self.ref.conf['event_period'] + rng.random() * 0.37
        self.next_conf = VTime.now + rng.choice([1e9, 30, 90, 300, 700, 700]) + rng.random()
        self.pending = []       # (time, function) results that arrive later

    # -- checks

    def eq(self, topic, got, want, what, **w):
        if topic in self.topics:
            self.ctx.eq(got, want, what, history=self.log[-40:], **w)

    def check(self, topic, cond, what, **w):
        if topic in self.topics:
            self.ctx.check(cond, what, history=self.log[-40:], **w)

    # -- configuration

    def make_config(self, change=None):
        rng = self.rng
        if change is None:
            self.k = rng.randrange(keys.COUNT)
            for n in ('hs.txt', 'key.pem', 'key.cert'):
                f = open(os.path.join(self.private, n), 'w')
                if n == 'key.pem':
                    f.write(open(keys.path(self.k)).read())
                elif n == 'key.cert':
                    f.write('certificate')
                f.close()
            os.remove(os.path.join(self.private, 'hs.txt'))
            names = rng.sample(rounds.KNOWN, rng.randrange(1, 5))
            self.c, self.n = rounds.counters(rng, names)
            self.ts_conf = {
                'listen_port': rng.randrange(1, 65536), 'sk_threshold': rng.choice([1, 1, 2]), 'dc_threshold': rng.choice([1, 1, 2]),
                'collect_period': rng.choice(self.periods), 'event_period': rng.choice([2, 5, 20, 100]),
                'checkin_period': rng.choice([2, 5, 20, 100]),
                'delay_period': rng.choice([0, 20, 300]), 'continue': rng.choice([True, True, True, False, 2, 3, 0]),
                'always_delay': rng.random() < 0.1, 'results': self.results, 'noise_weight': {'*': 1.0},
                'key': os.path.join(self.private, 'key.pem'), 'cert': os.path.join(self.private, 'key.cert'),
                'secret_handshake': os.path.join(self.private, 'hs.txt'),
            }
            if rng.random() < 0.1:
                del self.ts_conf['continue']
            if rng.random() < 0.2:
                from datetime import datetime
                self.after = int(VTime.now) + rng.choice([-100, 30, 120, 120])
                self.ts_conf['start_after'] = datetime.utcfromtimestamp(self.after).strftime('%Y-%m-%dT%H:%M:%SZ')
            else:
                self.after = 0
            self.lists = {}
            for key, name, items in (('domain_files', 'domain', ['example.com', 'a.example.org', 'www.test']),
                                     ('country_files', 'country', ['us', 'de']), ('onion_address_files', 'onion', ['facebookcorewwwi'])):
                if rng.random() < 0.25:
                    f = open(os.path.join(self.dir, name + '.txt'), 'w')
                    f.write('\n'.join(items) + '\n')
                    f.close()
                    self.ts_conf[key] = [os.path.join(self.dir, name + '.txt')]
                    self.lists[name] = items
            if rng.random() < 0.3:
                self.ts_conf['allocation'] = os.path.join(self.private, 'allocation.yaml')
            if rng.random() < 0.3:
                self.ts_conf['max_cell_events_per_circuit'] = rng.choice([-1, 0, 100])
                self.ts_conf['circuit_sample_rate'] = rng.choice([0.0, 0.5, 1.0])
            self.layout = rng.choice(['same', 'files', 'counters-file'])
        elif change == 'counters':
            self.c, self.n = rounds.counters(rng, rng.sample(rounds.KNOWN, rng.randrange(1, 5)))
        elif change == 'sigma-up':
            for k in self.n:
                self.n[k]['sigma'] = self.n[k]['sigma'] * 2 + 1.0
        elif change == 'sigma-down':
            for k in self.n:
                self.n[k]['sigma'] = self.n[k]['sigma'] / 2
        elif change == 'threshold':
            self.ts_conf['dc_threshold'] = rng.choice([1, 2, 3])
            self.ts_conf['sk_threshold'] = rng.choice([1, 2])
        elif change == 'period':
            self.ts_conf['collect_period'] = rng.choice(self.periods)
            self.ts_conf['delay_period'] = rng.choice([0, 20, 300])
        elif change == 'continue':
            self.ts_conf['continue'] = rng.choice([True, False, 1, 2, 3, 5])
        ts_conf = copy.deepcopy(self.ts_conf)
        both = dict((k, {'bins': self.c[k]['bins'], 'sigma': self.n[k]['sigma'], 'sensitivity': 10.0}) for k in self.c)
        conf = {'tally_server': ts_conf}
        if self.layout == 'same':
            conf['counters'] = both
        else:
            p = os.path.join(self.dir, 'counters.yaml')
            rounds.write(p, {'counters': dict((k, {'bins': self.c[k]['bins']}) for k in self.c)})
            ts_conf['counters'] = p
            sg = dict((k, {'sigma': self.n[k]['sigma']}) for k in self.n)
            if self.layout == 'files':
                p = os.path.join(self.dir, 'sigmas.yaml')
                rounds.write(p, {'counters': sg})
                ts_conf['sigmas'] = p
            else:
                conf['counters'] = sg
        accepted = True
        if change == 'invalid':
            how = rng.choice(['threshold', 'period', 'weight', 'missing', 'rate', 'bins', 'sigma'])
            accepted = False
            if how == 'threshold':
                ts_conf[rng.choice(['dc_threshold', 'sk_threshold'])] = rng.choice([0, -1])
            elif how == 'period':
                ts_conf['collect_period'] = rng.choice([0, -5])
            elif how == 'weight':
                ts_conf['noise_weight'] = rng.choice([{}, {'*': -1.0}])
            elif how == 'missing':
                del ts_conf[rng.choice(['collect_period', 'listen_port', 'dc_threshold', 'noise_weight'])]
            elif how == 'rate':
                ts_conf['circuit_sample_rate'] = rng.choice([1.5, -0.5])
            else:
                self_c = copy.deepcopy(both)
                k = rng.choice(sorted(self_c))
                if how == 'bins':
                    self_c[k]['bins'] = [[1.0, 0.0]]
                else:
                    self_c[k]['sigma'] = -1.0
                conf = {'tally_server': ts_conf, 'counters': self_c}
                ts_conf.pop('counters', None)
                ts_conf.pop('sigmas', None)
        self.path = os.path.join(self.dir, 'config.yaml')
        rounds.write(self.path, conf)
        self.yaml = conf
        self.accepted = accepted
        if accepted:
            self.next_ref_conf = self.reference_config()

    def reference_config(self):
        t = copy.deepcopy(self.ts_conf)
        half = t['collect_period'] // 2
        t['event_period'] = min(t['event_period'], half)
        t['checkin_period'] = min(t['checkin_period'], half)
        t['start_after_time'] = self.after
        t.setdefault('continue', False)
        t['sigma_decrease_tolerance'] = 1e-6
        t.setdefault('max_cell_events_per_circuit', -1)
        t.setdefault('circuit_sample_rate', 1.0)
        t['counters'] = dict((k, {'bins': [list(b) for b in self.c[k]['bins']]}) for k in self.c)
        t['counters']['ZeroCount'] = {'bins': [[-INF, INF]]}
        t['sigmas'] = dict((k, {'sigma': self.n[k]['sigma']}) for k in self.n)
        t['sigmas']['ZeroCount'] = {'sigma': 0.0}
        if self.ref.conf is None:
            self.ref.conf = t
        return t

    # -- one exchange of a client with the tally server

    def exchange(self, c):
        rng, ts, ref = self.rng, self.ts, self.ref
        s = c.status(rng)
        admitted = ref.status(copy.deepcopy(s))
        ts.set_client_status(c.uid, jcopy(s))
        stop = ts.get_stop_config(c.uid)
        start = ts.get_start_config(c.uid) if stop is None else None
        got = 'stop' if stop is not None else 'start' if start is not None else None
        r = ref.round
        if r is not None:
            want = r.want(c.uid)
        elif c.uid in ref.table and ref.table[c.uid]['state'] == 'active':
            want = 'stop'
        else:
            want = None
        self.log.append((round(VTime.now - simenv.EPOCH, 2), c.uid[:4], c.state, got))
        self.eq('dialogue', got, want, 'the command a client gets when it checks in', client=c.uid, phase=r and r.phase,
                admitted=admitted)
        if got == 'start':
            self.start(c, jcopy(start))
        elif got == 'stop':
            self.stop(c, jcopy(stop))
        else:
            # sometimes a client restarts
            if rng.random() < 0.02 * (1 - self.calm):
                c.state, c.round = 'idle', None
                c.life += 1
                self.log.append((round(VTime.now - simenv.EPOCH, 2), c.uid[:4], 'restarts'))

    def later(self, fn):
        rng = self.rng
        if rng.random() < 0.85:
            fn()
        else:
            self.pending.append((VTime.now + rng.random() * 2 * self.ref.conf['event_period'], fn))

    def start(self, c, cmd):
        rng, r = self.rng, self.ref.round
        conf = r.conf
        counters = copy.deepcopy(cmd['counters'])
        self.eq('dialogue', sorted(counters), sorted(conf['counters']), 'the counters of a start command')
        self.eq('dialogue', dict((k, {'bins': counters[k]['bins']}) for k in counters), conf['counters'], 'the bins of a start command')
        self.eq('dialogue', dict((k, v['sigma']) for k, v in cmd['noise']['counters'].items()), r.sigmas, 'the sigmas of a start command')
        for f in ('noise_weight', 'dc_threshold', 'collect_period'):
            self.eq('dialogue', cmd[f], conf[f], 'the %s of a start command' % f)
        if c.dc:
            self.eq('dialogue', cmd['sharekeepers'], dict((u, b64encode(r.pubkeys[u])) for u in r.sks), 'the share keepers of a start command')
            self.ctx.close(cmd['defer_time'], r.padding, 'data collectors wait until every client knows of the round', abs_=1e-6)
            self.eq('dialogue', (cmd['max_cell_events_per_circuit'], cmd['circuit_sample_rate']),
                    (conf['max_cell_events_per_circuit'], conf['circuit_sample_rate']), 'the parameters of a start command')
            want = sorted(self.lists.get('domain', []))
            self.eq('dialogue', sorted(x for l in cmd['domain_lists'] for x in l), want, 'the domains to match')
            self.eq('dialogue', sorted(x for l in cmd['country_lists'] for x in l), sorted(self.lists.get('country', [])), 'the countries to match')
            self.ctx.count('start commands to data collectors')
        else:
            got = sorted(cmd['shares'], key=lambda x: x['dc_name'])
            want = [r.shares[c.uid][u] for u in sorted(r.dcs)]
            self.eq('dialogue', got, want, 'a share keeper gets its own share from each data collector, once')
            self.ctx.count('start commands to share keepers')
        if rng.random() < 0.12 * (1 - self.calm):
            result = None                      # refused, e.g. because of its own delay
            self.ctx.count('refused starts')
        elif c.dc:
            c.state = 'active'
            c.life += 1
            c.round = {'conf': counters, 'cmd': cmd, 'blind': {}, 'true': {}, 't0': r.t0}
            result = {}
            for k in counters:
                for b in range(len(counters[k]['bins'])):
                    c.round['true'][(k, b)] = rng.choice([0, 1, 5, 10 ** 6, 2 ** 60 + 3, -7])
            for u in cmd['sharekeepers']:
                tag = 'share-%s-%s-%d' % (c.uid, u[:4], rng.getrandbits(40))
                nums = dict((kb, rng.getrandbits(70)) for kb in c.round['true'])
                self.truth[tag] = nums
                c.round['blind'][u] = nums
                result[u] = {'secret': tag, 'sk_uid': u, 'dc_name': c.uid}
        else:
            c.state = 'active'
            c.life += 1
            c.round = {'conf': counters, 'cmd': cmd, 't0': r.t0}
            result = {}
        if result is not None and rng.random() < 0.02 * (1 - self.calm):
            # the answer never arrives
            self.log.append((round(VTime.now - simenv.EPOCH, 2), c.uid[:4], 'lost start result'))
            return
        def arrive():
            self.log.append((round(VTime.now - simenv.EPOCH, 2), c.uid[:4], 'start result', result is not None))
            if self.ref.round is not None:
                self.ref.round.started(c.uid, result)
            self.ts.set_start_result(c.uid, jcopy(result))
        if self.ref.round is r:
            life = c.life
            delayed = lambda: self.ref.round is r and c.life == life and arrive()
            arrive() if rng.random() < 0.9 else self.pending.append((VTime.now + rng.random() * self.ref.conf['event_period'], delayed))
            while rng.random() < 0.15 * (1 - self.calm):
                # an answer that arrives again
                self.ctx.count('repeated answers')
                if rng.random() < 0.6:
                    delayed()
                else:
                    self.pending.append((VTime.now + rng.random() * self.ref.conf['event_period'], delayed))

    def counts(self, c):
        rd = c.round
        out = zero_counters(rd['conf'])
        for k in out:
            for b in range(len(out[k]['bins'])):
                if c.dc:
                    v = rd['true'][(k, b)] + sum(n[(k, b)] for n in rd['blind'].values())
                else:
                    v = -sum(self.truth[s['secret']][(k, b)] for s in rd['cmd']['shares'])
                out[k]['bins'][b][2] = v % M
                if v % M > 10 ** 9:
                    self.big.add(v % M)
        return out

    def client_config(self, c, cmd):
        conf = {'name': c.uid, 'state': os.path.join(self.private, 'state'), 'secret_handshake': os.path.join(self.private, 'hs.txt'),
                'delay_period': self.serial, 'Stop': cmd}
        self.serial += 1
        if c.dc:
            conf['event_source'] = {'port': 9051, 'ip': '127.0.0.1'}
        else:
            conf['key'] = os.path.join(self.private, 'sk.pem')
        if c.round is not None:
            conf['Start'] = copy.deepcopy(c.round['cmd'])
            conf['Start'].pop('shares', None)
            for k in list(conf['Start']):
                if k.endswith('_lists'):
                    conf['Start'][k] = '(summary)'
            conf['Start'].pop('as_data', None)
            conf['Start'].pop('domain_suffixes', None)
            conf['Time'] = {'Start': c.round['t0']}
        return conf

    def stop(self, c, cmd):
        rng, r = self.rng, self.ref.round
        if r is None:
            self.eq('dialogue', cmd.get('send_counters'), False, 'a client left over from an earlier round is not asked for its counts')
            self.ctx.count('stale clients stopped')
        else:
            self.eq('results', cmd.get('send_counters'), not r.error, 'counts are asked for exactly when they are useful', client=c.uid,
                    error=r.error)
        result = {'Config': self.client_config(c, cmd)}
        good = True
        wanted = bool(cmd.get('send_counters'))
        stale = c.round is None or r is None or c.round['t0'] != r.t0
        if wanted and not stale:
            result['Counts'] = self.counts(c)
            p = rng.random()
            if p < 0.1 * (1 - self.calm):
                how = rng.choice(['none', 'empty', 'null', 'short', 'morebins', 'fewbins'])
                self.log.append((round(VTime.now - simenv.EPOCH, 2), c.uid[:4], 'counts', how))
                good = False
                if how == 'none':
                    del result['Counts']
                elif how == 'empty':
                    result['Counts'] = {}
                elif how == 'null':
                    result['Counts'] = None
                elif how == 'short':
                    k = rng.choice(sorted(result['Counts']))
                    del result['Counts'][k]
                elif how == 'morebins':
                    k = rng.choice(sorted(result['Counts']))
                    result['Counts'][k]['bins'].append([7e9, 8e9, 5])
                else:
                    k = rng.choice(sorted(result['Counts']))
                    result['Counts'][k]['bins'] = result['Counts'][k]['bins'][1:]
                self.ctx.count('bad counts sent')
        c.state, c.round = 'idle', None
        c.life += 1
        if rng.random() < 0.03 * (1 - self.calm):
            result = None
        def arrive(first=True):
            self.log.append((round(VTime.now - simenv.EPOCH, 2), c.uid[:4], 'stop result', sorted(result) if result else result))
            if self.ref.round is not None:
                self.ref.round.stopped(c.uid, result, good)
                if result:
                    self.ref.round.configs[c.uid] = result['Config']['delay_period']
            self.ts.set_stop_result(c.uid, jcopy(result))
            if first and rng.random() < 0.04 * (1 - self.calm):
                self.log.append((round(VTime.now - simenv.EPOCH, 2), c.uid[:4], 'stop result again'))
                self.ts.set_stop_result(c.uid, jcopy(result))
        if rng.random() < 0.9:
            arrive()
        else:
            self.pending.append((VTime.now + rng.random() * self.ref.conf['event_period'], lambda: self.ref.round is r and arrive()))

    # -- the loop of the tally server

    def loop(self):
        ts, ref = self.ts, self.ref
        before = set(os.listdir(self.results))
        ref.conf = self.next_ref_conf
        what = ref.loop()
        r = ref.round
        ts.refresh_loop()
        st = ts.get_status()
        new = set(os.listdir(self.results)) - before
        self.log.append((round(VTime.now - simenv.EPOCH, 2), 'loop', what))
        self.ctx.count('loops: %s' % what)
        if what == 'end':
            self.ended(r, new)
            ref.round = None
        else:
            self.check('results', not new, 'nothing is published before a round ended, with an answer of every participant', files=sorted(new), loop=what)
        want = 'idle' if ref.round is None else 'active'
        topic = 'results' if what in ('end', 'waiting', 'stop', None) else 'dialogue'
        self.eq(topic, st['state'], want, 'whether a round is running', loop=what)
        dcs = [u for u in ref.table if ref.table[u]['type'] == 'DataCollector']
        sks = [u for u in ref.table if ref.table[u]['type'] == 'ShareKeeper']
        for f, us, s in (('dcs_idle', dcs, 'idle'), ('dcs_active', dcs, 'active'), ('sks_idle', sks, 'idle'), ('sks_active', sks, 'active')):
            self.eq('dialogue', st[f], len([u for u in us if ref.table[u]['state'] == s]), 'the number of clients in the status: %s' % f, loop=what)
        self.eq('dialogue', st['completed_phases'], ref.done, 'the number of completed rounds')
        self.eq('dialogue', (st['dcs_required'], st['sks_required']), (ref.conf['dc_threshold'], ref.conf['sk_threshold']), 'the thresholds in the status')
        if what == 'start':
            self.rounds.append(r)
            self.ctx.count('rounds started')
        for u in ref.table:
            if ref.table[u]['type'] == 'DataCollector':
                self.eq('dialogue', ts.get_client_fingerprint(u), ref.table[u].get('fingerprint', '(fingerprint pending)'),
                        'a relay keeps the fingerprint it first had')
        return what

    def ended(self, r, new):
        ref, rng, ctx = self.ref, self.rng, self.ctx
        ref.done += 1
        complete = not r.error and set(r.counts) == set(r.dcs + r.sks) and not r.bad
        b, e = int(round(r.t0)), int(round(r.t1))
        want = ['privcount.outcome.%d-%d.json' % (b, e)] + (['privcount.tallies.%d-%d.json' % (b, e)] if complete else [])
        self.eq('results', sorted(new), sorted(want), 'the files written when a round ends: a tally exactly when every participant sent its counts',
                error=r.error, bad=sorted(r.bad), counted=sorted(r.counts), participants=r.dcs + r.sks)
        if not r.error:
            ref.delay.delay = ref.conf['delay_period'] + ref.max_rtt()
            ref.delay.always = ref.conf['always_delay']
            ref.delay.success(r.sigmas, VTime.now)
        ctx.count('rounds completed' if complete else 'rounds without results')
        text = open(os.path.join(self.results, want[0])).read()
        out = json.loads(text)
        self.eq('results', 'Tally' in out, complete, 'the outcome has a tally exactly when every participant sent its counts')
        if complete:
            tally = out['Tally']
            tfile = json.load(open(os.path.join(self.results, want[1])))
            self.eq('results', tally, tfile, 'the tally files agree')
            got = dict(((k, i), v[2]) for k in tally for i, v in enumerate(tally[k]['bins']))
            truth = {}
            for k in r.conf['counters']:
                for i, bb in enumerate(r.conf['counters'][k]['bins']):
                    v = 0
                    for u in r.counts:
                        v += r.counts[u][k]['bins'][i][2]
                    truth[(k, i)] = signed(v, M)
            self.eq('results', got, truth, 'the tally is the sum of all counts')
            self.eq('results', [abs(v) < 2 ** 65 for v in truth.values()], [True] * len(truth), 'the blinding cancels out')
            for k in tally:
                self.eq('results', [x[:2] for x in tally[k]['bins']], r.conf['counters'][k]['bins'], 'the bins of the tally')
            ctx.count('tallies compared', len(truth))
        # -- the context
        cx = out['Context']
        t = cx['Time']
        for f, v in (('Start', r.t0), ('Stopping', r.t1), ('End', VTime.now), ('CollectStopping', r.t1 - r.t0), ('CollectEnd', VTime.now - r.t0),
                     ('StoppingDelay', VTime.now - r.t1), ('ClockPadding', r.padding)):
            if 'outcome' in self.topics:
                ctx.close(t[f], v, 'the %s time in the outcome' % f, rel=0, abs_=1e-3)
        for kind, us in (('DataCollector', r.dcs), ('ShareKeeper', r.sks)):
            for u in us:
                if u in ref.table:
                    self.check('outcome', u in cx.get(kind, {}), 'the outcome lists the participants', client=u)
                    c = cx[kind][u].get('Config', {})
                    self.eq('outcome', (c.get('name'), c.get('delay_period')), (u, r.configs[u]) if u in r.configs else (None, None),
                            'the configuration that a participant sent, in the outcome')
                    self.eq('outcome', cx[kind][u]['Status']['state'], ref.table[u]['state'], 'the state of a participant in the outcome')
        for kind in ('DataCollector', 'ShareKeeper'):
            for u, x in cx.get(kind, {}).items():
                self.check('outcome', u in ref.table, 'the outcome lists no other clients', client=u)
        ctx.count('outcomes read')
        self.check('outcome', 'very-private' not in text, 'paths of keys, secrets and state are not published')
        self.check('outcome', 'public key of ' not in text, 'public keys are not published')
        for u in r.sks:
            self.check('outcome', b64encode(r.pubkeys[u]) not in text, 'public keys are not published', client=u)
        self.check('outcome', 'share-' not in text, 'shares are not published')
        if self.lists:
            bare = json.dumps(dict((k, v) for k, v in cx.items()))
            for n, items in self.lists.items():
                for it in items:
                    if len(it) > 4:
                        self.check('outcome', '"%s"' % it not in bare, 'the match lists are not published', item=it)
        stack, nums = [out], set()
        while stack:
            x = stack.pop()
            if isinstance(x, dict):
                stack += x.values()
            elif isinstance(x, list):
                stack += x
            elif isinstance(x, (int, long)) and not isinstance(x, bool):
                nums.add(x)
        self.check('outcome', not (nums & self.big - set([M, M - 1, M // 2, M // 2 - 1])), 'blinded counts and shares are not published', leak=sorted(nums & self.big)[:3])
        cfg = cx['TallyServer']['Config']
        for f in ('collect_period', 'dc_threshold', 'sk_threshold', 'noise_weight', 'delay_period'):
            self.eq('outcome', cfg[f], r.conf[f], 'the outcome records the %s of the round' % f)
        self.eq('outcome', dict((k, v['sigma']) for k, v in cfg['noise']['counters'].items()), r.sigmas, 'the outcome records the noise of the round')
        self.eq('outcome', cx['TallyServer']['Status']['state'], 'active', 'the status is the one during the round')

    def restart(self):
        'the tally server is started anew: it remembers nothing'
        if self.ref.conf is not self.next_ref_conf or self.accepted is False:
            return
        conf = self.ref.conf
        self.ref = Ref()
        self.ref.conf = conf
        self.ref.delay = rounds.Delay(0)
        self.pending = []
        self.ts = TallyServer(self.path)
        self.ts.refresh_config()
        self.log.append((round(VTime.now - simenv.EPOCH, 2), 'the tally server restarts'))
        self.ctx.count('restarts')

    def run(self, steps):
        rng = self.rng
        waits = 0
        for _ in range(steps):
            now = min([self.next_loop, self.next_conf] + [c.next for c in self.clients] + [p[0] for p in self.pending])
            VTime.now = max(VTime.now + 0.001, now)
            due = [p for p in self.pending if p[0] <= VTime.now]
            if due:
                self.pending = [p for p in self.pending if p[0] > VTime.now]
                for p in due:
                    p[1]()
            for c in self.clients:
                if c.next <= VTime.now:
                    c.next = VTime.now + self.ref.conf['checkin_period'] * rng.uniform(0.9, 1.1)
                    p = rng.random()
                    if p < 0.03 * (1 - self.calm):
                        c.next += self.ref.conf['checkin_period'] * rng.choice([2, 6, 9, 30])
                        self.log.append((round(VTime.now - simenv.EPOCH, 2), c.uid[:4], 'is gone for a while'))
                        if rng.random() < 0.5:
                            c.state, c.round = 'idle', None
                    else:
                        self.exchange(c)
            if self.next_conf <= VTime.now:
                self.next_conf = VTime.now + rng.choice([100, 200, 700])
                how = rng.choice(['counters', 'sigma-up', 'sigma-down', 'sigma-down', 'threshold', 'period', 'continue', 'invalid', 'restore'])
                if how == 'restore':
                    how = 'none'
                self.make_config(how)
                self.log.append((round(VTime.now - simenv.EPOCH, 2), 'config', how))
                self.ctx.count('configuration changes')
                if how == 'invalid':
                    self.ctx.count('invalid configurations')
            if self.next_loop <= VTime.now:
                self.next_loop = VTime.now + self.ref.conf['event_period']
                what = self.loop()
                waits = waits + 1 if what in ('limit', 'clients', 'start_after', 'delay') else 0
                if what in ('limit', 'clients') and waits > 8:
                    if self.next_conf > VTime.now + 1e6:
                        break
                    # nothing happens until the configuration changes
                    self.next_conf = min(self.next_conf, VTime.now + 3.3)
                if rng.random() < 0.008 * (1 - self.calm):
                    self.restart()
