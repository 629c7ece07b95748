'''C32: configuration files take effect as documented, completely or not at all.'''
import base64
import copy
import os
import re
import shutil

import c06
import keys
import rounds
import simenv
from gen import *
from privcount.counter import get_valid_counters
from privcount.data_collector import DataCollector
from privcount.share_keeper import ShareKeeper
from privcount.statistics_noise import get_noise_allocation
from privcount.tally_server import TallyServer

ID, LEVEL = 'C32', 'exploration'
RULE = ('sequences of 3 to 8 versions of the configuration files of a tally server, share keeper or data collector, valid, or broken in one of '
        'about 60 ways, read again by the same node and by a fresh one; distinct by the options and the defect')
ASSUMPTIONS = ['the files are there, and are YAML of the right shape: values are of the documented types, or missing, or out of range']
QUICK = dict(cases=500, seconds=30)
THOROUGH = dict(cases=40000, seconds=1200)
REQUIRE = {'versions accepted': 400, 'versions refused': 250, 'refused and kept': 150, 'fresh nodes compared': 150, 'tally servers': 100,
           'share keepers': 30, 'data collectors': 30, 'noise allocated': 20, 'counters filtered': 40, 'periods reduced': 20,
           'secrets created': 10}
MIN_DISTINCT = 300

KNOWN = [k for k in sorted(get_valid_counters()) if k != 'ZeroCount'][::40]
class Base(object):
    'the options of a node: what is written, and what it means'
    def __init__(self, ctx, rng, d):
        self.ctx, self.rng, self.dir = ctx, rng, d
        self.path = os.path.join(d, 'config.yaml')
        self.o = {}
        self.top = {}
        self.fill()

    def file(self, name):
        return os.path.join(self.dir, name)

    def handshake(self, o):
        if 'secret_handshake' in o:
            return o['secret_handshake']
        return self.top.get('secret_handshake', os.path.abspath('privcount.secret_handshake.yaml'))

    def vary(self):
        'change one to three options, to valid or invalid values'
        for _ in range(self.rng.choice([1, 1, 2, 3])):
            k = self.rng.choice(sorted(self.OPTIONS))
            v = self.rng.choice(self.OPTIONS[k])
            if v == 'absent':
                self.o.pop(k, None)
            else:
                self.o[k] = copy.deepcopy(v)
        self.more()

    def more(self):
        rng = self.rng
        if rng.random() < 0.15:
            self.o['unknown_%d' % rng.randrange(3)] = rng.randrange(10)
        if rng.random() < 0.15:
            self.top['secret_handshake'] = self.file('hs%d' % rng.randrange(4))
        elif rng.random() < 0.1:
            self.top.pop('secret_handshake', None)
        if rng.random() < 0.15:
            self.o['secret_handshake'] = self.file('hs%d' % rng.randrange(4))
        elif rng.random() < 0.1:
            self.o.pop('secret_handshake', None)
        if rng.random() < 0.08:
            h = self.handshake(self.o)
            if os.path.exists(h):
                os.remove(h)

    def common(self, o):
        'the options that all nodes have: the expected values, or None'
        d = o.get('delay_period', 86400)
        want = {'delay_period': 86400 if d < 0 else d, 'always_delay': o.get('always_delay', False),
                'sigma_decrease_tolerance': o.get('sigma_decrease_tolerance', 1e-6), 'secret_handshake': self.handshake(o)}
        if not isinstance(want['always_delay'], bool) or want['sigma_decrease_tolerance'] < 1e-13:
            return None
        return want

COMMON = {
    'delay_period': [0, 1, 3600, 86400, 172800, -1, -86400, 'absent', 1.5],
    'always_delay': [True, False, 'absent', 'yes please', 1, None],
    'sigma_decrease_tolerance': [1e-6, 0.1, 5, 'absent', 0, -1, 1e-17],
}
INFO = [{'ip': '127.0.0.1', 'port': 20001}, {'ip': '192.0.2.5', 'port': '20002'}, {'ip': '2001:db8::1', 'port': 20003}]
BAD_INFO = ['absent', {'port': 20001}, {'ip': '127.0.0.1'}, {'ip': '127.0.0.1', 'port': 0}, {'ip': 'localhost', 'port': 20001},
            {'ip': '127.0.0.1', 'port': 'http'}, {'ip': '', 'port': 20001}, None, {'ip': '127.0.0.1', 'port': -5}]

class Keeper(Base):
    OPTIONS = dict(COMMON, tally_server_info=INFO * 3 + BAD_INFO)
    kind = 'share keepers'

    def fill(self):
        self.o = {'key': keys.path(0), 'tally_server_info': dict(INFO[0]), 'secret_handshake': self.file('hs0')}

    def node(self):
        return ShareKeeper(self.path)

    def more(self):
        Base.more(self)
        if self.rng.random() < 0.2:
            self.o['key'] = keys.path(self.rng.randrange(keys.COUNT))

    def write(self):
        conf = dict(self.top)
        if self.rng.random() < 0.05:
            self.written = None
        else:
            conf['share_keeper'] = self.o
            self.written = copy.deepcopy(self.o)
        rounds.write(self.path, conf)

    def expect(self):
        o = self.written
        if o is None or o.get('tally_server_info') not in INFO:
            return None
        want = self.common(o)
        if want is not None:
            want.update(key=o['key'], name=keys.digest([keys.path(n) for n in range(keys.COUNT)].index(o['key'])),
                        tally_server_info=o['tally_server_info'])
        return want

SOURCES = [{'port': 9051}, {'unix': '/nowhere/control'}, [{'port': 9051, 'ip': '::1'}, {'unix': '/nowhere/x'}],
           {'port': '9052', 'ip': '127.0.0.1', 'control_password': 'password'}]

class Collector(Base):
    OPTIONS = dict(COMMON, tally_server_info=INFO * 3 + BAD_INFO,
                   event_source=SOURCES * 2 + ['absent', None, {'port': 0}, {'unix': ''}, [{'port': 9051}, {'port': 'x'}], {'ip': '127.0.0.1'},
                                               {'port': 9051, 'control_password': ''}],
                   share_keepers=[['a' * 64], ['a' * 64, 'b' * 64], [], 'absent'],
                   rotate_period=[600, 1, 'absent', 60.5, 0, -600],
                   use_setconf=[True, False, 'absent', 0, 1],
                   name=['dc', 'another', '', 'absent'])
    kind = 'data collectors'

    def fill(self):
        self.o = {'name': 'dc', 'tally_server_info': dict(INFO[0]), 'event_source': dict(SOURCES[0]), 'share_keepers': ['a' * 64],
                  'secret_handshake': self.file('hs0')}

    def node(self):
        return DataCollector(self.path)

    def more(self):
        Base.more(self)
        k = self.rng.random()
        if k < 0.15:
            self.top['rotate_period'] = self.rng.choice([120, 300, 0])
        elif k < 0.25:
            self.top.pop('rotate_period', None)

    def write(self):
        conf = dict(self.top)
        self.top_written = dict(self.top)
        if self.rng.random() < 0.05:
            self.written = None
        else:
            conf['data_collector'] = self.o
            self.written = copy.deepcopy(self.o)
        rounds.write(self.path, conf)

    def expect(self):
        o = self.written
        if o is None or o.get('tally_server_info') not in INFO or o.get('event_source') not in SOURCES or not o.get('name') or \
                'share_keepers' not in o:
            return None
        rotate = o.get('rotate_period', self.top_written.get('rotate_period', 600))
        want = self.common(o)
        if want is None or rotate <= 0:
            return None
        want.update(name=o['name'], tally_server_info=o['tally_server_info'], event_source=o['event_source'], rotate_period=rotate,
                    share_keepers=o['share_keepers'], use_setconf=bool(o.get('use_setconf', True)))
        return want

TIMES = [('2018-01-01T00:00:00Z', 1514764800.0), ('1970-01-01T00:00:01Z', 1.0), ('2016-02-29T23:59:59Z', 1456790399.0),
         ('2030-12-31T12:30:00Z', 1924950600.0)]

class Server(Base):
    OPTIONS = dict(COMMON,
                   circuit_sample_rate=[1.0, 0.5, 0, 1, '0.25', 'absent', 0.001, 1.01, -0.1, 2, -1],
                   max_cell_events_per_circuit=[-1, 0, 5, '7', 10000, 'absent'],
                   collect_period=[10, 60, 3600, 86400, 7, 2, 'absent', 0, -10, 1],
                   event_period=[1, 5, 60, 600, 'absent', 0, -1, 30.5],
                   checkin_period=[1, 5, 60, 600, 'absent', 0, -1, 20.5],
                   listen_port=[20001, 1, 65535, 'absent', 0, -1],
                   sk_threshold=[1, 2, 10, 'absent', 0, -1],
                   dc_threshold=[1, 2, 3, 'absent', 0, -1],
                   noise_weight=[{'*': 1.0}, {'*': 2, 'A' * 40: 0.5}, {'A' * 40: 1.0, 'B' * 40: 0.0}, 'absent', {}, {'*': -1.0},
                                 {'A' * 40: -0.5, '*': 1}, {'*': 1e30}],
                   reject_overlapping_lists=[True, False, 'absent', 'no thanks', 0],
                   start_after=[t for t, _ in TIMES] + ['absent'],
                   counter_name_accept=['', 'absent', 'absent', 'Count', '^Exit', 'Circuit|Stream', '(Entry|HSDir).*', 'Zero'],
                   counter_name_reject=['', 'absent', 'absent', 'HSDir', 'Histogram$', 'Count', 'e'])
    OPTIONS['continue'] = [True, False, 0, 1, 5, 'absent', -1]
    kind = 'tally servers'

    def fill(self):
        rng = self.rng
        self.o = {'listen_port': 20001, 'sk_threshold': 1, 'dc_threshold': 1, 'noise_weight': {'*': 1.0}, 'collect_period': 60,
                  'key': keys.path(0), 'cert': self.file('cert.pem'), 'secret_handshake': self.file('hs0')}
        f = open(self.file('cert.pem'), 'w')
        f.close()
        self.defect = None
        self.new_counters()

    def new_counters(self):
        rng = self.rng
        self.bins, self.noise = {}, {}
        self.privacy = rng.random() < 0.2
        for k in rng.sample(KNOWN, rng.choice([1, 2, 4, 8]) if not self.privacy else rng.choice([1, 2, 3])):
            self.bins[k] = {'bins': [[0.0, INF]] if c06.one_bin(k) else rand_bins(rng, rng.randrange(2, 5))}
            self.noise[k] = {'sigma': rng.choice([0.0, 1.5, 240.0, 10 ** 6])} if not self.privacy else \
                {'sensitivity': rng.choice([1.0, 6.0, 240.0]), 'estimated_value': rng.choice([100.0, 4000.0, 10.0 ** 6])}
        self.budget = {'epsilon': rng.choice([0.3, 1.0]), 'delta': rng.choice([1e-3, 1e-6]), 'excess_noise_ratio': rng.choice([1.0, 2.5])}
        if rng.random() < 0.3:
            self.budget['sigma_tolerance'] = rng.choice([1e-6, 1e-4, 0.01])
        self.layout = (rng.choice(['inline', 'file']), rng.choice(['inline', 'file']))

    def more(self):
        Base.more(self)
        rng = self.rng
        k = rng.random()
        if k < 0.35:
            self.new_counters()
        self.defect = None
        if rng.random() < 0.25:
            self.defect = rng.choice(['unknown counter', 'no bins', 'no noise', 'extra bins', 'extra noise', 'overlap', 'negative sigma',
                                      'no results', 'no allocation', 'no file', 'empty bins', 'several bins', 'bad secret', 'no tally server',
                                      'no model', 'overlapping files'])
        k = rng.random()
        if k < 0.2:
            d = self.file('results%d' % rng.randrange(3))
            if not os.path.exists(d):
                os.mkdir(d)
            self.o['results'] = d
        elif k < 0.3:
            self.o.pop('results', None)
        if rng.random() < 0.2:
            self.o['allocation'] = self.file('allocation%d.yaml' % rng.randrange(2))

    def node(self):
        return TallyServer(self.path)

    def write(self):
        rng, o, x = self.rng, copy.deepcopy(self.o), self.defect
        bins, noise = copy.deepcopy(self.bins), copy.deepcopy(self.noise)
        privacy = self.privacy
        layout = self.layout
        if x == 'overlapping files':
            for n in (1, 2):
                f = open(self.file('countries%d' % n), 'w')
                f.write('us\n' + ('de' if n == 1 else 'fr') + '\n')
                f.close()
            o.pop('reject_overlapping_lists', None)
            o['country_files'] = [self.file('countries1'), self.file('countries2')]
        k = rng.choice(sorted(bins))
        if x == 'unknown counter':
            bins['NoSuchCount'] = {'bins': [[0.0, INF]]}
            noise['NoSuchCount'] = dict(noise[k])
        elif x in ('no bins', 'extra noise'):
            other = rng.choice([c for c in KNOWN if c not in bins])
            noise[other] = dict(noise[k])
            layout = ('file', 'file')
        elif x in ('no noise', 'extra bins'):
            other = rng.choice([c for c in KNOWN if c not in bins])
            bins[other] = {'bins': [[0.0, INF]] if c06.one_bin(other) else [[0.0, 1.0], [1.0, INF]]}
            layout = ('file', 'file')
        elif x == 'overlap':
            b = bins[k]['bins']
            b.append([b[0][0] + 0.1, b[0][0] + 0.2])
        elif x == 'negative sigma':
            if privacy:
                x = None
            else:
                noise[k]['sigma'] = -1.0
        elif x == 'empty bins':
            bins[k]['bins'] = []
        elif x == 'several bins':
            bins[k]['bins'] = [[0.0, 1.0], [1.0, INF]] if c06.one_bin(k) else [[0.0, INF]]
        if x == 'no results':
            o['results'] = self.file('nowhere')
        elif x == 'no allocation':
            o['allocation'] = self.file('nowhere/allocation.yaml')
        elif x == 'no model':
            o['traffic_model'] = self.file('nowhere.json')
        conf = copy.deepcopy(self.top)
        conf['tally_server'] = o
        for old in ('counters', 'noise', 'sigmas'):
            o.pop(old, None)
        where, nwhere = layout
        if privacy and nwhere == 'inline' or where == 'inline' or nwhere == 'inline' and not privacy:
            # the counters of the main file are both, or one of them
            conf['counters'] = {}
            if where == 'inline':
                for c in bins:
                    conf['counters'].setdefault(c, {}).update(bins[c])
            if nwhere == 'inline':
                for c in noise:
                    conf['counters'].setdefault(c, {}).update(noise[c])
        if where == 'file':
            o['counters'] = self.file('bins%d.yaml' % rng.randrange(2))
            rounds.write(o['counters'], {'counters': bins})
        if nwhere == 'inline' and privacy:
            conf['privacy'] = self.budget
            if rng.random() < 0.3:
                # (ignored)
                o['sigmas'] = self.file('sigmas0.yaml')
                rounds.write(o['sigmas'], {'counters': dict((c, {'sigma': 77.0}) for c in bins)})
        elif nwhere == 'file':
            name = 'noise' if privacy else 'sigmas'
            o[name] = self.file('%s%d.yaml' % (name, rng.randrange(2)))
            content = {'counters': noise}
            if privacy:
                content['privacy'] = self.budget
            rounds.write(o[name], content)
        if x == 'no file':
            f = rng.choice(['counters', 'noise', 'sigmas'])
            o['noise' if f == 'sigmas' and privacy else f] = self.file('nowhere.yaml')
        h = self.handshake(o)
        if x == 'bad secret':
            f = open(h, 'w')
            f.write('too short')
            f.close()
        elif os.path.exists(h) and open_read(h) == 'too short':
            os.remove(h)
        self.created = not os.path.exists(h)
        self.written, self.w_bins, self.w_noise, self.w_privacy, self.w_defect = o, bins, noise, privacy, x
        if x == 'no tally server':
            conf.pop('tally_server')
        rounds.write(self.path, conf)

    def expect(self):
        o, x = self.written, self.w_defect
        accept, reject = o.get('counter_name_accept', ''), o.get('counter_name_reject', '')
        kept = [c for c in self.w_bins if (not accept or re.search(accept, c)) and not (reject and re.search(reject, c))]
        both = [c for c in self.w_bins if c in self.w_noise]
        bins = dict((c, self.w_bins[c]['bins']) for c in self.w_bins if c in kept or c not in both)
        noise = dict((c, self.w_noise[c]) for c in self.w_noise if c in kept or c not in both)
        self.filtered = len(self.w_bins) - len(bins)
        # (a budget without counters, or whose circuits are never sampled, can not be allocated)
        self.nothing = self.w_privacy and (not noise or o.get('circuit_sample_rate') == 0)
        if self.nothing:
            return None
        if x in ('no results', 'no allocation', 'no file', 'bad secret', 'no tally server', 'no model', 'overlapping files'):
            return None
        want = self.common(o)
        if want is None or set(bins) != set(noise):
            return None
        known = get_valid_counters()
        if not c06.ref_bins(dict((c, {'bins': bins[c]}) for c in bins), False, known):
            return None
        if not self.w_privacy and not c06.ref_sigmas(noise, False, known):
            return None
        tol = want['sigma_decrease_tolerance']
        if self.w_privacy and tol < self.budget.get('sigma_tolerance', 1e-6):
            return None
        rate = float(o.get('circuit_sample_rate', 1.0))
        cp = o.get('collect_period')
        if not 0 <= rate <= 1 or cp is None or cp <= 0:
            return None
        half = cp // 2
        ep, ch = min(o.get('event_period', 600), half), min(o.get('checkin_period', 600), half)
        self.reduced = ep != o.get('event_period', 600) or ch != o.get('checkin_period', 600)
        if ep <= 0 or ch <= 0:
            return None
        for k in ('listen_port', 'sk_threshold', 'dc_threshold'):
            if o.get(k, 0) <= 0:
                return None
        if 'noise_weight' not in o or not c06.ref_weights(o['noise_weight'], o['dc_threshold']):
            return None
        overlap = o.get('reject_overlapping_lists', True)
        if not isinstance(overlap, bool):
            return None
        cont = o.get('continue', False)
        if cont is not True and cont is not False and cont < 0:
            return None
        want.update({'circuit_sample_rate': rate, 'max_cell_events_per_circuit': int(o.get('max_cell_events_per_circuit', -1)),
                     'collect_period': cp, 'event_period': ep, 'checkin_period': ch, 'listen_port': o['listen_port'],
                     'sk_threshold': o['sk_threshold'], 'dc_threshold': o['dc_threshold'], 'noise_weight': o['noise_weight'],
                     'reject_overlapping_lists': overlap, 'continue': cont, 'start_after_time': dict(TIMES).get(o.get('start_after'), 0),
                     'results': o.get('results', os.path.abspath('.')), 'key': o['key'], 'cert': o['cert']})
        bins['ZeroCount'] = [[-INF, INF]]
        want['bins'] = bins
        if self.w_privacy:
            a = get_noise_allocation({'privacy': dict(self.budget), 'counters': copy.deepcopy(noise)}, circuit_sample_rate=rate)
            want['sigmas'] = dict((c, a['counters'][c]['sigma']) for c in a['counters'])
        else:
            want['sigmas'] = dict((c, noise[c]['sigma']) for c in noise)
        want['sigmas']['ZeroCount'] = 0.0
        return want

def open_read(p):
    f = open(p)
    try:
        return f.read()
    finally:
        f.close()

def view(config, kind):
    'the parts of a configuration that are documented'
    if config is None:
        return None
    v = dict(config)
    if kind == 'tally servers':
        v['bins'] = dict((c, config['counters'][c]['bins']) for c in config['counters'])
        v['sigmas'] = dict((c, config['noise']['counters'][c]['sigma']) for c in config['noise']['counters'])
    return v

def setup(ctx):
    simenv.set_logging(False)

def case(ctx, rng, i):
    d = os.path.join(os.getcwd(), 'c32-%d' % i)
    os.mkdir(d)
    try:
        steps(ctx, rng, i, d)
    finally:
        shutil.rmtree(d)

def steps(ctx, rng, i, d):
    spec = rng.choice([Server, Server, Server, Keeper, Collector])(ctx, rng, d)
    ctx.count(spec.kind)
    node = spec.node()
    history = []
    current = None
    for step in range(rng.randrange(3, 9)):
        saved = copy.deepcopy((spec.o, spec.top))
        if step or rng.random() < 0.4:
            spec.vary()
        spec.write()
        want = spec.expect()
        before = copy.deepcopy(node.config)
        w = dict(kind=spec.kind, options=spec.written, top=spec.top, defect=getattr(spec, 'w_defect', None), history=history[-3:])
        if getattr(spec, 'nothing', False):
            continue
        node.refresh_config()
        if want is None:
            ctx.check(node.config == before, 'an invalid configuration changes nothing', changed=differences(node.config, before), **w)
            ctx.count('versions refused')
            ctx.count('refused and kept', before is not None)
            # (so that not all options become invalid over time)
            spec.o, spec.top = saved
            if rng.random() < 0.3:
                fresh = spec.node()
                fresh.refresh_config()
                ctx.check(fresh.config is None, 'a node does not start with an invalid configuration', **w)
        else:
            got = view(node.config, spec.kind)
            ctx.check(got is not None, 'a valid configuration is accepted', **w)
            for k in sorted(want):
                ctx.check(k in got, 'the configuration has every option', option=k, **w)
                if k == 'sigmas':
                    same_sigmas(ctx, got[k], want[k], w)
                    continue
                ctx.check(got[k] == want[k] and isinstance(got[k], bool) == isinstance(want[k], bool), 'the options have the configured values, or their defaults',
                          option=k, value=got[k], expected=want[k], **w)
            ctx.count('versions accepted')
            if spec.kind == 'tally servers':
                server(ctx, spec, node, w)
            if rng.random() < 0.5:
                fresh = spec.node()
                fresh.refresh_config()
                f = view(fresh.config, spec.kind)
                if spec.kind == 'tally servers':
                    # (the order of the allocation is that of a dictionary)
                    ctx.eq([k for k in differences(fresh.config, node.config) if k != 'noise'], [],
                           'a node that reads its configuration again has the one of a fresh node', **w)
                    same_sigmas(ctx, f['sigmas'], view(node.config, spec.kind)['sigmas'], w)
                else:
                    for k in sorted(want):
                        ctx.eq(got[k], f[k], 'a node that reads its configuration again has the one of a fresh node', option=k, **w)
                ctx.count('fresh nodes compared')
        ctx.nontrivial(spec.kind, repr(sorted(spec.written.items())) if spec.written else None, getattr(spec, 'w_defect', None))
        history.append({'options': spec.written, 'accepted': want is not None})
        if i % 40 == 0:
            ctx.sample({'kind': spec.kind, 'options': spec.written, 'accepted': want is not None})

def same_sigmas(ctx, got, want, w):
    ctx.eq(sorted(got), sorted(want), 'the counters that have noise', **w)
    for c in want:
        ctx.close(got[c], want[c], 'the configured or allocated noise', counter=c, **w)

def server(ctx, spec, node, w):
    if spec.created:
        secret = base64.b64decode(open_read(spec.handshake(spec.written)))
        ctx.eq(len(secret), 32, 'a secret handshake is created when there is none', **w)
        ctx.count('secrets created')
    ctx.eq(node.config['noise'].get('privacy') is not None, spec.w_privacy, 'the privacy budget is kept with the noise', **w)
    ctx.count('noise allocated', spec.w_privacy)
    ctx.count('counters filtered', spec.filtered)
    ctx.count('periods reduced', spec.reduced)
    if spec.w_privacy and 'allocation' in spec.written:
        import yaml
        a = yaml.load(open_read(spec.written['allocation']))
        ctx.check(isinstance(a, dict) and set(a['counters']) == set(node.config['noise']['counters']), 'the allocated noise is written', **w)
        for c in a['counters']:
            ctx.close(a['counters'][c]['sigma'], node.config['noise']['counters'][c]['sigma'], 'the allocated noise is written', counter=c, **w)
        ctx.count('allocations written')

def differences(a, b):
    if a is None or b is None:
        return 'one is missing'
    return sorted(k for k in set(a) | set(b) if k not in a or k not in b or a[k] != b[k])
