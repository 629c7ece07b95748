'''
Drives a real data collector through one round with a stream of Tor events,
and compares the counts it reports with an independent reference.

Nothing here decides what an event should count: each check has its own
reference, which maps an event to increments {(counter, value): amount}.
'''
import base64
import os

import keys
import rounds
from gen import *
from simenv import VTime, Rand, reactor
from privcount import crypto, counter
from privcount.data_collector import DataCollector

M = 2 ** 70
SINGLE = None

# every lookup of a counter name copies the whole table: keep the copy, until
# counters are added to the table
def _remember(fn):
    kept = {}
    def valid_counters():
        n = len(counter.PRIVCOUNT_COUNTER_EVENTS)
        if n not in kept:
            kept.clear()
            kept[n] = frozenset(fn())
        return kept[n]
    return valid_counters

if hasattr(counter, 'get_valid_counters') and hasattr(counter, 'PRIVCOUNT_COUNTER_EVENTS'):
    from privcount import data_collector as _dc
    _old = counter.get_valid_counters
    counter.get_valid_counters = _remember(_old)
    if getattr(_dc, 'get_valid_counters', None) is _old:
        _dc.get_valid_counters = counter.get_valid_counters

def is_single(name):
    'counters named *Count have one bin'
    return name.endswith('Count')

def is_list(name):
    return name.endswith('CountList')

_known = []
def known_names():
    if not _known:
        _known.append(frozenset(counter.get_valid_counters()))
    return _known[0]

def add(effect, name, value, inc):
    k = (name, None if is_single(name) else value)
    effect[k] = effect.get(k, 0) + inc

def merge(total, effect):
    for k in effect:
        total[k] = total.get(k, 0) + effect[k]

def make_bins(rng, name, values, n_lists=None):
    if is_single(name):
        return [[0.0, INF]]
    if is_list(name):
        n = n_lists if n_lists is not None else rng.randrange(1, 4)
        return [[float(i), float(i + 1)] for i in range(n)] + [[float(n), INF]]
    finite = sorted(set(float(v) for v in values if abs(v) < 1e18))
    edges = set()
    pool = finite if len(finite) < 7 else rng.sample(finite, 7)
    for v in pool:
        # (a ratio is the logarithm of a quotient: rounding decides on which side of an exact edge it falls)
        exact = not name.endswith('Ratio') and rng.random() < 0.7
        edges.add(v if exact else v + rng.choice([0.5, 0.125, -0.25]) * (1.0078125 if name.endswith('Ratio') else 1))
    while len(edges) < 3:
        edges.add(float(rng.choice([0, 1, 2, 5, 100, 514, 10 ** 6])))
    edges = sorted(edges)
    bins = [[a, b] for a, b in zip(edges, edges[1:])]
    if rng.random() < 0.6:
        bins.insert(0, [-INF, edges[0]])
    if rng.random() < 0.8:
        bins.append([edges[-1], INF])
    if len(bins) > 3 and rng.random() < 0.3:
        del bins[rng.randrange(len(bins))]
    return bins

def in_bin(l, u, v):
    return l <= v and (v < u or u == INF)

def expected(bins, total):
    'the count of each bin'
    want = dict(((k, b), 0) for k in bins for b in range(len(bins[k])))
    for (name, v), inc in total.items():
        if name in bins:
            for b, (l, u) in enumerate(bins[name]):
                if is_single(name) or in_bin(l, u, v):
                    want[(name, b)] = (want[(name, b)] + inc) % M
    return want

def choose(rng, known, touched, family, most, others):
    'names to collect: mostly ones that will change, and some others of the same family'
    touched = sorted(n for n in touched if n in known)
    seen = set(touched)
    rest = sorted(n for n in family if n in known and n not in seen)
    names = touched if len(touched) <= most else rng.sample(touched, most)
    names = names + (rest if len(rest) <= others else rng.sample(rest, others))
    return names or ['ZeroCount']

class Collector(object):
    def __init__(self, ctx, bins, extra=None, rotate=600, fingerprint=True, conf=None, source=None, sigma=0.0, z=0.0):
        self.ctx, self.bins = ctx, bins
        d = ctx.scratch()
        path = os.path.join(d, 'dc.yaml')
        section = {'name': 'dc', 'delay_period': 0, 'event_source': {'port': 20003, 'ip': '127.0.0.1'}, 'rotate_period': rotate,
                   'tally_server_info': {'ip': '127.0.0.1', 'port': 9999}, 'secret_handshake': os.path.join(d, 'hs'),
                   'share_keepers': [keys.digest(0)]}
        section.update(conf or {})
        section['event_source'].update(source or {})
        rounds.write(path, {'data_collector': section})
        self.dc = DataCollector(path)
        self.dc.refresh_config()
        Rand.gauss_hook = lambda: z
        cmd = {'counters': dict((k, {'bins': bins[k]}) for k in bins),
               'noise': {'counters': dict((k, {'sigma': sigma}) for k in bins)}, 'noise_weight': {'*': 1.0}, 'dc_threshold': 1,
               'collect_period': 10 ** 6,
               'sharekeepers': {'sk0': base64.b64encode(crypto.get_serialized_public_key(keys.path(0)))}}
        cmd.update(extra or {})
        r = self.dc.do_start(jcopy(cmd))
        ctx.check(isinstance(r, dict), 'the round starts', returned=r)
        share = crypto.decrypt(keys.pair(0)[1], jcopy(r)['sk0']['secret'])
        self.share = dict(((k, b), long(share[k]['bins'][b][2])) for k in bins for b in range(len(bins[k])))
        reactor.advance(0.5)
        if fingerprint:
            self.dc.aggregator.set_fingerprint('A' * 40)

    def event(self, code, items):
        return self.dc.aggregator.handle_event([code] + list(items))

    def stop(self):
        'the true counts: what is reported, without the blinding'
        r = self.dc.do_stop({'send_counters': True})
        self.ctx.check('Counts' in (r or {}), 'the counts are reported')
        return self.unblind(r['Counts'])

    def unblind(self, c):
        self.ctx.eq(sorted(c), sorted(self.bins), 'every configured counter is reported')
        got = rounds.values(c)
        return dict((k, (got[k] - self.share.get(k, 0)) % M) for k in got)

def signed_(v):
    return v - M if v >= M // 2 else v

def compare(ctx, bins, got, total, what, **witness):
    want = expected(bins, total)
    if got != want:
        diff = {}
        for k in sorted(set(got) | set(want)):
            if got.get(k) != want.get(k):
                diff['%s %s' % (k[0], bins[k[0]][k[1]] if k[0] in bins and k[1] < len(bins[k[0]]) else k[1])] = (
                    signed_(got[k]) if k in got else None, signed_(want[k]) if k in want else None)
                if len(diff) > 8:
                    break
        ctx.eq(diff, {}, what + ' (counted, expected)', **witness)
    ctx.checks += len(want)
    ctx.count('bins compared', len(want))
    ctx.count('bins that changed', sum(1 for k in want if want[k]))

def tagged(rng, fields):
    'the fields of a tagged event on the wire: in any order, sometimes with doubled spaces between them'
    items = ['%s=%s' % (k, fields[k]) for k in fields]
    rng.shuffle(items)
    if rng.random() < 0.05:
        items.insert(rng.randrange(len(items) + 1), '')
    return items
