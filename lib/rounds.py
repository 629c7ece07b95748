'''
What a client needs for a round: configurations of nodes on disk, start
commands, an independent model of the enforced delay, and helpers that look
for values that must not be kept.
'''
import copy
import os
import yaml

from gen import *
import keys

KNOWN = ['ZeroCount', 'ExitStreamCount', 'ExitStreamByteCount', 'EntryConnectionCount', 'ExitStreamLifeTime', 'ExitStreamByteHistogram',
         'EntryConnectionByteHistogram', 'HSDir2StoreCount', 'EntryClientIPCount', 'HSDirStoreIntroByteHistogram',
         'ExitWebStreamByteRatio', 'EntryConnectionLifeTime']

def is_single(name):
    return name.endswith('Count')

def counters(rng, names=None, most=4):
    'bins and sigmas of a start command'
    if names is None:
        names = rng.sample(KNOWN, rng.randrange(1, most + 1))
    c, n = {}, {}
    for k in names:
        if is_single(k):
            c[k] = {'bins': [[0.0, INF]]}
        else:
            c[k] = {'bins': rand_bins(rng, rng.randrange(2, 5))}
        n[k] = {'sigma': rng.choice([0.0, 1.0, 240.0, 10.0 ** 6]), 'sensitivity': 10.0}
    return c, n

def needs_delay(first, proposed, tol):
    if first is None:
        return False
    return set(first) != set(proposed) or any(first[k] > proposed[k] and first[k] - proposed[k] > tol for k in first)

class Delay(object):
    'the reference of the enforced delay of one client'
    def __init__(self, delay, always=False, tol=1e-6):
        self.delay, self.always, self.tol = delay, always, tol
        self.first, self.end = None, None
    def permitted(self, sigmas, now):
        if self.end is None:
            return True
        if self.always or needs_delay(self.first, sigmas, self.tol):
            return now >= self.end + self.delay
        return now >= self.end
    def success(self, sigmas, end):
        if self.first is None or self.always or needs_delay(self.first, sigmas, self.tol):
            self.first = dict(sigmas)
        self.end = end

def sigmas(noise):
    return dict((k, noise['counters'][k]['sigma']) for k in noise['counters'])

def write(path, obj):
    f = open(path, 'w')
    yaml.dump(obj, f, default_flow_style=False)
    f.close()

def hold(x, secret, depth=0, seen=None):
    'is one of the secret numbers reachable from x?'
    if seen is None:
        seen = set()
    if isinstance(x, bool) or x is None:
        return False
    if isinstance(x, (int, long)):
        return x in secret
    if isinstance(x, (float, str, unicode)) or id(x) in seen or depth > 9:
        return False
    seen.add(id(x))
    if isinstance(x, dict):
        return any(hold(k, secret, depth + 1, seen) or hold(v, secret, depth + 1, seen) for k, v in x.items())
    if isinstance(x, (list, tuple, set, frozenset)):
        return any(hold(v, secret, depth + 1, seen) for v in x)
    if hasattr(x, '__dict__'):
        return hold(x.__dict__, secret, depth + 1, seen)
    return False

def values(counts):
    return dict(((k, b), long(counts[k]['bins'][b][2])) for k in counts for b in range(len(counts[k]['bins'])))
