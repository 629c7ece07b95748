'''C38: the part of the network that a set of relays sees.'''
import datetime
import os
import re
import shutil
import StringIO
import sys
import types

import simenv
from gen import *

ID, LEVEL = 'C38', 'exploration'
RULE = ('random consensuses of relays with all kinds of flags, versions, protocols, policies and weights; one or several, as files, in directories, '
        'or downloaded; all kinds of choices of relays; distinct by the consensuses and the choice')
ASSUMPTIONS = ['stem and numpy are not installed here: stand-ins provide parsed consensuses, the mean, and versions',
               'each consensus has at least three HSDirs and all bandwidth weights']
QUICK = dict(cases=3000, seconds=15)
THOROUGH = dict(cases=100000, seconds=600)
REQUIRE = {'runs': 600, 'fractions': 8000, 'fractions between 0 and 1': 3000, 'relays': 6000, 'several consensuses': 200, 'all relays': 60,
           'no relays': 60, 'unknown relays': 150, 'downloads': 60, 'process pools': 60, 'unexpected parameters': 50}
MIN_DISTINCT = 500

class Flag(object):
    GUARD, EXIT, FAST, STABLE, HSDIR, RUNNING, VALID, BADEXIT = 'Guard', 'Exit', 'Fast', 'Stable', 'HSDir', 'Running', 'Valid', 'BadExit'

class Version(object):
    def __init__(self, s):
        self.s = s
        self.t = tuple(int(x) for x in s.split('-')[0].split('.'))

    def __cmp__(self, o):
        return cmp(self.t, o.t)

    def __hash__(self):
        return hash(self.t)

class Policy(object):
    def __init__(self, exits):
        self.exits = exits

    def is_exiting_allowed(self):
        return self.exits

class Struct(object):
    def __init__(self, **kw):
        self.__dict__.update(kw)

class Consensus(Struct):
    def __str__(self):
        return 'consensus %s' % self.name

class State(object):
    'what the tool can find'
    files, latest, pools = {}, None, 0

class DocumentHandler(object):
    DOCUMENT, ENTRIES = 'DOCUMENT', 'ENTRIES'

def parse_file(path, descriptor_type=None, validate=False, document_handler='ENTRIES', **kw):
    assert document_handler == 'DOCUMENT'
    f = open(path)
    text = f.read()
    f.close()
    return iter([State.files[text.split('\n')[-1]]])

class Downloader(object):
    def __init__(self, *a, **k):
        pass

    def get_consensus(self, document_handler='ENTRIES', **kw):
        assert document_handler == 'DOCUMENT'
        return self

    def run(self):
        return [State.latest]

class Result(object):
    def __init__(self, r):
        self.r, self.n = r, 2

    def ready(self):
        self.n -= 1
        return self.n < 0

    def wait(self, timeout=None):
        pass

    def get(self, timeout=None):
        return self.r

class Pool(object):
    def __init__(self, n=None):
        State.pools += 1

    def map_async(self, f, items):
        return Result([f(x) for x in items])

    def map(self, f, items):
        return [f(x) for x in items]

    def terminate(self):
        pass

    close = join = terminate

T = {}

def setup(ctx):
    simenv.set_logging(False)
    def module(name, **kw):
        m = types.ModuleType(name)
        m.__dict__.update(kw)
        sys.modules[name] = m
        return m
    remote = module('stem.descriptor.remote', DescriptorDownloader=Downloader)
    descriptor = module('stem.descriptor', parse_file=parse_file, DocumentHandler=DocumentHandler, remote=remote)
    version = module('stem.version', Version=Version)
    module('stem', Flag=Flag, descriptor=descriptor, version=version)
    module('numpy', mean=lambda l: sum(l) / float(len(l)))
    module('multiprocessing', Pool=Pool, cpu_count=lambda: 4)
    path = os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'privcount', 'tools', 'compute_fractional_position_weights')
    f = open(path)
    source = f.read()
    f.close()
    T['__name__'] = 'weights'
    exec compile(source, path, 'exec') in T

# ------------------------------------------------------------------- inputs

def fingerprint(rng):
    if rng.random() < 0.1:
        return '%040X' % rng.choice([0, 1, 2, 16 ** 40 - 1, 16 ** 40 - 2, 16 ** 39])
    return '%040X' % rng.randrange(16 ** 40)

WEIGHTS = ['Wgg', 'Wgm', 'Wgd', 'Wmg', 'Wmm', 'Wme', 'Wmd', 'Weg', 'Wem', 'Wee', 'Wed', 'Wbd', 'Wdb']

def consensus(rng, name, known):
    scale = rng.choice([None, 1, 100, 10000])
    weights = dict((w, rng.choice([0, scale or 1, rng.randrange(10001)])) for w in WEIGHTS)
    params = {'CircuitPriorityHalflifeMsec': 30000}
    if scale is not None:
        params['bwweightscale'] = scale
    odd = False
    for p, usual in (('hsdir_spread_store', 4), ('hsdir_n_replicas', 2)):
        if rng.random() < 0.2:
            params[p] = rng.choice([usual, usual, 3])
            odd = odd or params[p] != usual
    routers = {}
    n = rng.choice([3, 4, 6, 10, 20])
    for j in range(n):
        f = rng.choice(known) if known and rng.random() < 0.4 else fingerprint(rng)
        known.append(f)
        flags = set(x for x in ('Guard', 'Exit', 'Fast', 'Stable', 'HSDir', 'Running', 'Valid') if rng.random() < 0.6)
        if rng.random() < 0.1:
            flags.add('BadExit')
        protocols = None
        if rng.random() < 0.9:
            protocols = {'Link': [1, 2, 3, 4]}
            for p in ('HSDir', 'HSRend', 'HSIntro'):
                if rng.random() < 0.85:
                    protocols[p] = rng.choice([[1], [1, 2], [2], [1, 2, 3], [3], [1, 3]])
        routers[f] = Struct(fingerprint=f, flags=sorted(flags), bandwidth=rng.choice([0, 1, 20, 1000, rng.randrange(100000)]),
                            version=Version(rng.choice(['0.2.9.11', '0.3.0.7', '0.3.0.8', '0.3.0.10', '0.3.1.0-alpha', '0.4.8.9', '0.3.0.8-rc'])),
                            protocols=protocols, exit_policy=Policy(rng.random() < ('Exit' in flags and 0.9 or 0.3)))
    while len([r for r in routers.values() if 'HSDir' in r.flags]) < 3:
        r = rng.choice([r for r in routers.values() if 'HSDir' not in r.flags] or [None])
        if r is None:
            return consensus(rng, name, known)
        r.flags = sorted(r.flags + ['HSDir'])
    day = datetime.datetime(2017, 1 + rng.randrange(12), 1 + rng.randrange(28), rng.randrange(24))
    return Consensus(name=name, params=params, bandwidth_weights=weights, routers=routers, valid_after=day, odd=odd)

# ---------------------------------------------------------------- reference

def weight_of(c, r, position):
    'the chance of a relay in a position, up to a factor'
    guard, exit = 'Guard' in r.flags, 'Exit' in r.flags
    w = lambda p: float(c.bandwidth_weights['W' + p + ('d' if guard and exit else 'g' if guard else 'e' if exit else 'm')]) * r.bandwidth
    if position == 'guard':
        return w('g') if guard and 'Fast' in r.flags and 'Stable' in r.flags else 0.0
    if position == 'exit':
        return w('e') if r.exit_policy.exits and 'BadExit' not in r.flags else 0.0
    if position == 'intro' and 'Stable' not in r.flags:
        return 0.0
    if position == 'rend3' and 2 not in (r.protocols or {}).get('HSRend', []):
        return 0.0
    if position == 'hsdir3':
        return float('HSDir' in r.flags and r.version.t >= (0, 3, 0, 8) and 2 in (r.protocols or {}).get('HSDir', []))
    return w('m')

def ring(c):
    'how many of 3 x the ring each directory is responsible for'
    places = sorted((int(f, 16), f) for f, r in c.routers.items() if 'HSDir' in r.flags)
    size = 16 ** 40
    r = {}
    for j, (p, f) in enumerate(places):
        # a descriptor is stored at the next three: this one is the third after place j - 3
        d = (p - places[(j - 3) % len(places)][0]) % size
        r[f] = float(d or size) / size
    return r

def fractions(c, mine):
    r = {}
    for p in ('guard', 'middle', 'exit', 'hsdir3', 'intro', 'rend2', 'rend3'):
        total = sum(weight_of(c, x, p) for x in c.routers.values())
        r[p] = sum(weight_of(c, x, p) for f, x in c.routers.items() if f in mine) / total if total else 0.0
    share = ring(c)
    r['hsdir2'] = sum(v for f, v in share.items() if f in mine) / 3.0
    return r

#: (the start of the description, position, how many of what is counted there are in the whole network for each)
LINES = [('guard use', 'guard', 1.0), ('middle use', 'middle', 1.0), ('exit use', 'exit', 1.0), ('hsdir2 spread-weighted service', 'hsdir2', 6 * 25 / 24.0),
         ('hsdir2 spread-weighted client', 'hsdir2', 1.0), ('hsdir3 relay', 'hsdir3', 1.0), ('hsdir3 approximate service', 'hsdir3', 8.0),
         ('hsdir3 approximate client', 'hsdir3', 0.5), ('intro2,3 service', 'intro', 3.0), ('intro2,3 client', 'intro', 1.0), ('rend2', 'rend2', 1.0),
         ('rend3', 'rend3', 1.0)]

def case(ctx, rng, i):
    d = os.path.join(os.getcwd(), 'c38-%d' % i)
    os.mkdir(d)
    here = os.getcwd()
    os.chdir(d)
    try:
        run(ctx, rng, i, d)
    finally:
        os.chdir(here)
        shutil.rmtree(d)

def write(path, c):
    f = open(path, 'w')
    f.write('@type network-status-consensus-3 1.0\n' + str(c))
    f.close()

def run(ctx, rng, i, d):
    State.files, State.latest = {}, None
    how = rng.choice(['file', 'directory', 'directory', 'directory', 'download'])
    known, docs = [], []
    for k in range(rng.choice([1, 2, 3]) if how == 'directory' else 1):
        c = consensus(rng, '%d-%d' % (i, k), known)
        State.files[str(c)] = c
        docs.append(c)
        ctx.count('relays', len(c.routers))
    if how == 'download':
        State.latest = docs[0]
        path = '-'
        ctx.count('downloads')
    elif how == 'file':
        path = rng.choice(['cached-consensus', 'some.file'])
        write(os.path.join(d, path), docs[0])
    else:
        os.mkdir(os.path.join(d, 'all'))
        for k, c in enumerate(docs):
            write(os.path.join(d, 'all', rng.choice(['%d-consensus', '2017-0%d-01-00-00-00-consensus']) % k), c)
        for n in rng.sample(['consensus.txt', 'README', '2017-microdesc-consensus.xz'], rng.randrange(3)):
            f = open(os.path.join(d, 'all', n), 'w')
            f.write('x')
            f.close()
        path = 'all'
    if path != '-' and rng.random() < 0.5:
        path = os.path.join(d, path)
    present = set(known)
    k = rng.random()
    if k < 0.15:
        chosen, args = set(present), ['-']
        ctx.count('all relays')
    elif k < 0.3:
        chosen, args = set(), []
        ctx.count('no relays')
    else:
        chosen = set(rng.sample(sorted(present), rng.randrange(1, len(present) + 1)))
        if rng.random() < 0.4:
            chosen.add(fingerprint(rng))
        args = [rng.choice(['', '', '$']) + f for f in chosen]
        rng.shuffle(args)
    argv = ['weights', path] + args
    if rng.random() < 0.25:
        argv.insert(1, '-m')
        ctx.count('process pools')
    out, old = StringIO.StringIO(), (sys.argv, sys.stdout)
    sys.argv, sys.stdout = argv, out
    try:
        T['main']()
    finally:
        sys.argv, sys.stdout = old
    lines = out.getvalue().split('\n')
    w = dict(arguments=argv, consensuses=[dict(params=c.params, weights=c.bandwidth_weights, routers=[
        dict(fingerprint=f, flags=r.flags, bandwidth=r.bandwidth, version=r.version.s, protocols=r.protocols, exits=r.exit_policy.exits)
        for f, r in sorted(c.routers.items())]) for c in docs])
    each = [fractions(c, chosen) for c in docs]
    mean = dict((p, sum(e[p] for e in each) / len(each)) for p in each[0])
    found = []
    for l in lines:
        m = re.match(r'^(-?[0-9.]+(?:e[-+]\d+)?|nan|inf) : (.*)$', l)
        if m:
            found.append((float(m.group(1)), m.group(2)))
    ctx.eq(len(found), len(LINES), 'the number of results', lines=lines, **w)
    for (start, p, factor), (v, text) in zip(LINES, found):
        ctx.check(text.startswith(start), 'the results are in order', text=text, expected=start, **w)
        ctx.check(abs(v - mean[p] * factor) <= 1e-9 * max(1.0, factor), 'the part of the network in a position', text=text, value=v,
                  expected=mean[p] * factor, **w)
        ctx.count('fractions')
        ctx.count('fractions between 0 and 1', 0 < mean[p] < 1)
    missing = sorted(l.split(' ')[0] for l in lines if ' is not in consensus ' in l)
    if args == ['-']:
        ctx.eq(missing, [], 'no relay is missing', **w)
    else:
        ctx.eq(missing, sorted(f for c in docs for f in chosen if f not in c.routers), 'the relays that are not in a consensus', **w)
    ctx.count('unknown relays', len(missing) > 0)
    ctx.count('several consensuses', len(docs) > 1)
    ctx.count('unexpected parameters', any(c.odd for c in docs))
    ctx.count('runs')
    ctx.nontrivial(tuple(argv[2:]), tuple(tuple(sorted(c.routers)) for c in docs))
    if i % 200 == 0:
        ctx.sample(w)
