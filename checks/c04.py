'''C04: an increment changes the bins that contain its value, and only these, by its exact amount.'''
import json
from gen import *
from privcount.counter import SecureCounters

ID, LEVEL = 'C04', 'exploration'
RULE = ('random counter sets and sequences of increments with values at, next to and between the bin edges, infinities, '
        'amounts up to the modulus; distinct by (bins, values), non-trivial when a bin was hit')
ASSUMPTIONS = []
QUICK = dict(cases=2500, seconds=25)
THOROUGH = dict(cases=100000, seconds=900)
REQUIRE = {'increments': 10000, 'outside all bins': 300, 'refused': 1000, 'at an edge': 2000, 'infinite': 500, 'unknown counters': 300}
MIN_DISTINCT = 500

def case(ctx, rng, i):
    counters = rand_counters(rng)
    m = rng.choice(MODULI + [rng.randrange(2, 1000)])
    before = json.dumps(counters, sort_keys=True)
    scs = [SecureCounters(counters, m, require_generate_noise=False) for _ in range(2)]
    wants = [dict((k, [0] * len(counters[k]['bins'])) for k in counters) for _ in range(2)]
    log = []
    for _ in range(rng.randrange(1, 25)):
        j = rng.randrange(2)
        sc, want = scs[j], wants[j]
        k = rng.choice(sorted(counters))
        bins = counters[k]['bins']
        inc = rng.choice([1, 1, 1, 0, -1, 3, 10 ** 9, m - 1, m, m + 1, 2 ** 64, 5L, 8.0])
        r = rng.random()
        if r < 0.06:
            sc.increment('NoSuchCounter' + k, bin=1.0, inc=inc)
            ctx.count('unknown counters')
        elif r < 0.12:
            # a fraction can not be counted exactly: refused, and nothing changes
            v = SecureCounters.SINGLE_BIN if len(bins) == 1 else 1.0
            ctx.must_raise('a fractional increment is refused', sc.increment, k, bin=v, inc=0.5)
            ctx.count('refused')
        elif r < 0.18:
            # a value for a counter with a single bin, or none for a histogram
            v = 1.0 if len(bins) == 1 else SecureCounters.SINGLE_BIN
            ctx.must_raise('a value of the wrong kind is refused', sc.increment, k, bin=v, inc=inc)
            ctx.count('refused')
        elif len(bins) == 1:
            if rng.random() < 0.5:
                sc.increment(k, bin=SecureCounters.SINGLE_BIN, inc=inc)
            else:
                sc.increment(k, inc=inc)
            want[k][0] += int(inc)
            log.append((k, None))
            ctx.count('increments')
        else:
            v = rng.choice(inside_values(rng, bins))
            sc.increment(k, bin=v, inc=inc)
            hit = 0
            for b, (l, u) in enumerate(bins):
                if in_bin(l, u, v):
                    want[k][b] += int(inc)
                    hit += 1
                if v in (l, u):
                    ctx.count('at an edge')
            if v in (INF, -INF):
                ctx.count('infinite')
            if not hit:
                ctx.count('outside all bins')
            log.append((k, v))
            ctx.count('increments')
    for sc, want in zip(scs, wants):
        got = sc.detach_counts()
        ctx.eq(sorted(got), sorted(counters), 'a count for each counter')
        for k in counters:
            for b, (l, u) in enumerate(counters[k]['bins']):
                g = got[k]['bins'][b]
                ctx.eq((g[0], g[1]), (l, u), 'the bins are not changed')
                ctx.eq(g[2], want[k][b] % m, 'each bin counts exactly the increments whose value it contains', counter=k,
                       bin=[l, u], modulus=m, log=[x for x in log if x[0] == k])
        # after the counts left, nothing changes them
        snapshot = json.dumps(got, sort_keys=True)
        k = sorted(counters)[0]
        sc.increment(k, bin=SecureCounters.SINGLE_BIN if len(counters[k]['bins']) == 1 else 0.0, inc=1)
        ctx.eq(json.dumps(got, sort_keys=True), snapshot, 'counts that left are not changed afterwards')
    ctx.eq(json.dumps(counters, sort_keys=True), before, 'the configured counters are not changed')
    if log:
        ctx.nontrivial(before, log)
    ctx.sample({'counters': dict((k, counters[k]['bins']) for k in counters), 'increments': log[:8]})
