'''C03: noise is added exactly once to every bin, at the configured scale.'''
import random
import simenv
from simenv import Rand
from gen import *
from privcount.counter import SecureCounters

ID, LEVEL = 'C03', 'exploration'
RULE = ('random counter sets (sigma zero, or 50 to 1e12), noise weights and standard normal draws on a grid coarse enough '
        'that each bin can be matched to the draw that made its noise; distinct by (shape, sigmas, weight)')
ASSUMPTIONS = ['the standard normal draws of the system CSPRNG are replaced by recorded ones; their distribution is that of '
               "the library's gauss()"]
QUICK = dict(cases=1500, seconds=25)
THOROUGH = dict(cases=60000, seconds=1200)
REQUIRE = {'noisy bins': 3000, 'refusals without noise': 200, 'zero noise bins': 100}
MIN_DISTINCT = 300

def sigma(rng):
    return rng.choice([0.0, 50.0, 240.0, 1000.25, 2090007.68996, 1e9, 1e12, 50 + rng.random() * 1000])

def values(counts):
    return [(k, b, long(counts[k]['bins'][b][2])) for k in sorted(counts) for b in range(len(counts[k]['bins']))]

def case(ctx, rng, i):
    counters = rand_counters(rng, sigma=sigma)
    m = rng.choice([2 ** 70, 2 ** 70, 2 ** 64, 2 ** 61 - 1])
    weight = rng.choice([0.0, 1.0, 1.0, 0.5 + rng.random(), 3, 1, 17.5])
    grid = [(-40 + j) * 0.075 + rng.random() * 0.01 for j in range(81)]
    rng.shuffle(grid)
    draws = list(grid)
    Rand.gauss_hook = lambda: draws.pop() if draws else rng.gauss(0, 1)
    sc = SecureCounters(counters, m)
    if rng.random() < 0.3:
        ctx.must_raise('counts are not released before noise was added', sc.detach_counts)
        ctx.count('refusals without noise')
    sc.generate_noise(weight)
    used = len(Rand.gauss_log)
    got = sc.detach_counts()
    nbins = sum(len(counters[k]['bins']) for k in counters)
    ctx.eq(used, nbins, 'one draw of the CSPRNG normal generator per bin', bins=nbins)
    free = [z for _, _, z in Rand.gauss_log]
    todo = sorted([(-weight * counters[k]['sigma'], k, b, signed(v, m)) for k, b, v in values(got)])
    for e, k, b, v in todo:
        e = -e
        if e == 0:
            ctx.eq(v, 0, 'no noise when the scale is zero', counter=k)
            ctx.count('zero noise bins')
            continue
        near = [z for z in free if abs(v - z * e) <= 0.5 + 1e-9 * abs(z * e)]
        ctx.check(len(near) >= 1, 'the noise of a bin is a normal draw of its own, scaled by sigma and by the weight, rounded',
                  counter=k, bin=b, noise=v, sigma=counters[k]['sigma'], weight=weight, draws=free)
        free.remove(near[0])
        ctx.count('noisy bins')
    # a different CSPRNG stream gives different noise, whatever other generators say
    if i % 5 == 0:
        r = []
        for seed in (1, 2):
            Rand.reset(rng.getrandbits(50))
            random.seed(9)
            simenv.VTime.now = simenv.EPOCH
            sc = SecureCounters({'A': {'bins': [[0.0, 1.0], [1.0, 2.0]], 'sigma': 1e12}}, m)
            sc.generate_noise(1.0)
            r += [v for _, _, v in values(sc.detach_counts())]
        ctx.eq(len(set(r)), len(r), 'noise is independent across bins and rounds, and comes from the CSPRNG')
    # a round without noise never releases its counts; noise generation is not undone by increments
    sc = SecureCounters(counters, m, require_generate_noise=True)
    k = sorted(counters)[0]
    sc.increment(k, bin=SecureCounters.SINGLE_BIN if len(counters[k]['bins']) == 1 else 0.0, inc=3)
    sc.generate_blinding_shares(['a', 'b'])
    sc.detach_blinding_shares()
    ctx.must_raise('blinded counts are not released before noise was added', sc.detach_counts)
    ctx.count('refusals without noise')
    ctx.nontrivial([(len(counters[k]['bins']), counters[k]['sigma']) for k in sorted(counters)], weight)
    ctx.sample({'sigmas': dict((k, counters[k]['sigma']) for k in counters), 'weight': weight, 'noise': values(got)[:6]})
