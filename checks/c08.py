'''C08: the noise allocation spends the privacy budget, and not more.'''
import copy
import math
from gen import *
from dp import tail, least_epsilon
from privcount.statistics_noise import (get_noise_allocation, get_noise_allocation_stats, satisfies_dp,
                                        get_differentially_private_std)
from privcount.counter import is_circuit_sample_counter, get_valid_counters

ID, LEVEL = 'C08', 'exploration'
RULE = ('random budgets (epsilon 0.01 to 60, delta 1e-9 to 0.1), 1 to 8 known counters with sensitivities and expected values '
        'over several orders of magnitude, circuit sample rates; distinct by parameters')
ASSUMPTIONS = ['the reference computes normal tails with erfc; comparisons allow the documented search tolerances']
QUICK = dict(cases=240, seconds=40)
THOROUGH = dict(cases=12000, seconds=1500)
REQUIRE = {'allocations': 100, 'counters checked': 300, 'tight budgets': 50}
MIN_DISTINCT = 100

def case(ctx, rng, i):
    known = sorted(k for k in get_valid_counters() if k != 'ZeroCount')
    n = rng.choice([1, 1, 2, 3, 5, 8])
    eps = rng.choice([0.3, 0.3, 1.0, 0.01 + rng.random() * 2, 5.0, 10.0, 60.0])
    delta = rng.choice([1e-3, 1e-3, 1e-6, 1e-9, 0.01, 0.1])
    excess = rng.choice([1.0, 1.0, 0.37, 2.5, 10.0])
    rate = rng.choice([1.0, 1.0, 1.0, 0.5, 0.05])
    scale = 10 ** rng.randrange(-1, 5)
    counters = {}
    for k in rng.sample(known, n):
        s = float(rng.choice([1, 6, 240, 1e4, 0.5 + rng.random() * 100]))
        counters[k] = {'sensitivity': s, 'estimated_value': s * scale * (0.2 + rng.random() * rng.choice([1, 1, 30]))}
    params = {'privacy': {'epsilon': eps, 'delta': delta, 'excess_noise_ratio': excess}, 'counters': copy.deepcopy(counters)}
    r = get_noise_allocation(params, circuit_sample_rate=rate)
    out = r['counters']
    ctx.eq(sorted(out), sorted(list(counters) + ['ZeroCount']), 'each counter is allocated noise, and a zero counter is added')
    ctx.eq(out['ZeroCount']['sigma'], 0.0, 'the zero counter has no noise')
    dn = delta / n
    total, ratios, need = 0.0, [], 0.0
    for k in counters:
        s, v = counters[k]['sensitivity'], counters[k]['estimated_value']
        ctx.eq((out[k]['sensitivity'], out[k]['estimated_value']), (s, v), 'the parameters are kept')
        sigma, e = out[k]['sigma'], out[k]['epsilon']
        ctx.check(sigma > 0 and e > 0, 'noise is positive', counter=k, sigma=sigma, epsilon=e)
        p = tail(s, e, sigma)
        ctx.check(p <= dn * (1 + 1e-5) + 1e-14, 'each counter satisfies its (epsilon, delta) share', counter=k, tail=p, delta=dn, sigma=sigma)
        total += e
        need += least_epsilon(s, sigma, dn)
        eff = v * rate if is_circuit_sample_counter(k) else v
        ratios.append(sigma / eff)
        ctx.close(out[k]['expected_noise_ratio'], math.sqrt(excess) * sigma / v, 'the expected noise ratio is that of the sigma', rel=1e-9)
        ctx.count('counters checked')
    ctx.check(total <= eps * (1 + 1e-9), 'the epsilons add up to at most the budget', total=total, budget=eps)
    ctx.check(need <= eps * (1 + 1e-5), 'the sigmas cost at most the budget', cost=need, budget=eps)
    ctx.check(max(ratios) <= min(ratios) * (1 + 1e-9), 'the noise is the same fraction of each expected value', ratios=ratios)
    # not wasteful: with noise smaller by more than the search tolerance, the budget is exceeded
    tol = 1e-6
    ratio = ratios[0] * math.sqrt(excess)
    lower = (ratio - 2 * tol) * (1 - 1e-6)
    if lower > 0.2 * ratio:
        cost = sum(least_epsilon(counters[k]['sensitivity'], out[k]['sigma'] * lower / ratio, dn) for k in counters)
        # each first-approximation sigma is only found within the sigma tolerance
        slack = max(2e-6 / out[k]['sigma'] for k in counters)
        if slack < 1e-3:
            ctx.check(cost >= eps * (1 - 1e-6 - slack), 'the noise is the least within the tolerance', cost=cost, budget=eps,
                      ratio=ratio)
            ctx.count('tight budgets')
    # the predicate itself
    s, k = counters[sorted(counters)[0]]['sensitivity'], sorted(counters)[0]
    for f in (0.5, 0.99, 1.01, 2.0):
        sg = out[k]['sigma'] * f
        p = tail(s, out[k]['epsilon'], sg)
        if abs(p - dn) > 1e-4 * dn + 1e-14:
            ctx.eq(bool(satisfies_dp(s, out[k]['epsilon'], dn, sg)), p <= dn, 'the privacy predicate', tail=p, delta=dn)
    std = get_differentially_private_std(s, eps, dn)
    ctx.check(tail(s, eps, std) <= dn * (1 + 1e-5) + 1e-14 and tail(s, eps, max(std - 1e-5, std * 0.5)) >= dn * (1 - 1e-5) - 1e-14,
              'the least private standard deviation', std=std)
    r2 = get_noise_allocation_stats(eps, delta, dict((k, (counters[k]['sensitivity'], counters[k]['estimated_value'])) for k in counters),
                                    excess, circuit_sample_rate=rate)
    for k in counters:
        ctx.close(r2['counters'][k]['sigma'], out[k]['sigma'], 'both interfaces allocate the same noise', rel=1e-9)
    ctx.count('allocations')
    ctx.nontrivial(eps, delta, excess, rate, sorted((k, c['sensitivity'], c['estimated_value']) for k, c in counters.items()))
    ctx.sample({'epsilon': eps, 'delta': delta, 'counters': counters, 'sigmas': dict((k, out[k]['sigma']) for k in out)})
