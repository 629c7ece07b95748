'''C42: the noise tools report the allocation that a tally server would compute.'''
import math
import os
import re
import sys
import StringIO

import yaml

import simenv
from dp import tail, least_epsilon
from gen import *
from privcount import statistics_noise as N
from privcount import counter as K
from privcount.traffic_model import TrafficModel
import tmodel

ID, LEVEL = 'C42', 'exploration'
RULE = ('the two command-line tools, and random budgets, tolerances and sets of 1 to 8 statistics for each of the functions that they use; '
        'random monotone predicates, intervals and tolerances for the search; distinct by parameters')
ASSUMPTIONS = ['sensitivities and expected values are positive', 'counters may have any name in the reports']
QUICK = dict(cases=240, seconds=45)
THOROUGH = dict(cases=6000, seconds=900)
REQUIRE = {'tools run': 2, 'budgets': 4, 'reports': 100, 'searches': 2000, 'allocations compared': 100, 'least epsilons': 300}
MIN_DISTINCT = 100

REPO = os.environ.get('VERIF_REPO', '/repo')

def printed(f, *a, **k):
    'what f prints'
    old, sys.stdout = sys.stdout, StringIO.StringIO()
    try:
        f(*a, **k)
        return sys.stdout.getvalue()
    finally:
        sys.stdout = old

def number(s):
    try:
        return float(s)
    except ValueError:
        return None

def report(text):
    'the epsilons, ratio and sigmas of a report, in order'
    part, eps, sig, ratio, name = None, [], [], None, None
    for l in text.splitlines():
        m = re.match(r'\s*(\S+):\s*(\S*)$', l.strip())
        if l.startswith('Epsilon'):
            part = eps
        elif l.startswith('Sigma'):
            part = sig
        elif l.startswith('Ratio'):
            ratio = float(l.split(':')[1])
        elif part is eps and m and number(m.group(2)) is not None:
            eps.append((m.group(1), float(m.group(2))))
        elif part is sig and m and m.group(1) == 'sigma':
            sig.append((name, m.group(2)))
        elif part is sig and m and not m.group(2):
            name = m.group(1)
    return eps, ratio, sig

def check_report(ctx, text, stats, epsilons, sigmas, excess):
    eps, ratio, sig = report(text)
    ctx.eq(sorted(k for k, _ in eps), sorted(epsilons), 'each epsilon is reported once', text=text)
    ctx.check(all(a[1] >= b[1] * (1 - 1e-9) for a, b in zip(eps, eps[1:])), 'the largest epsilons are first', text=text)
    for k, e in eps:
        ctx.close(e, epsilons[k], 'the reported epsilon', rel=1e-9, counter=k)
    ctx.close(ratio, max(math.sqrt(excess) * sigmas[k] / stats[k][1] for k in stats), 'the reported ratio', rel=1e-6, text=text)
    want = dict(sigmas, ZeroCount=0.0)
    ctx.eq([k for k, _ in sig], sorted(want), 'each sigma is reported once, in order', text=text)
    for k, s in sig:
        ctx.check(abs(float(s) - want[k]) <= 5.1e-7 + 1e-12 * want[k], 'the reported sigma', counter=k, reported=s, sigma=want[k])
    ctx.count('reports')

def budget(ctx, conf, excess=None):
    'a noise configuration spends its budget'
    p = conf['privacy']
    c = dict((k, v) for k, v in conf['counters'].items() if k != 'ZeroCount')
    ctx.eq(conf['counters'].get('ZeroCount', {}).get('sigma'), 0.0, 'a zero counter is added', counters=sorted(conf['counters']))
    dn = p['delta'] / len(c)
    ratios = []
    for k, v in c.items():
        ctx.check(v['sigma'] > 0 and tail(v['sensitivity'], v['epsilon'] + 2 * p['epsilon_tolerance'], v['sigma']) <= dn * (1 + 1e-5) + 1e-14,
                  'each counter satisfies its share', counter=k, conf=v)
        ratios.append(v['sigma'] / v['estimated_value'])
    ctx.check(max(ratios) <= min(ratios) * (1 + 1e-9), 'the noise is the same fraction of each expected value', ratios=ratios)
    ctx.check(sum(v['epsilon'] for v in c.values()) <= p['epsilon'] * (1 + 1e-9), 'the shares add up to at most the budget')
    slack = 1e-4 + 2 * p['sigma_ratio_tolerance'] / p['sigma_ratio'] + max(2 * p['sigma_tolerance'] / v['sigma'] for v in c.values())
    if slack < 0.1:
        need = sum(least_epsilon(v['sensitivity'], v['sigma'] * (1 - slack), dn) for v in c.values())
        ctx.check(need >= p['epsilon'] * (1 - 1e-6), 'less noise would exceed the budget', cost=need, slack=slack, privacy=p)
    ctx.close(p['sigma_ratio'], ratios[0] * math.sqrt(p['excess_noise_ratio']), 'the ratio in the configuration', rel=1e-9)
    ctx.count('budgets')
    return c

def configurations(text):
    'the noise configurations that a tool prints'
    r, cur = [], None
    for l in text.splitlines() + ['']:
        if l.startswith('counters:'):
            cur = []
        if cur is not None:
            if not l.strip() or re.match(r'^[^\s:]+ |^[*-]', l):
                y = yaml.safe_load('\n'.join(cur))
                if 'privacy' in y:
                    r.append(y)
                cur = None
            else:
                cur.append(l)
    return r

def tool(ctx, name, sets):
    path = os.path.join(REPO, 'privcount', 'tools', name)
    space = {'__name__': '__main__', '__file__': path}
    text = printed(execfile, path, space)
    confs = configurations(text)
    ctx.eq(len(confs), len(sets), 'the tool prints each configuration', text=text[-2000:])
    for conf, stats in zip(confs, sets):
        c = budget(ctx, conf)
        stats = space[stats]
        ctx.eq(sorted(c), sorted(stats), 'the statistics of the configuration')
        for k in c:
            ctx.close(c[k]['sensitivity'], stats[k][0], 'the sensitivity', counter=k)
            ctx.close(c[k]['estimated_value'], stats[k][1], 'the expected value', counter=k)
        ctx.eq(conf['privacy']['epsilon'], space['epsilon'], 'the budget')
        ctx.eq(conf['privacy']['delta'], space['delta'], 'the budget')
        ctx.eq(conf['privacy']['excess_noise_ratio'], space['num_relay_machines'], 'the noise ratio')
    # the plain reports have the same numbers
    parts = text.split('Epsilon values')[1:]
    ctx.eq(len(parts), len(sets), 'the tool reports each allocation')
    for part, conf in zip(parts, confs):
        c = dict((k, v) for k, v in conf['counters'].items() if k != 'ZeroCount')
        part = re.split(r'(?m)^(?:noise config|Traffic model noise|[*])', part)[0]
        check_report(ctx, 'Epsilon values' + part, dict((k, (v['sensitivity'], v['estimated_value'])) for k, v in c.items()),
                     dict((k, v['epsilon']) for k, v in c.items()), dict((k, v['sigma']) for k, v in c.items()),
                     conf['privacy']['excess_noise_ratio'])
    ctx.count('tools run')
    ctx.nontrivial(name)
    return confs

def search(ctx, rng):
    for _ in range(20):
        lo = rng.choice([0.0, 1e-6, rng.random(), -5.0])
        hi = lo + rng.choice([1.0, 1e-3, 50.0, rng.random() * 1e4])
        t = lo + (hi - lo) * rng.choice([-0.1, 0.0, 1e-9, rng.random(), rng.random(), rng.random(), 1.0, 1.1])
        tol = (hi - lo) * rng.choice([0.3, 1e-2, 1e-6, 2.0])
        calls = []
        def fn(x):
            calls.append(x)
            return x >= t
        least = rng.random() < 0.6
        kw = dict() if least and rng.random() < 0.5 else dict(return_true=least)
        how = dict(low=lo, high=hi, threshold=t, tol=tol, least=least)
        try:
            r = N.interval_boolean_binary_search(fn, lo, hi, tol, **kw)
        except ValueError:
            ctx.check((hi < t) if least else (lo >= t), 'a search only fails if there is no such value', **how)
        else:
            ctx.check(lo <= r <= hi and min(calls) >= lo and max(calls) <= hi, 'the search stays in the interval', found=r, calls=calls[:50], **how)
            if least:
                ctx.check(r >= t and (r == lo or r - tol <= t), 'the least value, within the tolerance', found=r, **how)
            else:
                ctx.check(r < t and (r == hi or r + tol >= t), 'the largest value without, within the tolerance', found=r, **how)
        ctx.count('searches')
    try:
        N.interval_boolean_binary_search(lambda x: True, hi, hi - abs(hi) - 1, tol)
    except ValueError:
        pass
    else:
        ctx.check(False, 'an interval in the wrong order is refused', high=hi)

def case(ctx, rng, i):
    if i == 0:
        tool(ctx, 'compute_noise.py', ['p2p_initial_stats_parameters', 'initial_stats_parameters', 'stats_parameters'])
        return
    if i == 1:
        conf, = tool(ctx, 'compute_noise_traffic_model.py', ['traffic_model_parameters'])
        known = set(tmodel.ALL_TEMPLATES) | set(K.get_valid_counters())
        ctx.eq(sorted(set(conf['counters']) - known), [], 'the names are counters, or templates that models have')
        return
    search(ctx, rng)
    known = sorted(k for k in K.get_valid_counters() if k != 'ZeroCount' and '<' not in k)
    n = rng.choice([1, 2, 3, 5, 8])
    eps, delta = rng.choice([0.3, 1.0, 0.05 + rng.random() * 2, 20.0]), rng.choice([1e-3, 1e-6, 0.01])
    excess = rng.choice([1.0, 3, 0.37, 2.5])
    scale = 10 ** rng.randrange(0, 4)
    stats = {}
    for k in rng.sample(known, n):
        s = float(rng.choice([1, 6, 240, 0.5 + rng.random() * 100]))
        stats[k] = (s, s * scale * (0.2 + rng.random() * rng.choice([1, 30])))
    tols = {}
    for k, opts in (('sigma_tol', [1e-6, 1e-3, 1e-2]), ('epsilon_tol', [1e-15, 1e-9]), ('sigma_ratio_tol', [1e-6, 1e-3, 0.01])):
        if rng.random() < 0.5:
            tols[k] = rng.choice(opts)
    how = dict(epsilon=eps, delta=delta, excess=excess, stats=stats, tolerances=tols)
    epsilons, sigmas, ratio = N.get_opt_privacy_allocation(eps, delta, dict(stats), excess, **tols)
    check = rng.choice(['ZeroCount', 'ZeroCount', 'ExitDummyCount', None])
    kw = dict(tols)
    if check != 'ZeroCount' or rng.random() < 0.5:
        kw['sanity_check'] = check
    conf = N.get_noise_allocation_stats(eps, delta, dict(stats), excess, **kw)
    p, c = conf['privacy'], conf['counters']
    ctx.eq(sorted(p), sorted(['epsilon', 'delta', 'excess_noise_ratio', 'sigma_ratio', 'sigma_tolerance', 'epsilon_tolerance',
                              'sigma_ratio_tolerance']), 'the privacy parameters', **how)
    ctx.eq((p['epsilon'], p['delta'], p['excess_noise_ratio']), (eps, delta, excess), 'the given parameters', **how)
    ctx.eq((p['sigma_tolerance'], p['epsilon_tolerance'], p['sigma_ratio_tolerance']),
           (tols.get('sigma_tol', 1e-6), tols.get('epsilon_tol', 1e-15), tols.get('sigma_ratio_tol', 1e-6)), 'the tolerances', **how)
    ctx.eq(sorted(c), sorted(list(stats) + [check] * (check is not None)), 'the counters', sanity=check, **how)
    ctx.close(p['sigma_ratio'], ratio, 'the same ratio', **how)
    for k in stats:
        ctx.eq((c[k]['sensitivity'], c[k]['estimated_value']), stats[k], 'the statistics are kept', counter=k)
        ctx.close(c[k]['epsilon'], epsilons[k], 'the same epsilon', rel=1e-6, counter=k, **how)
        ctx.close(c[k]['sigma'], sigmas[k], 'the same sigma', counter=k, **how)
        ctx.close(c[k]['expected_noise_ratio'], ratio, 'the expected ratio', rel=1e-6, counter=k, **how)
        ctx.close(N.get_expected_noise_ratio(excess, N.get_sigma(excess, ratio, stats[k][1]), stats[k][1]), ratio, 'a sigma has its ratio',
                  counter=k)
        ctx.close(N.get_sigma(excess, ratio, stats[k][1]), ratio * stats[k][1] / math.sqrt(excess), 'the sigma of a ratio', counter=k)
        dn = delta / n
        tol = tols.get('epsilon_tol', 1e-15)
        for f in (1.0, 0.3, 4.0):
            least = least_epsilon(stats[k][0], sigmas[k] * f, dn)
            got = N.get_differentially_private_epsilon(stats[k][0], sigmas[k] * f, dn, **({} if 'epsilon_tol' not in tols else {'tol': tol}))
            ctx.check(least * (1 - 1e-7) - 1e-14 <= got <= least * (1 + 1e-7) + 2 * tol + 1e-14, 'the least private epsilon', counter=k, least=least,
                      got_epsilon=got, sigma=sigmas[k] * f, sensitivity=stats[k][0], delta=dn)
            ctx.count('least epsilons')
    ctx.eq((N.get_expected_noise_ratio(excess, 3.0, 0.0), N.get_sigma(0.0, ratio, 5.0), N.get_differentially_private_epsilon(2.0, 0.0, delta)),
           (0.0, 0.0, 0.0), 'without noise or values')
    full = dict(conf, counters=dict((k, v) for k, v in c.items() if k != check))
    full['counters']['ZeroCount'] = N.get_sanity_check_counter()
    budget(ctx, full)
    if check is not None:
        ctx.eq([c[check][x] for x in ('sigma', 'epsilon', 'sensitivity', 'estimated_value', 'expected_noise_ratio')], [0.0] * 5, 'the zero counter')
        ctx.eq([list(b) for b in c[check]['bins']], [[float('-inf'), float('inf')]], 'the bins of the zero counter')
    cmp_kw = dict(tols)
    if check != 'ZeroCount' or rng.random() < 0.5:
        cmp_kw['sanity_check'] = check
    N.compare_noise_allocation(eps, delta, dict(stats), excess, **cmp_kw)
    ctx.count('allocations compared')
    s2, e2 = dict(sigmas), dict(epsilons)
    check_report(ctx, printed(N.print_privacy_allocation, dict(stats), s2, e2, excess), stats, epsilons, sigmas, excess)
    ctx.nontrivial(eps, delta, excess, sorted(stats.items()), sorted(tols.items()))
    ctx.sample({'parameters': how, 'sigmas': sigmas})
