'''C06: only well-formed counter and noise weight configurations are accepted.'''
import copy
import json
from gen import *
from privcount import counter as C

ID, LEVEL = 'C06', 'exploration'
RULE = ('valid counter and noise weight configurations, and ones with one or two random defects, compared with a '
        'reference predicate; distinct by configuration')
ASSUMPTIONS = ['sigmas and weights are finite or not-a-number; bin edges may be infinite or not-a-number']
QUICK = dict(cases=4000, seconds=25)
THOROUGH = dict(cases=150000, seconds=900)
REQUIRE = {'accepted counters': 500, 'refused counters': 500, 'accepted weights': 300, 'refused weights': 300}
MIN_DISTINCT = 1000

MAXT = 2 ** 69 - 1

def one_bin(name):
    stem = name.split('_')[0]
    return stem.endswith('Count') or stem.endswith('DelayTime') and 'TrafficModel' in stem

def ref_bins(bins, unknown_ok, known):
    for k in bins:
        if not unknown_ok and k not in known:
            return False
    for k in bins:
        b = bins[k]['bins']
        if not unknown_ok:
            single = one_bin(k)
            if single and len(b) != 1 or not single and len(b) <= 1:
                return False
        for l, u in b:
            if not l < u:
                return False
        for i in range(len(b)):
            for j in range(i):
                # no value may be in two bins
                if b[i][0] < b[j][1] and b[j][0] < b[i][1]:
                    return False
    return True

def ref_sigmas(sigmas, unknown_ok, known):
    return all((unknown_ok or k in known) and sigmas[k]['sigma'] >= 0 for k in sigmas)

def ref_weights(w, threshold):
    if not 1 <= threshold <= 10 ** 6:
        return False
    if len(w) < threshold and w.get('*') is None:
        return False
    for v in w.values():
        if not 0 <= v <= MAXT:
            return False
    total = sum(v for k, v in w.items() if k != '*')
    if '*' in w:
        total += threshold * w['*']
    return total <= MAXT

def refused(fn, *a, **k):
    try:
        return not fn(*a, **k)
    except (AssertionError, KeyError, ValueError, TypeError, IndexError):
        return True

def make(rng, known):
    bins, sigmas = {}, {}
    for _ in range(rng.randrange(1, 6)):
        k = rng.choice(known) if rng.random() < 0.97 else rng.choice(['Nonsense', 'NonsenseCount', 'exitstreamcount'])
        single = one_bin(k)
        b = [[0.0, INF]] if single else rand_bins(rng, rng.randrange(2, 6))
        if rng.random() < 0.5:
            rng.shuffle(b)
        if rng.random() < 0.3:
            b = [[int(x) if abs(x) < 1e9 and x == int(x) else x for x in p] if INF not in map(abs, p) else p for p in b]
        bins[k] = {'bins': b}
        sigmas[k] = {'sigma': rng.choice([0.0, 0, 1.5, 240, 1e9, 1e-9]), 'epsilon': rng.random()}
    return bins, sigmas

def damage(rng, bins, sigmas):
    k = rng.choice(sorted(bins))
    b = bins[k]['bins']
    what = rng.choice(['swap', 'empty', 'overlap', 'same', 'inside', 'extra', 'fewer', 'negative', 'nosigma', 'nobins', 'nan',
                       'sigmanan', 'nosigmakey', 'nobinskey', 'none', 'none', 'touch', 'nestinf', 'slight', 'slight', 'narrow'])
    i = rng.randrange(len(b)) if b else 0
    if not b:
        return what
    if what == 'swap':
        b[i] = [b[i][1], b[i][0]]
    elif what == 'empty':
        b[i] = [b[i][0], b[i][0]]
    elif what == 'overlap':
        b[i] = [b[i][0], b[i][1] + 0.5]
    elif what == 'slight':
        # overlaps of a few units in the last place, or a little more
        if abs(b[i][1]) != INF:
            by = rng.choice([2.0 ** -52, 2.0 ** -40, 1e-9, 1e-7, 1e-4])
            b[i] = [b[i][0], b[i][1] + max(abs(b[i][1]), 1e-3) * by]
    elif what == 'narrow':
        # a bin that is one unit in the last place wide
        if abs(b[i][1]) != INF and b[i][1] < 1e15:
            b.append([b[i][1], b[i][1] + max(abs(b[i][1]), 1e-3) * 2.0 ** -52])
    elif what == 'same':
        b.append(list(b[i]))
    elif what == 'inside':
        b.append([b[i][0] + 0.01, b[i][0] + 0.02])
    elif what == 'extra':
        b.append([1e30, INF] if b[-1][1] != INF else [-10.0, -9.0])
    elif what == 'fewer':
        del b[1:]
    elif what == 'negative':
        sigmas[k]['sigma'] = rng.choice([-1, -1e-9, -1e9])
    elif what == 'nan':
        b[i] = rng.choice([[NAN, b[i][1]], [b[i][0], NAN]])
    elif what == 'sigmanan':
        sigmas[k]['sigma'] = NAN
    elif what == 'nosigma':
        del sigmas[k]
    elif what == 'nobins':
        del bins[k]
    elif what == 'nosigmakey':
        del sigmas[k]['sigma']
    elif what == 'nobinskey':
        del bins[k]['bins']
    elif what == 'touch':
        b.append([b[i][1], b[i][1] + 0.001])
    elif what == 'nestinf':
        b.insert(0, [-INF, INF])
    return what

def counters_case(ctx, rng, i):
    known = sorted(k for k in C.get_valid_counters())
    bins, sigmas = make(rng, known)
    for _ in range(rng.choice([0, 1, 1, 1, 2])):
        try:
            what = damage(rng, bins, sigmas)
        except KeyError:
            break
        if not bins:
            break
    unknown_ok = rng.random() < 0.3
    b0, s0 = copy.deepcopy(bins), copy.deepcopy(sigmas)
    known = set(known)
    complete = all('bins' in bins[k] for k in bins) and all('sigma' in sigmas[k] for k in sigmas)
    if complete:
        wb = ref_bins(bins, unknown_ok, known)
        ws = ref_sigmas(sigmas, unknown_ok, known)
        want = wb and ws and set(bins) == set(sigmas)
        ctx.eq(bool(C.check_bins_config(bins, allow_unknown_counters=unknown_ok)), wb, 'bins are accepted exactly when they are valid',
               bins=bins, unknown_ok=unknown_ok)
        ctx.eq(bool(C.check_sigmas_config(sigmas, allow_unknown_counters=unknown_ok)), ws,
               'sigmas are accepted exactly when they are valid', sigmas=sigmas)
        got = bool(C.check_counters_config(bins, sigmas, allow_unknown_counters=unknown_ok))
        ctx.eq(got, want, 'a counter configuration is accepted exactly when it is valid', bins=bins, sigmas=sigmas)
    else:
        want = False
        ctx.check(refused(C.check_counters_config, bins, sigmas, allow_unknown_counters=unknown_ok),
                  'an incomplete counter configuration is refused', bins=bins, sigmas=sigmas)
    ctx.count('accepted counters' if want else 'refused counters')
    # combining keeps the counters that have both, and invents nothing
    both = sorted(k for k in bins if 'bins' in bins[k] and k in sigmas and 'sigma' in sigmas[k])
    comb = C.combine_counters(bins, sigmas)
    ctx.eq(sorted(comb), both, 'the combined counters are those with bins and a sigma')
    for k in both:
        expect = dict(sigmas[k])
        expect['bins'] = bins[k]['bins']
        ctx.eq(repr(sorted(comb[k].items())), repr(sorted(expect.items())), 'a combined counter has its sigma and its bins')
        comb[k]['bins'].append('x')
        comb[k]['sigma'] = 'y'
    ctx.eq((repr(bins), repr(sigmas)), (repr(b0), repr(s0)), 'the configuration is not changed')
    complete_match = set(bins) == set(sigmas) == set(both)
    ctx.eq(bool(C.check_combined_counters(bins, sigmas)), complete_match, 'bins and sigmas must be for the same counters')
    ctx.nontrivial(bins, sigmas, unknown_ok)
    ctx.sample({'bins': bins, 'sigmas': sigmas, 'accepted': want})

def weights_case(ctx, rng, i):
    threshold = rng.choice([1, 1, 2, 2, 3, 3, 5, 10, 10 ** 6, 10 ** 6 + 1, 0, -1])
    good = rng.random() < 0.5
    w = {}
    ints = rng.random() < 0.6
    for _ in range(rng.randrange(max(1, min(threshold, 6)) if good else 0, 7)):
        w[rand_fp(rng)] = rng.choice(([0, 1, 2, 10 ** 6, MAXT // 7] if ints else [0.0, 1.0, 0.3, 2.5, 1e9]) if good else
                                     [0, 1, 2, 10 ** 6, MAXT, MAXT - 1, MAXT // 2, MAXT + 1, -1]
                                     if ints else [0.0, 1.0, 0.3, 2.5, -0.1, 1e9, 1e22, NAN])
    if rng.random() < 0.4:
        w['*'] = rng.choice([0, 1, MAXT // max(1, threshold), MAXT // max(1, threshold) + 1] if ints else [0.0, 1.0, 0.25, 1e16, 1e22, -1.0])
    if rng.random() < 0.25 and w:
        # exactly at, or just over, the limit
        k = sorted(w)[0]
        rest = sum(v for j, v in w.items() if j not in ('*', k)) + (threshold * w.get('*', 0) if k != '*' else 0)
        if ints and k != '*':
            w[k] = MAXT - rest + rng.choice([0, 1, -1])
    w0 = dict(w)
    want = ref_weights(w, threshold)
    if 1 <= threshold or True:
        got = not refused(C.check_noise_weight_config, w, threshold)
        ctx.eq(got, want, 'noise weights are accepted exactly when they are valid', weights=w, threshold=threshold)
    ctx.eq(repr(w), repr(w0), 'the noise weights are not changed')
    ctx.count('accepted weights' if want else 'refused weights')
    fps = [k for k in w if k != '*'] + [rand_fp(rng), None]
    for fp in fps:
        expect = w[fp] if fp is not None and fp in w else w.get('*')
        ctx.eq(repr(C.get_noise_weight(w, fp)), repr(expect), "a relay's noise weight is its own, else the default, else none", fp=fp, weights=w)
        ctx.eq(bool(C.has_noise_weight(w, fp)), expect is not None, 'a relay has a noise weight or not')
    ctx.nontrivial(w, threshold)
    ctx.sample({'weights': w, 'threshold': threshold, 'accepted': want}, limit=4)

def case(ctx, rng, i):
    if i % 3 == 2:
        weights_case(ctx, rng, i)
    else:
        counters_case(ctx, rng, i)
