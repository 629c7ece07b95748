'''
Generators and small reference functions shared by the checks. Nothing here
uses the code under test.
'''
import json
import math

INF = float('inf')
NAN = float('nan')

def jcopy(x):
    'what arrives after a JSON round trip'
    return json.loads(json.dumps(x))

def rand_bins(rng, n, lo=0.0):
    'n sorted, non-overlapping [l, u] bins; sometimes with gaps'
    edges = [lo]
    while len(edges) < 2 * n:
        step = rng.choice([1, 1, 0.25, 3, 512, 10 ** 6, 0.1])
        edges.append(edges[-1] + step)
    bins, i = [], 0
    gaps = rng.random() < 0.3
    while len(bins) < n:
        bins.append([float(edges[i]), float(edges[i + 1])])
        i += 1
        if gaps and rng.random() < 0.4:
            edges.append(edges[-1] + 7.0)
            i += 1
    if rng.random() < 0.6:
        bins[-1][1] = INF
    return bins

def rand_counters(rng, most=5, sigma=None, most_bins=6):
    'counters in the form SecureCounters expects'
    counters = {}
    for i in range(rng.randrange(1, most + 1)):
        if rng.random() < 0.5:
            counters['Plain%dCount' % i] = {'bins': [[0.0, INF]]}
        else:
            lo = rng.choice([0.0, 0.0, 0.0, -5.0, -INF, 1.0])
            b = rand_bins(rng, rng.randrange(2, most_bins + 1), lo if lo != -INF else 0.0)
            if lo == -INF:
                b[0][0] = -INF
            if rng.random() < 0.2:
                rng.shuffle(b)
            counters['Spread%dHistogram' % i] = {'bins': b}
    for k in counters:
        counters[k]['sigma'] = sigma(rng) if sigma is not None else rng.choice([0.0, 1.5, 240.0, 2090007.68996, 1e9])
    return counters

def in_bin(l, u, v):
    return l <= v and (v < u or u == INF)

def inside_values(rng, bins):
    'interesting values for these bins: edges, neighbours, far away'
    vals = [0.0, -1.0, INF, -INF, 1e18, 0.5]
    for l, u in bins:
        for e in (l, u):
            vals.append(e)
            if e not in (INF, -INF):
                ulp = max(abs(e) * 2.0 ** -52, 1e-300)
                vals += [e - ulp, e + ulp]
        if u != INF and l != -INF:
            vals.append(l + (u - l) * rng.random())
    return vals

MODULI = [2 ** 70, 2 ** 70, 2 ** 70, 2 ** 64, 2 ** 31 - 1, 999999999959, 2 ** 70 - 1, 2 ** 70 + 1, 3 * 2 ** 68]

def signed(v, m):
    'the representative of v mod m nearest zero (negative in a tie)'
    v %= m
    return v - m if 2 * v >= m and not (m % 2 == 1 and v == m // 2) else v

def rand_fp(rng):
    return ''.join(rng.choice('0123456789ABCDEF') for _ in range(40))

def chi2(counts, expected):
    return sum((c - expected) ** 2 / float(expected) for c in counts)

def chi2_limit(df):
    'the value a chi-square variable with df degrees of freedom exceeds with probability below 1e-9'
    z = 6.2
    return df * (1 - 2.0 / (9 * df) + z * math.sqrt(2.0 / (9 * df))) ** 3 + 5
