'''C01: the tally of a completed round is exact.'''
import json
from simenv import Rand
from gen import *
from privcount.counter import SecureCounters
from privcount.crypto import encrypt, decrypt
import keys

ID, LEVEL = 'C01', 'exploration'
RULE = ('random counter sets, moduli, numbers of data collectors and share keepers, increments (negative, huge and zero '
        'ones included), orders of blinding/noise/increment/import/tally, JSON and public-key transport; a case is '
        'distinct by (modulus, shape of the counters, parties, transport), and non-trivial when at least one increment hit a bin')
ASSUMPTIONS = ['a stand-in for the cryptography package (Java crypto) carries the encrypted shares',
               'noise draws are fixed per data collector, so that their exact sum is known']
QUICK = dict(cases=900, seconds=30)
THOROUGH = dict(cases=60000, seconds=1500)
REQUIRE = {'tallies': 300, 'refused malformed counts': 60, 'refused malformed shares': 60, 'encrypted shares': 20, 'negative totals': 20}
MIN_DISTINCT = 150

def mangle(rng, counts):
    'counts whose structure does not match'
    c = jcopy(counts)
    k = rng.choice(sorted(c))
    kind = rng.choice(['nokey', 'fewer', 'more', 'short', 'nobins', 'long'])
    if kind == 'nokey':
        del c[k]
    elif kind == 'fewer':
        c[k]['bins'].pop(rng.randrange(len(c[k]['bins'])))
    elif kind == 'more':
        c[k]['bins'].append([1.0, 2.0, 3])
    elif kind == 'short':
        rng.choice(c[k]['bins']).pop()
    elif kind == 'long':
        rng.choice(c[k]['bins']).append(4)
    else:
        del c[k]['bins']
    return c

def case(ctx, rng, i):
    counters = rand_counters(rng)
    m = rng.choice(MODULI + [rng.randrange(1, 40), rng.getrandbits(rng.randrange(2, 90)) + 2])
    ndc, nsk = rng.randrange(1, 6), rng.randrange(1, 6)
    transport = rng.choice(['object', 'json', 'json', 'rsa' if i % 6 == 0 else 'json'])
    sks = ['sk%d' % j for j in range(nsk)]
    original = json.dumps(counters, sort_keys=True)
    want = dict((k, [0] * len(counters[k]['bins'])) for k in counters)
    bundles = dict((s, []) for s in sks)
    dc_counts, hits = [], 0
    big = m > 10 ** 6
    for d in range(ndc):
        sc = SecureCounters(counters, m)
        z = rng.choice([0.0, rng.gauss(0, 1.5), -abs(rng.gauss(0, 2))])
        weight = rng.choice([0.0, 1.0, 0.5, rng.random() * 3])
        Rand.gauss_hook = lambda: z
        n = rng.randrange(0, 12)
        ops = ['inc'] * n
        ops.insert(rng.randrange(len(ops) + 1), 'noise')
        ops.insert(rng.randrange(len(ops) + 1), 'blind')
        for op in ops:
            if op == 'noise':
                sc.generate_noise(weight)
                for k in counters:
                    for b in range(len(counters[k]['bins'])):
                        want[k][b] += int(round(weight * counters[k]['sigma'] * z))
            elif op == 'blind':
                sc.generate_blinding_shares(list(sks))
            else:
                k = rng.choice(sorted(counters))
                inc = rng.choice([1, 1, 2, 0, -1, rng.randrange(-10 ** 6, 10 ** 6), 2 ** 60 + 1, float(7)])
                bins = counters[k]['bins']
                if len(bins) == 1:
                    sc.increment(k, bin=SecureCounters.SINGLE_BIN, inc=inc)
                    want[k][0] += int(inc)
                    hits += 1
                else:
                    v = rng.choice(inside_values(rng, bins))
                    sc.increment(k, bin=v, inc=inc)
                    for b, (l, u) in enumerate(bins):
                        if in_bin(l, u, v):
                            want[k][b] += int(inc)
                            hits += 1
        shares = sc.detach_blinding_shares()
        ctx.eq(sorted(shares), sorted(sks), 'a share for each share keeper, and no other')
        for s in sks:
            share = shares[s]
            if transport == 'rsa':
                pub, priv = keys.pair(hash(s) % 3)
                e = encrypt(pub, share)
                share = decrypt(priv, jcopy(e))
                ctx.count('encrypted shares')
            elif transport == 'json':
                share = jcopy(share)
            bundles[s].append(share)
        counts = sc.detach_counts()
        dc_counts.append(jcopy(counts) if transport != 'object' else counts)
    sk_counts = []
    for s in sks:
        sc = SecureCounters(counters, m, require_generate_noise=False)
        rng.shuffle(bundles[s])
        for share in bundles[s]:
            if rng.random() < 0.1:
                bad = dict(share)
                bad['secret'] = mangle(rng, share['secret'])
                ctx.eq(bool(sc.import_blinding_share(bad)), False, 'a malformed share is refused', share=bad)
                ctx.count('refused malformed shares')
            ctx.eq(bool(sc.import_blinding_share(share)), True, 'a well-formed share is accepted', share=share)
        c = sc.detach_counts()
        sk_counts.append(jcopy(c) if transport != 'object' else c)
    everything = dc_counts + sk_counts
    rng.shuffle(everything)
    if rng.random() < 0.2:
        bad = list(everything)
        j = rng.randrange(len(bad))
        bad[j] = mangle(rng, bad[j])
        ctx.eq(bool(SecureCounters(counters, m, require_generate_noise=False).tally_counters(bad)), False,
               'counts whose structure does not match are not tallied', mangled=bad[j])
        ctx.count('refused malformed counts')
    ts = SecureCounters(counters, m, require_generate_noise=False)
    ctx.eq(bool(ts.tally_counters(everything)), True, 'matching counts are tallied', counters=counters)
    got = ts.detach_counts()
    ctx.eq(sorted(got), sorted(counters), 'a tally for each counter')
    for k in counters:
        for b, (l, u) in enumerate(counters[k]['bins']):
            gl, gu, gv = got[k]['bins'][b]
            ctx.eq((gl, gu), (l, u), 'the bin edges are those configured', counter=k)
            ctx.eq(gv, signed(want[k][b], m), 'the tally is the sum of the increments and the noise', counter=k, bin=b,
                   modulus=m, dcs=ndc, sks=nsk, total=want[k][b])
            if gv < 0:
                ctx.count('negative totals')
            if big and 2 * abs(want[k][b]) < m:
                ctx.eq(gv, want[k][b], 'a total within the capacity is not wrapped', counter=k, bin=b)
    ctx.eq(json.dumps(counters, sort_keys=True), original, 'the configured counters are not changed')
    ctx.count('tallies')
    ctx.count('increments that hit a bin', hits)
    if hits:
        ctx.nontrivial(m, [len(counters[k]['bins']) for k in sorted(counters)], ndc, nsk, transport)
    ctx.sample({'modulus': m, 'counters': dict((k, len(counters[k]['bins'])) for k in counters), 'dcs': ndc, 'sks': nsk,
                'transport': transport, 'hits': hits, 'totals': want})
