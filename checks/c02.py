'''C02: blinding hides every count from any incomplete set of parties.'''
import gc
import random
from simenv import Rand
from gen import *
from privcount.counter import SecureCounters

ID, LEVEL = 'C02', 'exploration'
RULE = ('random counter sets, moduli and share keeper names; each case blinds several rounds and data collectors and '
        'compares what every party would hold; distinct by (modulus, shape, share keepers). Over the whole run, the values '
        'of shares and of blinded counts are tested for uniformity and for repeats')
ASSUMPTIONS = ['the operating system CSPRNG is replaced by a recording, seeded generator: every SystemRandom draw goes through it',
               'uniformity is tested statistically (false alarm probability below 1e-8 per run)']
QUICK = dict(cases=700, seconds=25)
THOROUGH = dict(cases=40000, seconds=1200)
REQUIRE = {'shares': 1000, 'blinded bins': 1000, 'collectors searched for kept shares': 300}
MIN_DISTINCT = 100

ACC = {}

def values(counts):
    return dict(((k, b), long(counts[k]['bins'][b][2])) for k in counts for b in range(len(counts[k]['bins'])))

def note(name, v, m):
    'for the uniformity tests of finish()'
    if m >= 2 ** 40:
        ACC.setdefault((name, 'high'), [0] * 16)[int(v * 16 // m)] += 1
        ACC.setdefault((name, 'low'), [0] * 16)[int(v % 16)] += 1
        ACC.setdefault((name, 'mid'), [0] * 16)[int((v >> 20) % 16)] += 1
    elif m <= 9:
        ACC.setdefault((name, 'mod%d' % m), [0] * m)[int(v)] += 1

def hold(x, secret, depth=0, seen=None):
    'is one of the secret values reachable from x?'
    if seen is None:
        seen = set()
    if isinstance(x, (int, long)):
        return x in secret
    if isinstance(x, (float, str, unicode, bool)) or x is None or id(x) in seen or depth > 8:
        return False
    seen.add(id(x))
    if isinstance(x, dict):
        return any(hold(k, secret, depth + 1, seen) or hold(v, secret, depth + 1, seen) for k, v in x.items())
    if isinstance(x, (list, tuple, set, frozenset)):
        return any(hold(v, secret, depth + 1, seen) for v in x)
    if hasattr(x, '__dict__'):
        return hold(x.__dict__, secret, depth + 1, seen)
    return False

def make(counters, m, sks, incs, before):
    sc = SecureCounters(counters, m, require_generate_noise=False)
    if before:
        sc.generate_blinding_shares(list(sks))
    for k, v, inc in incs:
        sc.increment(k, bin=v, inc=inc)
    if not before:
        sc.generate_blinding_shares(list(sks))
    return sc

def case(ctx, rng, i):
    counters = rand_counters(rng, most=4)
    m = rng.choice([2 ** 70, 2 ** 70, 2 ** 70, 2 ** 64, 3 * 2 ** 68, 2 ** 61 - 1, 2, 3, 5, 7, 8])
    sks = ['key%d' % rng.getrandbits(30) for _ in range(rng.randrange(1, 6))]
    sks = sorted(set(sks))
    all_shares = []
    for d in range(2):
        incs, true = [], dict(((k, b), 0) for k in counters for b in range(len(counters[k]['bins'])))
        for _ in range(rng.randrange(0, 5)):
            k = rng.choice(sorted(counters))
            if len(counters[k]['bins']) == 1:
                v, inc = SecureCounters.SINGLE_BIN, rng.choice([1, 5, 2 ** 50])
                true[(k, 0)] += inc
            else:
                v, inc = rng.choice(inside_values(rng, counters[k]['bins'])), rng.choice([1, 5, 2 ** 50])
                for b, (l, u) in enumerate(counters[k]['bins']):
                    if in_bin(l, u, v):
                        true[(k, b)] += inc
            incs.append((k, v, inc))
        sc = make(counters, m, sks, incs, rng.random() < 0.5)
        shares = sc.detach_blinding_shares()
        ctx.eq(sorted(shares), sks, 'every share keeper is given a share, and nobody else is')
        per_sk = {}
        for s in sks:
            ctx.eq(shares[s].get('sk_uid', s), s, 'a share is labelled with its share keeper')
            per_sk[s] = values(shares[s]['secret'])
            ctx.eq(sorted(per_sk[s]), sorted(true), 'a share covers every bin of every counter')
            for key, v in per_sk[s].items():
                ctx.check(0 <= v < m or m == 1, 'a share is in range', value=v, modulus=m)
                note('share', v % m, m)
                ctx.count('shares')
        if m >= 2 ** 60 and len(sks) >= 2:
            # (with one share keeper, the blinded count of zero is that share)
            secret = set(v for s in per_sk for v in per_sk[s].values())
            again = sc.detach_blinding_shares()
            ctx.check(not again, 'the shares are handed out once', again=again)
            ctx.check(not hold(sc, secret), 'the data collector keeps no blinding share once they are handed over',
                      attributes=sorted(sc.__dict__))
            ctx.count('collectors searched for kept shares')
        blinded = values(sc.detach_counts())
        for key in true:
            total = sum(per_sk[s][key] for s in sks)
            ctx.eq(blinded[key] % m, (true[key] + total) % m,
                   'what is reported is the count plus the share of every share keeper', bin=key, modulus=m)
            note('blinded', blinded[key] % m, m)
            ctx.count('blinded bins')
            if m >= 2 ** 60:
                for s in sks:
                    ctx.check((blinded[key] - total + per_sk[s][key]) % m != true[key] % m,
                              'the count can not be had without the share of each share keeper', without=s)
        all_shares.append(per_sk)
    if m >= 2 ** 60:
        flat = [v for per in all_shares for s in per for v in per[s].values()]
        ctx.eq(len(set(flat)), len(flat), 'no blinding value is used twice (across bins, share keepers, data collectors)')
        diffs = [(all_shares[0][s][key] - all_shares[1][s][key]) % m for s in sks for key in true]
        ctx.eq(len(set(diffs)), len(diffs), 'blinding values are unrelated')
        # only the CSPRNG decides: other generators and the clock do not
        incs = []
        import simenv
        state = rng.getrandbits(60)
        r = []
        for seed in (1, 2):
            Rand.reset(state)
            random.seed(7)
            simenv.VTime.now = simenv.EPOCH
            if seed == 2:
                Rand.reset(state + 1)
            sh = make(counters, m, sks, incs, True).detach_blinding_shares()
            r.append([v for s in sks for v in values(sh[s]['secret']).values()])
        ctx.check(not set(r[0]) & set(r[1]), 'blinding values come from the system CSPRNG, not from a seedable generator')
    ctx.nontrivial(m, [len(counters[k]['bins']) for k in sorted(counters)], len(sks))
    ctx.sample({'modulus': m, 'share keepers': len(sks), 'shape': dict((k, len(counters[k]['bins'])) for k in counters)})

def finish(ctx):
    for (name, part), counts in sorted(ACC.items()):
        n = sum(counts)
        if n < 20 * len(counts):
            continue
        x = chi2(counts, n / float(len(counts)))
        ctx.check(x < chi2_limit(len(counts) - 1), 'the %s values are uniform (%s)' % (name, part), counts=counts, chi2=x)
        ctx.count('uniformity tests')
