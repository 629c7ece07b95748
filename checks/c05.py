'''C05: random integers are exactly uniform and come from the system CSPRNG.'''
import random
from simenv import Rand
from gen import *
from privcount.counter import sample, sample_randint, derive_blinding_factor

ID, LEVEL = 'C05', 'exploration'
RULE = ('for every modulus up to 300 (thorough: 2000) and random ones up to 4000, all outcomes of the first random draw are '
        'enumerated; for large moduli the values are tested statistically, and at the extreme draws; distinct by modulus and function')
ASSUMPTIONS = ['the system CSPRNG is replaced by a controlled one, which is asked for bits']
QUICK = dict(cases=420, seconds=25)
THOROUGH = dict(cases=2600, seconds=900)
REQUIRE = {'draws enumerated': 20000, 'redraws': 3000, 'long runs of rejected draws': 50, 'large samples': 5000}
MIN_DISTINCT = 250

class Redraw(Exception):
    pass

def enumerate_first(ctx, fn, what):
    'the outcomes of fn() for every value of its first draw'
    asked = []
    def probe(k):
        asked.append(k)
        return 0
    Rand.bits_hook = probe
    fn()
    ctx.check(len(asked) >= 1, '%s asks the system CSPRNG' % what)
    k = asked[0]
    if k > 13:
        return None
    out, redraws = {}, 0
    for x in xrange(2 ** k):
        calls = [0]
        def hook(n):
            calls[0] += 1
            if calls[0] > 1:
                raise Redraw()
            return x
        Rand.bits_hook = hook
        try:
            v = fn()
            out[v] = out.get(v, 0) + 1
        except Redraw:
            redraws += 1
        ctx.count('draws enumerated')
    Rand.bits_hook = None
    ctx.count('redraws', redraws)
    return out, redraws, 2 ** k

def case(ctx, rng, i):
    small = 300 if ctx.quick else 2000
    if i < small:
        m = i + 1
    elif i < small + 40:
        m = rng.randrange(300, 4000)
    else:
        return large(ctx, rng, i)
    a = rng.choice([0, 0, 1, -5, rng.randrange(-10 ** 6, 10 ** 6)])
    for fn, lo, what in ((lambda: sample(m), 0, 'sample'),
                         (lambda: sample_randint(a, a + m - 1), a, 'sample_randint'),
                         (lambda: derive_blinding_factor(None, m), 0, 'blinding factor')):
        r = enumerate_first(ctx, fn, what)
        if r is None:
            # wide draws: nothing to enumerate, look at the values only
            counts = [0] * m
            for _ in range(40 * m):
                v = fn()
                ctx.check(lo <= v < lo + m, '%s is in range' % what, value=v, modulus=m)
                counts[v - lo] += 1
            x = chi2(counts, 40.0)
            ctx.check(x < chi2_limit(max(1, m - 1)), '%s is uniform' % what, chi2=x, modulus=m)
            continue
        out, redraws, n = r
        ctx.eq(sorted(out), range(lo, lo + m), '%s reaches exactly the values in its range' % what, modulus=m)
        ctx.eq(len(set(out.values())), 1, '%s has the same number of draws for each value' % what, modulus=m, draws=out)
        ctx.check(redraws < n, '%s ends' % what)
        # a redraw is a fresh start: after a rejected draw, each value is possible again, once per draw
        if redraws and n <= 64:
            rejected = [x for x in range(n) if x not in accepted(fn, n)]
            for x in rejected[:2]:
                seen = {}
                for y in range(n):
                    seq = [x, y]
                    def hook(k):
                        if not seq:
                            raise Redraw()
                        return seq.pop(0)
                    Rand.bits_hook = hook
                    try:
                        v = fn()
                        seen[v] = seen.get(v, 0) + 1
                    except Redraw:
                        pass
                Rand.bits_hook = None
                ctx.eq(seen, out, '%s is uniform after a rejected draw' % what, modulus=m, rejected=x)
            # and so it is after any number of rejected draws
            many = rng.choice([2, 5, 9, 17, 33, 65, 129, 257, 1025, 4097])
            for y in rng.sample(range(n), min(n, 3)):
                seq = [rng.choice(rejected) for _ in range(many)]
                def hook(k):
                    if not seq:
                        return y
                    return seq.pop()
                Rand.bits_hook = hook
                direct = None
                if y not in rejected:
                    v = fn()
                    del seq[:]
                    direct = fn()
                    ctx.eq(v, direct, '%s depends on the accepted draw only' % what, modulus=m, rejected_before=many)
                    ctx.count('long runs of rejected draws')
                Rand.bits_hook = None
        ctx.nontrivial(what, m)
    ctx.sample({'modulus': m, 'offset': a})

def accepted(fn, n):
    ok = set()
    for x in range(n):
        calls = [0]
        def hook(k):
            calls[0] += 1
            if calls[0] > 1:
                raise Redraw()
            return x
        Rand.bits_hook = hook
        try:
            fn()
            ok.add(x)
        except Redraw:
            pass
    Rand.bits_hook = None
    return ok

def large(ctx, rng, i):
    m = rng.choice([2 ** 70, 2 ** 70, 2 ** 64, 3 * 2 ** 68, 2 ** 69 + 1, 2 ** 70 - 1, 2 ** 31 - 1, 5 * 2 ** 60 + 3])
    n = 600
    high, low, seen = [0] * 16, [0] * 16, set()
    for _ in range(n):
        v = sample(m)
        ctx.check(0 <= v < m, 'sample is in range', value=v, modulus=m)
        high[int(v * 16 // m)] += 1
        low[int(v % 16)] += 1
        seen.add(v)
        ctx.count('large samples')
    for name, c in (('high', high), ('low', low)):
        x = chi2(c, n / 16.0)
        ctx.check(x < chi2_limit(15), 'sample is uniform in its %s part' % name, counts=c, chi2=x, modulus=m)
    if m > 2 ** 60:
        ctx.eq(len(seen), n, 'large samples do not repeat')
    # the extreme draws
    for first in (0, -1, m - 1, m):
        calls = [0]
        def hook(k):
            calls[0] += 1
            x = first % (1 << k)
            return x if calls[0] == 1 else None
        Rand.bits_hook = hook
        v = sample(m)
        ctx.check(0 <= v < m, 'sample is in range for an extreme draw', value=v, modulus=m, first=first)
        u = derive_blinding_factor(v, m, positive=False)
        ctx.eq((u + derive_blinding_factor(v, m, positive=True)) % m, 0, 'the unblinding factor removes the blinding factor', v=v)
    # draws that are rejected, however often, leave no trace
    for many in (rng.randrange(1, 20), rng.randrange(20, 300), 2000):
        left, v = [many], rng.randrange(min(m, 2 ** 30))
        def hook(k):
            if left[0] and 2 ** k > m:
                left[0] -= 1
                return rng.randrange(m, 2 ** k)
            left[0] = 0
            return v
        Rand.bits_hook = hook
        got = sample(m)
        Rand.bits_hook = None
        left[0] = 0
        Rand.bits_hook = hook
        ctx.eq(got, sample(m), 'sample depends on the accepted draw only', modulus=m, rejected_before=many)
        Rand.bits_hook = None
    random.seed(4)
    a = sample(m)
    random.seed(4)
    b = sample(m)
    if m > 2 ** 60:
        ctx.check(a != b, 'sample does not depend on the seedable generator')
    ctx.nontrivial('large', m)
