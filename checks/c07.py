'''C07: rounds with changed noise are delayed, over any history.'''
import copy
from gen import *
from privcount.counter import CollectionDelay

ID, LEVEL = 'C07', 'exploration'
RULE = ('random histories of proposed, permitted, failed and successful rounds with sigmas that drift, jump, appear and '
        'disappear; distinct by history, non-trivial when some round had to be delayed')
ASSUMPTIONS = []
QUICK = dict(cases=4000, seconds=25)
THOROUGH = dict(cases=200000, seconds=900)
REQUIRE = {'permitted at once': 1000, 'refused': 1000, 'permitted after the delay': 500, 'failed rounds': 500, 'drifts refused': 50}
MIN_DISTINCT = 1000

def sigmas_of(a):
    return dict((k, v['sigma']) for k, v in a['counters'].items() if 'sigma' in v)

def needs_delay(first, proposed, tol):
    if first is None:
        return False
    a, b = sigmas_of(first), sigmas_of(proposed)
    return set(a) != set(b) or any(a[k] > b[k] and a[k] - b[k] > tol for k in a)

def case(ctx, rng, i):
    cd = CollectionDelay()
    tol = rng.choice([None, None, 0.0, 0.5, 1e-6])
    t = tol if tol is not None else 1e-6
    kw = {} if tol is None else {'tolerance': tol}
    base = dict(('C%d' % j, {'sigma': rng.choice([0.0, 1.0, 10.0, 240.5, 1e9])}) for j in range(rng.randrange(1, 4)))
    if rng.random() < 0.2:
        base['NoSigma'] = {'bins': []}
    current = {'counters': copy.deepcopy(base)}
    first, last_end = None, None       # the reference
    now = float(rng.randrange(0, 10 ** 6)) + 1.0
    log, delayed = [], False
    drift_from = None
    for step in range(rng.randrange(2, 14)):
        # the next proposal
        c = copy.deepcopy(current['counters'])
        change = rng.choice(['none', 'none', 'up', 'down', 'tiny', 'atol', 'add', 'remove', 'back', 'mixed'])
        k = rng.choice(sorted(c))
        if change == 'up' and 'sigma' in c[k]:
            c[k]['sigma'] += rng.choice([1e-7, 0.25, 5.0])
        elif change == 'down' and 'sigma' in c[k]:
            c[k]['sigma'] = max(0.0, c[k]['sigma'] - rng.choice([1e-5, 0.3, 0.75, 5.0]))
        elif change == 'tiny' and 'sigma' in c[k]:
            # each step is within the tolerance, the sum need not be
            c[k]['sigma'] = max(0.0, c[k]['sigma'] - 0.7 * t)
        elif change == 'atol' and 'sigma' in c[k]:
            c[k]['sigma'] = max(0.0, c[k]['sigma'] - t)
        elif change == 'add':
            c['New%d' % step] = {'sigma': 1.0}
        elif change == 'remove' and len(c) > 1:
            del c[k]
        elif change == 'back':
            c = copy.deepcopy(base)
        elif change == 'mixed':
            for j, k in enumerate(sorted(c)):
                if 'sigma' in c[k]:
                    c[k]['sigma'] = max(0.0, c[k]['sigma'] + (2.0 if j % 2 else -2.0))
        proposal = {'counters': c}
        delay = rng.choice([0, 10.0, 3600.0, 86400])
        rtt = rng.choice([0.0, 0.0, 2.5])
        always = rng.random() < 0.1
        change_needs = needs_delay(first, proposal, t)
        if last_end is None:
            earliest = 0
        elif always or change_needs:
            earliest = last_end + delay + rtt
        else:
            earliest = last_end
        got = cd.get_next_round_start_time(proposal, delay, max_client_rtt=rtt, always_delay=always, **kw)
        ctx.eq(got, earliest, 'the earliest start of the next round', history=log, proposal=sigmas_of(proposal), delay=delay)
        for start in (now, earliest, earliest - 0.001, earliest + 0.001):
            if start < 0:
                continue
            ok = cd.round_start_permitted(proposal, start, delay, max_client_rtt=rtt, always_delay=always, **kw)
            ctx.eq(bool(ok), start >= earliest, 'a round may start exactly from then on', history=log, start=start,
                   proposal=sigmas_of(proposal), earliest=earliest)
            if not ok:
                ctx.count('refused')
                if change == 'tiny':
                    ctx.count('drifts refused')
        if now < earliest:
            delayed = True
            if rng.random() < 0.3:
                # give up on this proposal
                log.append(('given up', change))
                continue
            now = earliest
            ctx.count('permitted after the delay')
        else:
            ctx.count('permitted at once')
        start, end = now, now + rng.choice([1.0, 60.0, 86400.0])
        success = rng.random() < 0.75
        snapshot = copy.deepcopy(proposal)
        cd.set_delay_for_stop(success, proposal, start, end, delay, max_client_rtt=rtt, always_delay=always, **kw)
        ctx.eq(proposal, snapshot, 'the noise allocation is not changed')
        log.append((change, sigmas_of(proposal), start, end, success, delay))
        if success:
            if first is None or always or change_needs:
                first = snapshot
            last_end = end
        else:
            ctx.count('failed rounds')
        current = snapshot
        now = end + rng.choice([0.0, 0.001, 5.0, 3600.0])
    if delayed:
        ctx.nontrivial(log)
    ctx.sample({'history': log[:6]})
