'''C35: durations, times, sizes and summaries, as operators read them in logs.'''
import datetime
import re

import simenv
from gen import *
from simenv import reactor
from privcount import log as L

ID, LEVEL = 'C35', 'exploration'
RULE = ('random periods, times and sizes, and those beside the limits of each unit, at random times of day; random strings and collections '
        'around the limits of summaries; distinct by the value')
ASSUMPTIONS = ['times are between the years 1970 and 2100']
QUICK = dict(cases=8000, seconds=15)
THOROUGH = dict(cases=400000, seconds=600)
REQUIRE = {'periods': 1500, 'negative periods': 250, 'times': 1500, 'sizes': 1500, 'strings shortened': 500, 'strings kept': 500,
           'collections': 1500}
MIN_DISTINCT = 2000

UNITS = [7 * 86400, 86400, 3600, 60, 1]

def setup(ctx):
    simenv.set_logging(False)

def number(rng):
    'a number of seconds'
    k = rng.randrange(5)
    if k == 0:
        n = rng.choice(UNITS) * rng.choice([0, 1, 2, 7, 23, 24, 59, 60, 52]) + rng.choice([-1, 0, 0, 1])
    elif k == 1:
        n = sum(u * rng.choice([0, 0, 1, 3]) for u in UNITS)
    elif k == 2:
        n = rng.randrange(10 ** rng.choice([1, 2, 4, 6, 9]))
    elif k == 3:
        n = rng.choice([0.1, 0.5, 0.9, 59.99, 60.0, 3599.5, 1e6 + 0.25])
    else:
        n = rng.choice([0, 1, 59, 60, 61, 3599, 3600, 3601, 86399, 86400, 604799, 604800, 604801])
    if rng.random() < 0.2:
        n = -n
    return n

def period(n):
    'the documented form of a period'
    n = int(n)
    sign, n = ('-', -n) if n < 0 else ('', n)
    parts = []
    for u, c in zip(UNITS, 'wdhms'):
        parts.append((n // u, c))
        n %= u
    while len(parts) > 1 and parts[0][0] == 0:
        parts.pop(0)
    return sign + ' '.join('%d%s' % p for p in parts)

def stamp(t):
    return (datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=int(t))).strftime('%Y-%m-%d %H:%M:%S UTC')

def times(ctx, rng):
    reactor.reset(rng)
    reactor.advance(rng.choice([0, 0.75, rng.random() * 86400]))
    now = int(simenv.VTime.now if hasattr(simenv.VTime, 'now') else reactor.seconds())
    n = number(rng)
    p = period(n)
    ctx.eq(L.format_period(n), p, 'the period', seconds=n)
    # (read back)
    m = re.match(r'^(-?)(?:(\d+)w )?(?:(\d+)d )?(?:(\d+)h )?(?:(\d+)m )?(\d+)s$', p)
    total = sum(int(m.group(j + 2) or 0) * u for j, u in enumerate(UNITS))
    ctx.eq(-total if m.group(1) else total, int(n), 'the seconds of the period', text=p)
    ctx.count('periods')
    ctx.count('negative periods', n <= -1)
    t = rng.choice([0, 1, 86399, 951782400, 1230768000, 1456704000, 4102444799, rng.randrange(4 * 10 ** 9), rng.random() * 4e9])
    w = dict(time=t)
    ctx.eq(L.normalise_time(t), int(t), 'the time in whole seconds', **w)
    ctx.eq(L.current_time(), now, 'the current time')
    ctx.eq(L.format_datetime(t), stamp(t), 'the date and time', **w)
    ctx.eq(L.format_epoch(t), '%d' % int(t), 'the time in seconds', **w)
    desc = rng.choice(['at', 'since', 'for'])
    both = lambda x: '%s %d' % (stamp(x), int(x))
    ctx.eq(L.format_time(n, desc, t), '%s (%s %s)' % (p, desc, both(t)), 'the period and time', seconds=n, **w)
    u = t + abs(number(rng))
    between = '(%s %s to %s, %d to %d)' % (desc, stamp(t), stamp(u), int(t), int(u))
    ctx.eq(L.format_interval(n, desc, t, u), '%s %s' % (p, between), 'the interval', end=u, **w)
    ctx.eq(L.format_interval_time_between(t, desc, u), '%s %s' % (period(int(u) - int(t)), between), 'the time between', end=u, **w)
    ctx.eq(L.format_elapsed_time_wait(n, desc), '%s (%s %s)' % (p, desc, both(now - int(n))), 'the time that has passed', seconds=n, now=now)
    ctx.eq(L.format_elapsed_time_since(t, desc), '%s (%s %s)' % (period(now - int(t)), desc, both(t)), 'the time since then', now=now, **w)
    ctx.eq(L.format_delay_time_wait(n, desc), '%s (%s %s)' % (p, desc, both(now + int(n))), 'the time to wait', seconds=n, now=now)
    ctx.eq(L.format_delay_time_until(t, desc), '%s (%s %s)' % (period(int(t) - now), desc, both(t)), 'the time until then', now=now, **w)
    ctx.eq(L.format_last_event_time_since(t), 'last Tor event was %s (at %s)' % (period(now - int(t)), both(t)), 'the time of the last event', now=now, **w)
    ctx.eq(L.format_last_event_time_since(None), 'no Tor events received', 'that there were no events')
    ctx.count('times')
    ctx.nontrivial('time', n, t)

def sizes(ctx, rng):
    k = rng.choice([0, 1, 2, 3, 4])
    n = 1024 ** k * rng.choice([1, 1, 2, 500, 1023, rng.random()])
    n = max(0, int(n) + rng.choice([-1, 0, 0, 1]))
    got = L.format_bytes(n)
    m = re.match(r'^(\d+)\.(\d) (B|kB|MB|GB)$', got)
    ctx.check(m is not None, 'the form of a size', size=n, text=got)
    unit = 1024 ** ['B', 'kB', 'MB', 'GB'].index(m.group(3))
    tenths = int(m.group(1)) * 10 + int(m.group(2))
    ctx.check(abs(tenths * unit - n * 10) <= 0.5000001 * unit, 'the size to one decimal place', size=n, text=got)
    want = 1
    while n >= 1024 * want and want < 1024 ** 3:
        want *= 1024
    ctx.eq(unit, want, 'the unit of the size', size=n, text=got)
    ctx.count('sizes')

def shortened(ctx, s, text, most, ellipsis, w):
    'text is the string, or its start, the ellipsis and its end'
    if len(s) <= most:
        ctx.eq(text, s, 'a short string is kept', **w)
        ctx.count('strings kept')
        return
    ctx.eq(len(text), most, 'a long string is shortened to the limit', text=text, **w)
    if most > len(ellipsis):
        n = most - len(ellipsis)
        a, b = n - n // 2, n // 2
        ctx.eq(text, s[:a] + ellipsis + (s[len(s) - b:]), 'the start and end of a long string are kept', **w)
    elif most > 0:
        ctx.eq(text, ellipsis[:most], 'there is only room for the ellipsis', **w)
    ctx.count('strings shortened')

def summaries(ctx, rng):
    s = ''.join(rng.choice('abcdefgh123 \'"{}\xe9') for _ in range(rng.choice([0, 1, 2, 3, 4, 5, 10, 99, 100, 101, 300])))
    most = rng.choice([0, 1, 2, 3, 4, 5, 6, 10, 99, 100, '20'])
    ellipsis = rng.choice(['...', '....', '', None, '.'])
    kw = {}
    if rng.random() < 0.8:
        kw['max_len'] = most
    else:
        most = 100
    if rng.random() < 0.6:
        kw['ellipsis'] = ellipsis
    else:
        ellipsis = '...'
    shortened(ctx, s, L.summarise_string(s, **kw), int(most), ellipsis or '', dict(string=repr(s), options=kw))
    n = rng.choice([0, 1, -5, 10 ** 6, 2.5, None, 10 ** 40])
    ctx.eq(L.summarise_string(n, max_len=200), str(n), 'the text of an object', value=n)

    items = [rng.choice(['a', 'b', 'example.com', 'x' * 60, '', 'y' * 50, 'z' * 51]) for _ in range(rng.choice([0, 1, 2, 2, 3, 10]))]
    if rng.random() < 0.3:
        items = [rng.randrange(1000) for _ in items]
    form = rng.choice([list, tuple, set, frozenset])
    c = form(items)
    kw, most, ellipsis = {}, 50, '....'
    if rng.random() < 0.3:
        kw['max_obj_str_len'] = most = rng.choice([5, 10, 50])
    if rng.random() < 0.3:
        kw['ellipsis'] = ellipsis = rng.choice(['...', '.'])
    in_order = rng.random() < 0.5 or form in (set, frozenset)
    if not in_order:
        kw['sort_output'] = False
    l = [str(x) for x in (sorted(c) if in_order else c)]
    got = L.summarise_list(c, **kw)
    w = dict(items=items, form=form.__name__, options=kw)
    end = "' (%d)" % len(l)
    ctx.check(got.startswith("'") and got.endswith(end), 'the number of items', text=got, **w)
    text = got[1:len(got) - len(end)]
    if len(l) == 0:
        ctx.eq(text, '', 'nothing to summarise', **w)
    elif len(l) == 1:
        shortened(ctx, l[0], text, most, ellipsis, w)
    else:
        shortened(ctx, l[0] + ellipsis + l[-1], text, 2 * most + len(ellipsis), ellipsis, w)
    ctx.count('collections')
    ctx.nontrivial('summary', s, tuple(items))

def case(ctx, rng, i):
    times(ctx, rng)
    sizes(ctx, rng)
    summaries(ctx, rng)
