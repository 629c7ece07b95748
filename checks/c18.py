'''C18: the counters of exit streams.'''
import math
import sys
import evsim
from evsim import SINGLE
from gen import *
from privcount.match import suffix_match_prepare_collection

ID, LEVEL = 'C18', 'exploration'
RULE = ('random rounds of up to 120 random stream end events (ports, bytes, times, hosts, positions, list matches; some malformed) on a '
        'random selection of counters and bins; distinct by what was touched')
ASSUMPTIONS = ['noise is forced to zero and blinding is subtracted; C03 and C02 cover them']
QUICK = dict(cases=600, seconds=25)
THOROUGH = dict(cases=30000, seconds=1200)
REQUIRE = {'streams counted': 900, 'streams ignored': 100, 'bins that changed': 3000, 'initial web streams': 100,
           'list matches': 20, 'suffix matches': 8, 'malformed': 50}
MIN_DISTINCT = 30

CLASSES = {'Web': set([80, 443]),
           'Interactive': set([22, 194, 994, 6679, 6697, 7000] + range(6660, 6671)),
           'P2P': set([1214, 6699, 45682, 51413] + range(4661, 4667) + range(6346, 6430) + range(6881, 7000))}
SUFFIXES = ['Count', 'ByteCount', 'OutboundByteCount', 'InboundByteCount', 'ByteHistogram', 'OutboundByteHistogram',
            'InboundByteHistogram', 'ByteRatio', 'LifeTime']
IPS = [('93.184.216.34', 4), ('10.0.0.1', 4), ('2001:db8::1', 6), ('::1', 6), ('2001:DB8:0:0::2', 6), ('0.0.0.0', 4)]
NOT_IPS = ['', 'x', '1.2.3', '256.1.1.1', '[::1]', '1.2.3.4.5', '(null)']

def port_class(port):
    for c in ('Web', 'Interactive', 'P2P'):
        if port in CLASSES[c]:
            return c
    return 'OtherPort'

def ratio(down, up):
    if down == 0:
        return float(sys.float_info.max_exp)
    if up == 0:
        return float(sys.float_info.min_exp)
    return math.log(up / float(down)) / math.log(2)

def all_of(e, name, down, up, r, life, counts=True):
    total = down + up
    p = 'Exit%sStream' % name
    if counts:
        evsim.add(e, p + 'Count', SINGLE, 1)
        evsim.add(e, p + 'ByteCount', SINGLE, total)
        evsim.add(e, p + 'OutboundByteCount', SINGLE, up)
        evsim.add(e, p + 'InboundByteCount', SINGLE, down)
    evsim.add(e, p + 'ByteHistogram', total, 1)
    evsim.add(e, p + 'OutboundByteHistogram', up, 1)
    evsim.add(e, p + 'InboundByteHistogram', down, 1)
    evsim.add(e, p + 'ByteRatio', r, 1)
    evsim.add(e, p + 'LifeTime', life, 1)

def lists_of(e, name, b, down, up):
    p = 'Exit%sStream' % name
    evsim.add(e, p + 'CountList', b, 1)
    evsim.add(e, p + 'ByteCountList', b, down + up)
    evsim.add(e, p + 'OutboundByteCountList', b, up)
    evsim.add(e, p + 'InboundByteCountList', b, down)

def version_of(ip):
    for s, v in IPS:
        if s == ip:
            return v
    return None

def reference(s, lists, exact, suffix):
    'the increments for stream s, which has valid values'
    e = {}
    down, up, port = s['read'], s['write'], s['port']
    if down < 0 or up < 0 or down + up <= 0:
        return e
    r, life = ratio(down, up), s['end'] - s['start']
    put = lambda name: all_of(e, name, down, up, r, life)
    put('')
    put(port_class(port))
    web = 'Web' if port in (80, 443) else 'NonWeb'
    if web == 'NonWeb':
        put('NonWeb')
    pos = 'Initial' if s['number'] == 1 else 'Subsequent'
    put(pos)
    v = version_of(s['ip'])
    if v is not None:
        put('IPv%d' % v)
        put('IPv%d%s' % (v, pos))
    hv = version_of(s['host'])
    host = 'Hostname' if hv is None else 'IPv%dLiteral' % hv
    put(host)
    put(host + pos)
    if hv is None:
        put('Hostname' + web)
        put('Hostname' + web + pos)
        if web == 'Web' and pos == 'Initial':
            h = s['host'].lower()
            ex = [i for i, l in enumerate(lists) if h in l]
            su = [i for d, i in owners(lists).items() if h.strip('.') == d or h.strip('.').endswith('.' + d)]
            eb = float(ex[0]) if ex else INF
            sb = float(su[0]) if su else INF
            for want, kind, b in ((exact, 'Exact', eb), (suffix, 'Suffix', sb)):
                if want:
                    all_of(e, 'Domain%s%sMatchWebInitial' % ('' if b == 0 else 'No', kind), down, up, r, life, counts=False)
                    lists_of(e, 'Domain%sMatchWebInitial' % kind, b, down, up)
    return e

def owners(lists):
    'which list each suffix is counted in: a shorter suffix comes before longer ones'
    kept = {}
    for _, i, d in sorted((d.count('.'), i, d) for i, l in enumerate(lists) for d in l):
        if not any(d == s or d.endswith('.' + s) for s in kept):
            kept[d] = i
    return kept

def domains(rng, overlap=False):
    'disjoint lists, in the way the tally server prepares them; or with names below names of other lists'
    pool = ['example.com', 'torproject.org', 'a.co.uk', 'b.co.uk', 'www.wikipedia.org', 'x', 'xn--a.net', 'test.example.net', 'foo.bar.baz']
    rng.shuffle(pool)
    lists = []
    for _ in range(rng.randrange(1, 4)):
        n = rng.randrange(1, 4)
        lists.append(pool[:n])
        del pool[:n]
    if overlap:
        for _ in range(rng.randrange(1, 4)):
            below = rng.choice(['sub.', 'deep.sub.', 'mail.']) + rng.choice(rng.choice(lists))
            if not any(below in l for l in lists):
                rng.choice(lists).append(below)
    return lists

def a_host(rng, lists):
    k = rng.random()
    d = rng.choice(rng.choice(lists))
    if k < 0.25:
        return rng.choice([d, d.upper(), d.capitalize()])
    if k < 0.45:
        return rng.choice(['www.', 'a.b.', 'WWW.']) + d
    if k < 0.55:
        return rng.choice(['not', 'x-']) + d
    if k < 0.62:
        return d + rng.choice(['.com', 'x', '.a'])
    if k < 0.67:
        return d.partition('.')[2] or 'com'
    if k < 0.85:
        return rng.choice(IPS)[0]
    return rng.choice(NOT_IPS + ['unlisted.example', 'localhost'])

def a_stream(rng, lists, times):
    n = rng.choice([lambda: 0, lambda: 1, lambda: rng.randrange(0, 10), lambda: rng.randrange(0, 5000), lambda: 2 ** rng.randrange(0, 40),
                    lambda: rng.choice([-1, -100])])
    edge = [21, 22, 23, 79, 80, 81, 442, 443, 444, 193, 194, 993, 994, 6659, 6660, 6666, 6670, 6671, 6679, 6680, 6696, 6697, 7000, 7001,
            1213, 1214, 1215, 4660, 4661, 4666, 4667, 6345, 6346, 6429, 6430, 6698, 6699, 6700, 6880, 6881, 6999, 45682, 51413, 51412,
            0, 65535, 8080]
    start = times + rng.choice([0.0, 0.5, 3.25, 100.0])
    hosts = a_host(rng, lists)
    return {'chan': rng.randrange(0, 4), 'circ': rng.randrange(0, 4), 'stream': rng.randrange(0, 65536),
            'port': rng.choice([80, 443, 80, 22, 1214, 9001] + [rng.choice(edge)] * 6 + [rng.randrange(0, 65536)]),
            'read': n() if rng.random() < 0.85 else rng.choice([0, 5]), 'write': n(), 'start': start,
            'end': start + rng.choice([0.0, 1.0, 0.25, 119.5, 120.0, 3600.0, 86400.0, -1.0]), 'host': hosts,
            'ip': rng.choice(IPS)[0] if rng.random() < 0.85 else rng.choice(NOT_IPS), 'number': rng.choice([1, 1, 1, 2, 3, 0, 11])}

def wire(s):
    return [str(s['chan']), str(s['circ']), str(s['stream']), str(s['port']), str(s['read']), str(s['write']),
            '%.6f' % s['start'], '%.6f' % s['end'], s['host'], s['ip'], str(s['number'])]

def malformed(rng, items):
    k = rng.choice(['short', 'long', 'empty'])
    if k == 'short':
        return items[:rng.randrange(0, 11)]
    if k == 'long':
        return items + ['1'] * rng.randrange(1, 3)
    return []

def family(known):
    return [n for n in known if 'Stream' in n and not n.startswith('ExitCircuit') and 'TrafficModel' not in n]

def case(ctx, rng, i):
    known = evsim.known_names()
    lists = domains(rng, rng.random() < 0.25)
    exact, suffix = rng.random() < 0.6, rng.random() < 0.6
    streams = [a_stream(rng, lists, 1.5e9) for _ in range(rng.choice([3, 10, 30, 60, 120]))]
    if rng.random() < 0.5:
        for s in streams:
            if rng.random() < 0.6:
                s['port'], s['number'], s['host'] = rng.choice([80, 443]), 1, a_host(rng, lists)
    full = {}
    for s in streams:
        evsim.merge(full, reference(s, lists, True, True))
    names = evsim.choose(rng, known, set(n for n, _ in full), family(known), rng.choice([10, 60, 160]), rng.choice([0, 20]))
    names = [n for n in names if (exact or 'ExactMatch' not in n) and (suffix or 'SuffixMatch' not in n)] or ['ZeroCount']
    has_exact = any('DomainExactMatch' in n or 'DomainNoExactMatch' in n for n in names)
    has_suffix = any('DomainSuffixMatch' in n or 'DomainNoSuffixMatch' in n for n in names)
    values = {}
    for (n, v) in full:
        values.setdefault(n, []).append(v)
    bins = dict((n, evsim.make_bins(rng, n, values.get(n, []), n_lists=len(lists))) for n in names)
    tree = {}
    for j, l in enumerate(lists):
        tree, _ = suffix_match_prepare_collection(l, separator='.', existing_suffixes=tree, collection_tag=j)
    col = evsim.Collector(ctx, bins, {'domain_lists': lists, 'domain_suffixes': tree})
    total = {}
    for s in streams:
        if rng.random() < 0.06:
            col.event('PRIVCOUNT_STREAM_ENDED', malformed(rng, wire(s)))
            ctx.count('malformed')
            continue
        if rng.random() < 0.1:
            col.event('PRIVCOUNT_STREAM_BYTES_TRANSFERRED', [str(s['chan']), str(s['circ']), str(s['stream']), '1', '498', '%.6f' % s['start']])
        ctx.check(col.event('PRIVCOUNT_STREAM_ENDED', wire(s)), 'a well formed stream event is accepted', event=s)
        e = reference(s, lists, has_exact, has_suffix)
        evsim.merge(total, e)
        ctx.count('streams counted' if e else 'streams ignored')
        for b in (b for (n, b) in e if n == 'ExitDomainExactMatchWebInitialStreamCountList'):
            ctx.count('list matches' if b != INF else 'no list match')
        two = [[b for (n, b) in e if n == 'ExitDomain%sMatchWebInitialStreamCountList' % k] for k in ('Exact', 'Suffix')]
        if two[0] and two[1] and two[0] != two[1] and two[0] != [INF]:
            ctx.count('in one list, and below a name of another')
        if has_suffix and any(n == 'ExitDomainSuffixMatchWebInitialStreamCountList' and b != INF for (n, b) in e):
            ctx.count('suffix matches')
        if ('ExitHostnameWebInitialStreamCount', None) in e:
            ctx.count('initial web streams')
    evsim.compare(ctx, bins, col.stop(), total, 'the counts of the streams', streams=[wire(s) for s in streams], lists=lists)
    ctx.nontrivial(sorted(set(n for n, _ in total) & set(names))[:60], len(streams))
    ctx.sample({'streams': [wire(s) for s in streams[:2]], 'lists': lists, 'counters': sorted(names)[:8]})
