'''C20: the counters of closed connections.'''
import evsim
import fields
from evsim import SINGLE
from gen import *

ID, LEVEL = 'C20', 'exploration'
RULE = ('random rounds of up to 80 random connection close events (some malformed in one field) on a random selection of counters and bins, '
        'with random country lists, AS lists and overlapping IPv4 and IPv6 prefix maps; distinct by what was touched')
ASSUMPTIONS = ['noise is forced to zero and blinding is subtracted; C03 and C02 cover them',
               'pyasn is not installed here: the prefix maps are looked up by a stand-in with its interface']
QUICK = dict(cases=420, seconds=25)
THOROUGH = dict(cases=30000, seconds=1200)
REQUIRE = {'connections counted': 1000, 'malformed connections': 200, 'country matches': 400, 'AS matches': 300, 'IPv6': 500,
           'bins that changed': 5000}
MIN_DISTINCT = 30

COUNTRIES = ['us', 'de', 'fr', 'ru', 'nl', '??', '!!', 'gb', 'se', 'a1']
MANDATORY = ['EventTimestamp', 'CreatedTimestamp', 'ChannelId', 'RemoteIsClientFlag', 'RemoteIPAddress',
             'RemoteIPAddressConnectionCount', 'PeerIPAddressConsensusRelayCount']
TABLE = {'EventTimestamp': fields.TIME, 'CreatedTimestamp': fields.TIME, 'ChannelId': fields.NONNEG, 'RemoteIsClientFlag': fields.FLAG,
         'RemoteIPAddress': fields.IP, 'RemoteIPAddressConnectionCount': fields.int_between(0, 2 ** 17),
         'PeerIPAddressConsensusRelayCount': fields.int_between(0, 100), 'PeerIPAddress': fields.IP, 'InboundByteCount': fields.NONNEG,
         'OutboundByteCount': fields.NONNEG, 'InboundCircuitCount': fields.NONNEG, 'OutboundCircuitCount': fields.NONNEG,
         'RemoteCountryCode': ('', 'u', 'usa')}

# prefixes that nest, and an address in each part of them
PREFIXES = {'4': ['10.0.0.0/8', '10.1.0.0/16', '10.1.2.0/24', '10.1.2.3/32', '192.0.2.0/24', '192.0.2.128/25'],
            '6': ['2001:db8::/32', '2001:db8:1::/48', '2001:db8:1:2::/64', '2001:db8:1:2::3/128', 'fe80::/10']}
# each address with the prefixes that contain it, longest first
ADDRESSES = {'10.200.0.1': ['10.0.0.0/8'], '10.1.200.1': ['10.1.0.0/16', '10.0.0.0/8'],
             '10.1.2.200': ['10.1.2.0/24', '10.1.0.0/16', '10.0.0.0/8'],
             '10.1.2.3': ['10.1.2.3/32', '10.1.2.0/24', '10.1.0.0/16', '10.0.0.0/8'],
             '192.0.2.1': ['192.0.2.0/24'], '192.0.2.255': ['192.0.2.128/25', '192.0.2.0/24'], '192.0.3.0': [], '8.8.8.8': [],
             '2001:db8:ffff::1': ['2001:db8::/32'], '2001:db8:1::1': ['2001:db8:1::/48', '2001:db8::/32'],
             '2001:db8:1:2::4': ['2001:db8:1:2::/64', '2001:db8:1::/48', '2001:db8::/32'],
             '2001:0db8:0001:0002:0000:0000:0000:0003': ['2001:db8:1:2::3/128', '2001:db8:1:2::/64', '2001:db8:1::/48', '2001:db8::/32'],
             '2001:db9::1': [], 'febf::1': ['fe80::/10']}

def reference(f, countries, maps, as_lists):
    e = {}
    side = 'Entry' if f['RemoteIsClientFlag'] == '1' else 'NonEntry'
    relay = 'RelayOnAddress' if int(f['PeerIPAddressConsensusRelayCount']) > 0 else 'NoRelayOnAddress'
    n = dict((k, int(f.get(k, '0'))) for k in ('InboundByteCount', 'OutboundByteCount', 'InboundCircuitCount', 'OutboundCircuitCount'))
    amounts = {'Byte': n['InboundByteCount'] + n['OutboundByteCount'], 'InboundByte': n['InboundByteCount'],
               'OutboundByte': n['OutboundByteCount'], 'Circuit': n['InboundCircuitCount'] + n['OutboundCircuitCount'],
               'InboundCircuit': n['InboundCircuitCount'], 'OutboundCircuit': n['OutboundCircuitCount']}
    histograms = dict((k + 'Histogram', v) for k, v in amounts.items())
    histograms['LifeTime'] = float(f['EventTimestamp']) - float(f['CreatedTimestamp'])
    histograms['OverlapHistogram'] = int(f['RemoteIPAddressConnectionCount'])

    code = f.get('RemoteCountryCode', '!!').lower()
    country = [i for i, l in enumerate(countries) if code in [c.lower() for c in l]]
    number = None
    if maps is not None:
        table = maps['6' if ':' in f['RemoteIPAddress'] else '4']
        found = [p for p in ADDRESSES[f['RemoteIPAddress']] if p in table]
        if found:
            number = table[found[0]]
    asn = [i for i, l in enumerate(as_lists) if number in l]

    for middle in ('', relay):
        p = side + middle + 'Connection'
        evsim.add(e, p + 'Count', SINGLE, 1)
        for k in amounts:
            evsim.add(e, p + k + 'Count', SINGLE, amounts[k])
        for k in histograms:
            evsim.add(e, p + k, histograms[k], 1)
        for what, hit in (('Country', country), ('AS', asn)):
            first = bool(hit) and hit[0] == 0
            for k in histograms:
                evsim.add(e, p + what + ('Match' if first else 'NoMatch') + k, histograms[k], 1)
            b = float(hit[0]) if hit else INF
            evsim.add(e, p + what + 'MatchCountList', b, 1)
            for k in amounts:
                evsim.add(e, p + what + 'Match' + k + 'CountList', b, amounts[k])
    return e, bool(country), bool(asn)

def connection(rng):
    start = 1.5e9 + rng.choice([0.0, 0.25, 17.5, 600.0])
    f = {'EventTimestamp': '%.6f' % (start + rng.choice([0.0, 0.5, 10.0, 119.0, 600.0, 86400.0, -2.0])), 'CreatedTimestamp': '%.6f' % start,
         'ChannelId': str(rng.randrange(1000)), 'RemoteIsClientFlag': rng.choice('01'), 'RemoteIPAddress': rng.choice(sorted(ADDRESSES)),
         'RemoteIPAddressConnectionCount': str(rng.choice([0, 1, 1, 2, 5, 2 ** 17])),
         'PeerIPAddressConsensusRelayCount': str(rng.choice([0, 0, 1, 2, 7, 100]))}
    for k in ('InboundByteCount', 'OutboundByteCount'):
        if rng.random() < 0.85:
            f[k] = str(rng.choice([0, 1, 514, rng.randrange(10 ** 6), 2 ** 40]))
    for k in ('InboundCircuitCount', 'OutboundCircuitCount'):
        if rng.random() < 0.85:
            f[k] = str(rng.choice([0, 1, 2, 10, rng.randrange(100), 10 ** 5]))
    if rng.random() < 0.85:
        c = rng.choice(COUNTRIES)
        f['RemoteCountryCode'] = c.upper() if rng.random() < 0.3 else c
    if rng.random() < 0.3:
        f['PeerIPAddress'] = rng.choice(['10.0.0.8', '2001:db8::8'])
    if rng.random() < 0.1:
        f['SomeFutureField'] = 'x'
    return f

def lists_of(rng, items, most=3):
    items = list(items)
    rng.shuffle(items)
    r = []
    for _ in range(rng.randrange(1, most + 1)):
        n = rng.choice([1, 1, 2, 3])
        if len(items) < n:
            break
        r.append([items.pop() for _ in range(n)])
    return r

def case(ctx, rng, i):
    known = evsim.known_names()
    countries = lists_of(rng, COUNTRIES)
    countries = [[c.upper() if rng.random() < 0.2 else c for c in l] for l in countries]
    maps, as_lists, extra = None, [], {'country_lists': countries}
    if rng.random() < 0.85:
        numbers = [64500 + k for k in range(8)]
        as_lists = lists_of(rng, numbers)
        maps = {}
        for v in '46':
            maps[v] = dict((p, rng.choice(numbers)) for p in PREFIXES[v] if rng.random() < 0.75)
        extra['as_data'] = {'prefix_maps': dict((v, '\n'.join('%s\t%d' % x for x in sorted(maps[v].items()))) for v in maps),
                            'lists': as_lists}
    events, full = [], {}
    for _ in range(rng.choice([2, 8, 20, 40, 80])):
        f = connection(rng)
        e, c, a = reference(f, countries, maps, as_lists)
        bad = fields.spoil(rng, f, TABLE, MANDATORY) if rng.random() < 0.12 else None
        events.append((f, e, bad, c, a))
        evsim.merge(full, e)
    names = evsim.choose(rng, known, set(n for n, _ in full), [n for n in known if 'Connection' in n],
                         rng.choice([10, 60, 120]), rng.choice([0, 20]))
    values = {}
    for (n, v) in full:
        values.setdefault(n, []).append(v)
    bins = dict((n, evsim.make_bins(rng, n, values.get(n, []), n_lists=max(1, len(as_lists)) if 'ASMatch' in n else len(countries))) for n in names)
    col = evsim.Collector(ctx, bins, extra)
    total = {}
    for f, e, bad, c, a in events:
        items = evsim.tagged(rng, f)
        if bad is None and rng.random() < 0.05:
            bad = fields.spoil_items(rng, items)
        ctx.check(col.event('PRIVCOUNT_CONNECTION_CLOSE', items), 'the event is handled', event=f, bad=bad)
        if bad is None:
            evsim.merge(total, e)
            ctx.count('connections counted')
            if c:
                ctx.count('country matches')
            if a:
                ctx.count('AS matches')
            if ':' in f['RemoteIPAddress']:
                ctx.count('IPv6')
        else:
            ctx.count('malformed connections')
    evsim.compare(ctx, bins, col.stop(), total, 'the counts of the connections',
                  events=[(ev[2], sorted('%s=%s' % x for x in ev[0].items())) for ev in events], countries=countries, as_lists=as_lists, maps=maps)
    ctx.nontrivial(sorted(set(n for n, _ in total) & set(names))[:40], len(events))
    ctx.sample({'event': events[0][0], 'counters': sorted(names)[:8]})
