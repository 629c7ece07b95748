'''C36: every counter, collected on its own, gets the events that change it.'''
import zlib

import c18, c19, c20, c21
import evsim
import torsim
from evsim import SINGLE
from gen import *
from simenv import VTime, net, reactor
from privcount import counter
from privcount.match import suffix_match_prepare_collection

ID, LEVEL = 'C36', 'exploration'
RULE = ('one round for each of some counters that random events of all kinds change, with a relay that only sends the events it is asked '
        'for; and rounds of random groups of counters; counters that have not had a round yet come first; distinct by counter and events')
ASSUMPTIONS = ['the relay is a simulation that answers as the control port specification says',
               'noise is forced to zero and blinding is subtracted; C03 and C02 cover them']
QUICK = dict(cases=120, seconds=35)
THOROUGH = dict(cases=20000, seconds=1200)
REQUIRE = {'rounds': 400, 'counters that had a round': 300, 'events delivered': 1500, 'events not asked for': 1500, 'bins that changed': 500,
           'groups': 30, 'counters looked up': 2000}
MIN_DISTINCT = 100

STREAM, CIRCUIT, CONNECTION = 'PRIVCOUNT_STREAM_ENDED', 'PRIVCOUNT_CIRCUIT_CLOSE', 'PRIVCOUNT_CONNECTION_CLOSE'
HSDIR = 'PRIVCOUNT_HSDIR_CACHE_'
DONE = {}

def exit_circuit(rng, n):
    'streams of one class on a circuit, and the end of the circuit: [(code, items, effect)]'
    port, kind = rng.choice([(80, 'Web'), (22, 'Interactive'), (6881, 'P2P'), (9001, 'OtherPort')])
    chan, circ, k, t = 10 ** 6 + n, rng.randrange(99), rng.randrange(2, 5), 1.5e9
    out = []
    for j in range(k):
        items = [str(chan), str(circ), str(j), str(port), '10', '10', '%.6f' % (t + 10.0 * j), '%.6f' % (t + 100), 'example.com', '10.0.0.1', '2']
        out.append((STREAM, items, None))
    f = {'EventTimestamp': '%.6f' % (t + 200), 'CreatedTimestamp': '%.6f' % t, 'IsLegacyCircuitEndEventFlag': '1', 'StateString': 'open',
         'PurposeCode': '5', 'PreviousChannelId': str(chan), 'PreviousCircuitId': str(circ), 'InboundExitByteCount': '498',
         'OutboundExitByteCount': '0', 'IsExitFlag': '1', 'InboundExitCellCount': '1', 'OutboundExitCellCount': '1'}
    e = {}
    for s in ('', kind):
        evsim.add(e, 'ExitCircuit%sStreamHistogram' % s, k, 1)
        for _ in range(k - 1):
            evsim.add(e, 'ExitCircuit%sInterStreamCreationTime' % s, 10.0, 1)
    evsim.add(e, 'Exit%sCircuitCount' % kind, SINGLE, 1)
    out.append((CIRCUIT, f, e))
    return out

def entry_circuit(rng, n):
    active = rng.random() < 0.5
    f = {'EventTimestamp': '%.6f' % (VTime.now + 1e6 + 200), 'CreatedTimestamp': '%.6f' % (VTime.now + 1e6), 'IsLegacyCircuitEndEventFlag': '1', 'StateString': 'open',
         'PurposeCode': '5', 'PreviousChannelId': str(n), 'PreviousCircuitId': str(n), 'PreviousNodeIPAddress': '10.7.%d.%d' % (n // 250, n % 250),
         'InboundExitByteCount': '0', 'OutboundExitByteCount': '0', 'IsEntryFlag': '1', 'InboundSentCellCount': '9' if active else '0'}
    e = {}
    evsim.add(e, 'EntryClientIPCount', SINGLE, 1)
    evsim.add(e, 'Entry%sClientIPCount' % ('Active' if active else 'Inactive'), SINGLE, 1)
    evsim.add(e, 'EntryClientIPActiveCircuitHistogram', int(active), 1)
    evsim.add(e, 'EntryClientIPInactiveCircuitHistogram', int(not active), 1)
    return [(CIRCUIT, f, e)]

def events_of(rng):
    'random events [(code, items, effect)], and the lists that the effects are for'
    domains = c18.domains(rng)
    countries = c20.lists_of(rng, c20.COUNTRIES)
    numbers = [64500 + k for k in range(8)]
    as_lists = c20.lists_of(rng, numbers)
    maps = dict((v, dict((p, rng.choice(numbers)) for p in c20.PREFIXES[v])) for v in '46')
    pool = list(c19.FAILURES)
    rng.shuffle(pool)
    failures = [[s.lower() for s in pool[:2]], [s.lower() for s in pool[2:3]]][:rng.randrange(1, 3)]
    hsdir = {'STORE': c21.lists_of(rng, c21.REASONS), 'FETCH': c21.lists_of(rng, c21.REASONS), 'ONION': c21.lists_of(rng, c21.ADDRESSES)}
    tree = {}
    for j, l in enumerate(domains):
        tree, _ = suffix_match_prepare_collection(l, separator='.', existing_suffixes=tree, collection_tag=j)
    extra = {'domain_lists': domains, 'domain_suffixes': tree, 'country_lists': countries, 'circuit_failure_lists': failures,
             'hsdir_store_lists': hsdir['STORE'], 'hsdir_fetch_lists': hsdir['FETCH'], 'onion_address_lists': hsdir['ONION'],
             'as_data': {'prefix_maps': dict((v, '\n'.join('%s\t%d' % x for x in sorted(maps[v].items()))) for v in maps), 'lists': as_lists}}
    def n_lists(name):
        return len(domains if 'Domain' in name else as_lists if 'ASMatch' in name else countries if 'Country' in name else
                   failures if 'Circuit' in name else hsdir['ONION' if 'OnionAddress' in name else 'STORE' if 'Store' in name else 'FETCH'])
    out = []
    for n in range(rng.choice([1, 3])):
        out += exit_circuit(rng, n)
        out += entry_circuit(rng, n)
    for _ in range(rng.choice([2, 6])):
        s = c18.a_stream(rng, domains, 1.5e9)
        if rng.random() < 0.3:
            s['port'], s['number'], s['host'] = rng.choice([80, 443]), 1, c18.a_host(rng, domains)
        # (the counters of exit circuits are left to the events above)
        s['chan'] = 5
        out.append((STREAM, c18.wire(s), s))
        f = c19.circuit(rng)
        if f.get('IsLegacyCircuitEndEventFlag') == '1':
            f['IsLegacyCircuitEndEventFlag'] = '0'
        out.append((CIRCUIT, f, c19.reference(f, failures)))
        f = c20.connection(rng)
        out.append((CONNECTION, evsim.tagged(rng, f), c20.reference(f, countries, maps, as_lists)[0]))
        kind, f = c21.event(rng, hsdir)
        out.append((HSDIR + kind, evsim.tagged(rng, f), c21.reference(kind, f, hsdir)))
    for k, (code, items, e) in enumerate(out):
        if code == CIRCUIT:
            full = c19.reference(items, failures)
            if e is not full and items.get('IsLegacyCircuitEndEventFlag') == '1':
                evsim.merge(full, e)
            out[k] = (code, evsim.tagged(rng, items), full)
    return out, extra, n_lists, domains

def effect(code, items, e, domains, exact, suffix):
    if code != STREAM:
        return e
    if e is None:
        e = {'chan': 1, 'circ': 1, 'stream': 1, 'port': int(items[3]), 'read': int(items[4]), 'write': int(items[5]), 'start': float(items[6]),
             'end': float(items[7]), 'host': items[8], 'ip': items[9], 'number': int(items[10])}
    return c18.reference(e, domains, exact, suffix)

def a_round(ctx, rng, relay, names, events, extra, n_lists, domains, allowed):
    exact = any('DomainExactMatch' in n or 'DomainNoExactMatch' in n for n in names)
    suffix = any('DomainSuffixMatch' in n or 'DomainNoSuffixMatch' in n for n in names)
    total = {}
    for code, items, e in events:
        evsim.merge(total, effect(code, items, e, domains, exact, suffix))
    values = {}
    for n, v in total:
        if n in names:
            values.setdefault(n, []).append(v)
    bins = dict((n, evsim.make_bins(rng, n, values.get(n, []), n_lists=n_lists(n) if evsim.is_list(n) else None)) for n in names)
    # (clients are counted twice a period after they were last seen)
    col = evsim.Collector(ctx, bins, extra, fingerprint=False, conf={'use_setconf': True}, rotate=60)
    reactor.advance(5.0)
    s = relay.live()
    ctx.check(s and s[0].authenticated, 'the data collector is connected', names=names)
    asked = set(s[0].events) if s else set()
    for code, items, e in events:
        n = relay.emit(code, items)
        ctx.count('events delivered' if n else 'events not asked for')
    reactor.advance(150.0)
    r = col.dc.do_stop({'send_counters': True}) or {}
    reactor.advance(5.0)
    ctx.check('Counts' in r, 'the counts are reported', names=names)
    evsim.compare(ctx, bins, col.unblind(r['Counts']), total, 'the counts of these counters alone', names=sorted(names), asked=sorted(asked))
    ctx.check(asked <= allowed, 'only events that can change these counters are asked for', names=sorted(names), asked=sorted(asked),
              allowed=sorted(allowed))
    relay.sessions = []
    ctx.count('rounds')
    return asked

def needs(name):
    'what can change a counter, by its name'
    if 'TrafficModel' in name:
        return set(['PRIVCOUNT_VITERBI_' + ('STREAMS' if name.startswith('ExitCircuit') else 'PACKETS')])
    if name == 'ZeroCount':
        return set()
    if name.startswith('HSDir'):
        return set([HSDIR + ('STORE' if 'Store' in name else 'FETCH')]) if 'Store' in name or 'Fetch' in name else set([CIRCUIT])
    if 'Connection' in name:
        return set([CONNECTION])
    for k in ('', 'Web', 'Interactive', 'P2P', 'OtherPort'):
        if name in ('ExitCircuit%sStreamHistogram' % k, 'ExitCircuit%sInterStreamCreationTime' % k) or (k and name == 'Exit%sCircuitCount' % k):
            return set([STREAM, CIRCUIT])
    if 'Circuit' in name or 'ClientIP' in name:
        return set([CIRCUIT])
    return set([STREAM])

def case(ctx, rng, i):
    known = evsim.known_names()
    net.rng, net.max_latency, net.fragment = rng, 0.0, False
    # all counters, as the data collector looks them up
    lookup = getattr(counter, 'get_events_for_counters', None)
    if lookup is not None:
        for n in sorted(known):
            if zlib.crc32(n) % 60 == i % 60:
                ctx.eq(sorted(lookup([n])), sorted(needs(n)), 'the events a counter needs', name=n)
                ctx.count('counters looked up')
    relay = torsim.Relay(rng, fingerprint=rand_fp(rng))
    relay.listen()
    events, extra, n_lists, domains = events_of(rng)
    touched = set()
    for code, items, e in events:
        for exact, suffix in ((True, True), (True, False), (False, True)):
            touched.update(n for n, _ in effect(code, items, e, domains, exact, suffix))
    touched = sorted(n for n in touched if n in known)
    rng.shuffle(touched)
    touched.sort(key=lambda n: (DONE.get(n, 0), (zlib.crc32(n) - i) % 8 != 0))
    alone = touched[:10]
    for n in alone:
        if n not in DONE:
            ctx.count('counters that had a round')
        DONE[n] = DONE.get(n, 0) + 1
        asked = a_round(ctx, rng, relay, [n], events, extra, n_lists, domains, needs(n))
        ctx.nontrivial(n, sorted(asked))
    group = rng.sample(touched, min(len(touched), rng.choice([2, 3, 5, 30]))) + ['ZeroCount']
    a_round(ctx, rng, relay, group, events, extra, n_lists, domains, set().union(*[needs(n) for n in group]))
    ctx.count('groups')
    ctx.sample({'counters': alone[:5], 'events': [(c, items) for c, items, _ in events[:2]]})
