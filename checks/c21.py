'''C21: the counters of onion service directory stores and fetches.'''
import hashlib
import evsim
import fields
from evsim import SINGLE
from gen import *

ID, LEVEL = 'C21', 'exploration'
RULE = ('random rounds of up to 80 random HSDir cache store and fetch events of both versions (some malformed in one field, or with fields '
        'of the other version) on a random selection of counters and bins, with random reason and onion address lists; distinct by what was touched')
ASSUMPTIONS = ['noise is forced to zero and blinding is subtracted; C03 and C02 cover them']
QUICK = dict(cases=420, seconds=25)
THOROUGH = dict(cases=30000, seconds=1200)
REQUIRE = {'stores counted': 500, 'fetches counted': 500, 'malformed or mixed events': 250, 'bins that changed': 3000,
           'listed addresses': 120, 'listed reasons': 250, 'client authorisation': 150}
MIN_DISTINCT = 30

REASONS = ['added', 'Expired', 'too_old', 'no-match', 'future', 'unparseable', 'Multiple', 'skewed', 'not_yet']
ADDRESSES = ['abcdefghijklmnop', 'qrstuvwxyz234567', 'facebookcorewwwi', 'expyuzz4wqqyqhjn', 'duskgytldkxiuqc6', '3g2upl4pq6kufc4m']

COMMON = {'HiddenServiceVersionNumber': fields.int_between(2, 3), 'EventTimestamp': fields.TIME, 'CacheReasonString': fields.STR50,
          'HasExistingCacheEntryFlag': fields.FLAG}
FOR = {'2': {'IntroPointCount': fields.int_between(0, 10), 'RequiresClientAuthFlag': fields.FLAG, 'DescriptorCreationTime': fields.TIME,
             'DescriptorIdBase32String': ('', 'a' * 31), 'OnionAddress': ('', 'a' * 15, 'a' * 17),
             'EncodedIntroPointByteCount': fields.int_between(0, 40960), 'EncodedDescriptorByteCount': fields.int_between(0, 40960)},
       '3': {'RevisionNumber': fields.NONNEG, 'BlindedEd25519PublicKeyBase64String': ('', 'a' * 42, 'a' * 44),
             'EncodedIntroPointByteCount': fields.int_between(0, 2 ** 20), 'EncodedDescriptorByteCount': fields.int_between(0, 2 ** 20)}}
# a field of the other version
OTHER = {'2': [('RevisionNumber', '5'), ('DescriptorLifetime', '10800'), ('BlindedEd25519PublicKeyBase64String', 'b' * 43)],
         '3': [('IntroPointCount', '3'), ('RequiresClientAuthFlag', '0'), ('DescriptorCreationTime', '1500000000'),
               ('OnionAddress', ADDRESSES[0]), ('SupportedProtocolBitfield', '0xc'), ('IntroPointFingerprintList', 'A' * 40)]}
STORE = {'WasAddedToCacheFlag': fields.FLAG}
FETCH = {'CacheQueryByteCount': fields.NONNEG, 'HasCacheEntryFlag': fields.FLAG}
FETCH_FOR = {'2': {'CacheLastServedTime': fields.NONNEG}, '3': {'CacheCreatedTime': fields.NONNEG}}
FETCH_OTHER = {'2': [('CacheCreatedTime', '1500000000')], '3': [('CacheLastServedTime', '1500000000')]}
MANDATORY = {'STORE': ['HiddenServiceVersionNumber', 'EventTimestamp', 'CacheReasonString', 'WasAddedToCacheFlag'],
             'FETCH': ['HiddenServiceVersionNumber', 'EventTimestamp', 'CacheReasonString', 'CacheQueryByteCount']}

def position(lists, *strings):
    for i, l in enumerate(lists):
        for s in strings:
            if s in [x.lower() for x in l]:
                return float(i)
    return INF

def reference(kind, f, lists):
    e = {}
    v = f['HiddenServiceVersionNumber']
    values = [('Count', SINGLE, 1), ('ReasonCountList', position(lists[kind], f['CacheReasonString'].lower()), 1)]
    for k, name in (('EncodedIntroPointByteCount', 'IntroByte'), ('EncodedDescriptorByteCount', 'DescriptorByte')):
        if k in f:
            values += [(name + 'Count', SINGLE, int(f[k])), (name + 'Histogram', int(f[k]), 1)]
    special = []
    if 'OnionAddress' in f:
        a = f['OnionAddress'].lower()
        special.append(('OnionAddressCountList', position(lists['ONION'], a, hashlib.md5(a + '.onion').hexdigest()), 1))
    if 'IntroPointCount' in f:
        special.append(('IntroPointHistogram', int(f['IntroPointCount']), 1))
    if 'DescriptorCreationTime' in f and kind == 'STORE':
        special.append(('UploadDelayTime', float(f['EventTimestamp']) - float(f['DescriptorCreationTime']), 1))
    if 'RevisionNumber' in f:
        special.append(('RevisionHistogram', int(f['RevisionNumber']), 1))
    auth = f.get('RequiresClientAuthFlag')
    auths = [''] if auth is None else ['', 'ClientAuth' if auth == '1' else 'NoClientAuth']
    if kind == 'STORE':
        added = ['', 'Add' if f['WasAddedToCacheFlag'] == '1' else 'Reject']
        cached = ['', 'Cached' if f.get('HasExistingCacheEntryFlag') == '1' else 'Uncached']
        what = 'Store'
    else:
        added = ['']
        cached = ['', 'Cached' if f.get('HasCacheEntryFlag') == '1' else 'Uncached']
        what = 'Fetch'
    for a in added:
        for c in cached:
            for s, b, n in values:
                evsim.add(e, 'HSDir' + what + a + c + s, b, n)
            for h in auths:
                for s, b, n in values + special:
                    evsim.add(e, 'HSDir' + v + what + a + c + h + s, b, n)
    return e

def event(rng, lists):
    kind, v = rng.choice(['STORE', 'FETCH']), rng.choice('23')
    now = 1.5e9 + rng.choice([0.0, 0.5, 1234.0])
    f = {'HiddenServiceVersionNumber': v, 'EventTimestamp': '%.6f' % now, 'CacheReasonString': rng.choice(REASONS)}
    if rng.random() < 0.2:
        f['CacheReasonString'] = f['CacheReasonString'].upper()
    if rng.random() < 0.7:
        f['HasExistingCacheEntryFlag'] = rng.choice('01')
    big = 40960 if v == '2' else 2 ** 20
    if rng.random() < 0.8:
        f['EncodedDescriptorByteCount'] = str(rng.choice([0, 1, 1500, big, rng.randrange(big)]))
    if rng.random() < 0.7:
        most = int(f.get('EncodedDescriptorByteCount', big))
        f['EncodedIntroPointByteCount'] = str(rng.choice([0, most, rng.randrange(most + 1)]))
    opt = {}
    if v == '2':
        n = rng.choice([0, 1, 3, 6, 10])
        opt = {'IntroPointCount': str(n), 'RequiresClientAuthFlag': rng.choice('01'),
               'DescriptorCreationTime': str(int(now) - rng.choice([0, 3600, 1800, 86400, -3600])), 'DescriptorIdBase32String': 'c' * 32,
               'OnionAddress': rng.choice(ADDRESSES), 'SupportedProtocolBitfield': rng.choice(['0xc', '0xc', '0xd', '0xcc', '']),
               'IntroPointFingerprintList': ','.join(['AB' * 20] * rng.choice([n, n, 1, 11]))}
        if rng.random() < 0.2:
            opt['OnionAddress'] = opt['OnionAddress'].upper()
    else:
        opt = {'RevisionNumber': str(rng.choice([0, 1, 7, 1000, 2 ** 40])), 'DescriptorLifetime': rng.choice(['10800', '10800', '10801', 'x']),
               'BlindedEd25519PublicKeyBase64String': 'b' * 43, 'DescriptorIdBase32String': 'c' * 40}
    if kind == 'STORE':
        f['WasAddedToCacheFlag'] = rng.choice('01')
    else:
        f['CacheQueryByteCount'] = str(rng.choice([0, 100, 10 ** 6]))
        opt['HasCacheEntryFlag'] = rng.choice('01')
        opt['CacheLastServedTime' if v == '2' else 'CacheCreatedTime'] = str(rng.choice([0, 1500000000]))
    for k in opt:
        if rng.random() < 0.65:
            f[k] = opt[k]
    return kind, f

def spoil(rng, kind, f):
    v = f['HiddenServiceVersionNumber']
    if rng.random() < 0.35:
        k, x = rng.choice(OTHER[v] + (FETCH_OTHER[v] if kind == 'FETCH' else []))
        f[k] = x
        return 'a field of the other version: ' + k
    if rng.random() < 0.1 and 'EncodedDescriptorByteCount' in f:
        f['EncodedIntroPointByteCount'] = str(int(f['EncodedDescriptorByteCount']) + 1)
        return 'more in the introduction points than in the descriptor'
    t = dict(COMMON)
    t.update(FOR[v])
    t.update(STORE if kind == 'STORE' else FETCH)
    if kind == 'FETCH':
        t.update(FETCH_FOR[v])
    return fields.spoil(rng, f, t, MANDATORY[kind])

def lists_of(rng, items):
    items = list(items)
    rng.shuffle(items)
    r = [[items.pop()]]
    for _ in range(rng.randrange(3)):
        r.append([items.pop() for _ in range(rng.choice([1, 2]))])
    return r

def family(known):
    return [n for n in known if n.startswith('HSDir') and ('Store' in n or 'Fetch' in n)]

def case(ctx, rng, i):
    known = evsim.known_names()
    lists = {'STORE': lists_of(rng, REASONS), 'FETCH': lists_of(rng, REASONS),
             'ONION': [[hashlib.md5(a + '.onion').hexdigest() if rng.random() < 0.5 else a for a in l]
                       for l in lists_of(rng, ADDRESSES)]}
    events, full = [], {}
    for _ in range(rng.choice([2, 8, 20, 40, 80])):
        kind, f = event(rng, lists)
        e = reference(kind, f, lists)
        bad = spoil(rng, kind, f) if rng.random() < 0.18 else None
        events.append((kind, f, e, bad))
        evsim.merge(full, e)
    names = evsim.choose(rng, known, set(n for n, _ in full), family(known), rng.choice([10, 60, 120]), rng.choice([0, 20]))
    values = {}
    for (n, v) in full:
        values.setdefault(n, []).append(v)
    def n_lists(n):
        return len(lists['ONION' if 'OnionAddress' in n else 'STORE' if 'Store' in n else 'FETCH'])
    bins = dict((n, evsim.make_bins(rng, n, values.get(n, []), n_lists=n_lists(n))) for n in names)
    col = evsim.Collector(ctx, bins, {'hsdir_store_lists': lists['STORE'], 'hsdir_fetch_lists': lists['FETCH'],
                                      'onion_address_lists': lists['ONION']})
    total = {}
    for kind, f, e, bad in events:
        items = evsim.tagged(rng, f)
        if bad is None and rng.random() < 0.05:
            bad = fields.spoil_items(rng, items)
        ctx.check(col.event('PRIVCOUNT_HSDIR_CACHE_' + kind, items), 'the event is handled', event=f, bad=bad)
        if bad is None:
            evsim.merge(total, e)
            ctx.count('stores counted' if kind == 'STORE' else 'fetches counted')
            if ('HSDir2%sOnionAddressCountList' % kind.capitalize(), INF) not in e and 'OnionAddress' in f:
                ctx.count('listed addresses')
            if ('HSDir%sReasonCountList' % kind.capitalize(), INF) not in e:
                ctx.count('listed reasons')
            if f.get('RequiresClientAuthFlag') == '1':
                ctx.count('client authorisation')
        else:
            ctx.count('malformed or mixed events')
    evsim.compare(ctx, bins, col.stop(), total, 'the counts of the stores and fetches',
                  events=[(k, bad, sorted('%s=%s' % x for x in f.items())) for k, f, e, bad in events], lists=lists)
    ctx.nontrivial(sorted(set(n for n, _ in total) & set(names))[:40], len(events))
    ctx.sample({'event': events[0][1], 'counters': sorted(names)[:8]})
