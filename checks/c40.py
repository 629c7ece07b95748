'''C40: event logs that are replayed to a data collector.'''
import argparse
import hashlib
import os

import c18
import c19
import c20
import c21
import evsim
from gen import *
from simenv import VTime, net, reactor
from privcount import inject

ID, LEVEL = 'C40', 'exploration'
RULE = ('random event logs (streams, circuits, connections, onion service descriptors, and events that nothing counts), replayed by the real '
        'injector, paused or not, over TCP or unix sockets, with a password, a cookie or neither, to a real data collector with a random '
        'selection of counters; one or two logs in a round, and rounds that end before the log does; distinct by counters and way of replay')
ASSUMPTIONS = ['noise is forced to zero and blinding is subtracted; C03 and C02 cover them',
               'events are well formed, and no counter depends on the times between events; the edges of bins of durations are not exact']
QUICK = dict(cases=300, seconds=22)
THOROUGH = dict(cases=20000, seconds=1200)
REQUIRE = {'events replayed': 1000, 'complete logs': 40, 'rounds cut short': 10, 'second logs': 10, 'replays with pauses': 20,
           'bins that changed': 2000, 'with a password': 10, 'with a cookie': 10, 'over a unix socket': 10, 'statuses compared': 20}
MIN_DISTINCT = 25

class Node(object):
    dead = False
    ended = False

def secret(rng, n):
    return ''.join(rng.choice('abcdefghijklmnopqrstuvwxyz0123456789') for _ in range(n))

def shift(rng, start, end, t):
    'the event ends at t'
    d = float(end) - float(start)
    return '%.6f' % (t - d), '%.6f' % t

def events_of(rng, lists, t):
    'a log: (line, what it counts)'
    out = []
    for _ in range(rng.choice([1, 3, 10, 25, 50])):
        t += rng.choice([0.0, 0.001, 0.25, rng.random(), 3.0])
        kind = rng.choice(lists['kinds'])
        e = {}
        if kind == 'stream':
            s = c18.a_stream(rng, lists['domains'], t)
            if s['host'] == '' or s['ip'] == '':
                continue
            s['start'], s['end'] = [float(x) for x in shift(rng, s['start'], s['end'], t)]
            e = c18.reference(s, lists['domains'], True, True)
            items = ['PRIVCOUNT_STREAM_ENDED'] + c18.wire(s)
        elif kind == 'connection':
            f = c20.connection(rng)
            e = c20.reference(f, lists['countries'], None, [])[0]
            f['CreatedTimestamp'], f['EventTimestamp'] = shift(rng, f['CreatedTimestamp'], f['EventTimestamp'], t)
            items = ['PRIVCOUNT_CONNECTION_CLOSE'] + ['%s=%s' % x for x in f.items()]
        elif kind == 'circuit':
            f = c19.circuit(rng)
            e = c19.reference(f, lists['failures'])
            f['CreatedTimestamp'], f['EventTimestamp'] = shift(rng, f['CreatedTimestamp'], f['EventTimestamp'], t)
            items = ['PRIVCOUNT_CIRCUIT_CLOSE'] + ['%s=%s' % x for x in f.items()]
        elif kind == 'hsdir':
            which, f = c21.event(rng, lists['hsdir'])
            f.pop('DescriptorCreationTime', None)
            e = c21.reference(which, f, lists['hsdir'])
            f['EventTimestamp'] = '%.6f' % t
            items = ['PRIVCOUNT_HSDIR_CACHE_' + which] + ['%s=%s' % x for x in f.items()]
        elif kind == 'bytes':
            items = ['PRIVCOUNT_STREAM_BYTES_TRANSFERRED'] + [str(rng.randrange(1000)) for _ in range(5)] + ['%.6f' % t]
        elif kind == 'cell':
            f = c19.cell(rng)
            f['EventTimestamp'] = '%.6f' % t
            items = ['PRIVCOUNT_CIRCUIT_CELL'] + ['%s=%s' % x for x in f.items()]
        else:
            items = rng.choice([['PRIVCOUNT_CIRCUIT_ENDED'] + ['1'] * 6 + ['%.6f' % t] * 2 + ['192.0.2.7', '0', '192.0.2.8', '1'],
                                ['PRIVCOUNT_CONNECTION_ENDED', '1', '%.6f' % t, '%.6f' % t, '192.0.2.7', '0']])
        out.append((' '.join(items), e))
        if rng.random() < 0.05:
            out.append((rng.choice(['', '  ']), None))
    return out

def start_injector(ctx, rng, log, d, k, how, method):
    path = os.path.join(d, 'events%d' % k)
    f = open(path, 'w')
    f.write('\n'.join(l for l, e in log) + '\n')
    f.close()
    argv = ['--log', path] + (['--unix', how] if how.startswith('/') else ['--port', '20003'] + ([] if how == 'both' else ['--ip', how]))
    if method.get('password'):
        argv += ['--control-password', method['password']]
    if method.get('cookie'):
        argv += ['--control-cookie-file', method['cookie']]
    if method['pause']:
        argv.append('--simulate')
    ap = argparse.ArgumentParser()
    inject.add_inject_args(ap)
    node = Node()
    net.call(node, inject.run_inject, ap.parse_args(argv))
    return node, argv

def ended(node):
    return node.ended or any(x is node for x, _ in net.exits)

def case(ctx, rng, i):
    net.rng = rng
    def stop():
        if isinstance(net.current, Node):
            net.current.ended = True
    real_stop, reactor.stop = reactor.stop, stop
    try:
        replay(ctx, rng)
    finally:
        reactor.stop = real_stop

def replay(ctx, rng):
    net.max_latency, net.fragment = rng.choice([0.0, 0.0, 0.05]), rng.random() < 0.3
    d = ctx.scratch()
    kinds = rng.choice([['stream'], ['connection'], ['circuit'], ['hsdir'], ['stream', 'connection'], ['stream', 'connection', 'circuit', 'hsdir']])
    lists = {'kinds': kinds * 3 + ['bytes', 'cell', 'ended'], 'domains': c18.domains(rng), 'countries': c20.lists_of(rng, c20.COUNTRIES),
             'failures': [['truncated', 'destroyed'], ['timeout']],
             'hsdir': {'STORE': c21.lists_of(rng, c21.REASONS), 'FETCH': c21.lists_of(rng, c21.REASONS),
                       'ONION': [[hashlib.md5(a + '.onion').hexdigest() for a in l] for l in c21.lists_of(rng, c21.ADDRESSES)]}}
    logs = [events_of(rng, lists, 1.5e9 + rng.random() * 1000) for _ in range(rng.choice([1, 1, 2]))]
    full = {}
    for log in logs:
        for line, e in log:
            evsim.merge(full, e or {})
    known = evsim.known_names()
    names = evsim.choose(rng, known, set(n for n, _ in full), [n for n in known if n.startswith(('Exit', 'HSDir2', 'Entry', 'Mid'))],
                         rng.choice([10, 40, 80]), rng.choice([0, 10]))
    # (those need lists of AS numbers, or two lists at once)
    names = [n for n in names if 'ASMatch' not in n and 'ASNoMatch' not in n and 'TrafficModel' not in n and 'Suffix' not in n]
    if not [n for n in names if n != 'ZeroCount']:
        # (without counters, no events are asked for)
        names = ['ExitStreamCount']
    values = {}
    for (n, v) in full:
        values.setdefault(n, []).append(v)
    bins = {}
    for n in names:
        size = len(lists['domains'] if 'Domain' in n else lists['countries'] if 'Country' in n else lists['failures'] if 'Circuit' in n else
                   lists['hsdir']['ONION' if 'OnionAddress' in n else 'STORE' if 'Store' in n else 'FETCH'])
        bins[n] = evsim.make_bins(rng, n, values.get(n, []), n_lists=size)
        if n.endswith('Time'):
            # (the injector keeps durations to a microsecond)
            bins[n] = [[x + 0.0625 if abs(x) < 1e18 else x for x in b] for b in bins[n]]
    extra = {'domain_lists': lists['domains'], 'country_lists': lists['countries'], 'circuit_failure_lists': lists['failures'],
             'hsdir_store_lists': lists['hsdir']['STORE'], 'hsdir_fetch_lists': lists['hsdir']['FETCH'],
             'onion_address_lists': lists['hsdir']['ONION']}
    # how they connect
    how = rng.choice(['both', 'both', '127.0.0.1', '::1', os.path.join(d, 'socket')])
    source = {'unix': how} if how.startswith('/') else {'port': 20003, 'ip': '127.0.0.1' if how == 'both' else how}
    method = {'pause': rng.random() < 0.4}
    use = rng.choice(['none', 'password', 'cookie', 'both'])
    if use in ('password', 'both'):
        method['password'] = os.path.join(d, 'password')
        f = open(method['password'], 'w')
        f.write(secret(rng, rng.randrange(16, 50)))
        f.close()
    if use in ('password', 'both') or rng.random() < 0.2:
        # (a relay that does not need the password may be used with one)
        source['control_password'] = os.path.join(d, 'dc-password')
        f = open(source['control_password'], 'w')
        f.write(open(method['password']).read() if 'password' in method else secret(rng, 20))
        f.close()
    if use in ('cookie', 'both'):
        method['cookie'] = os.path.join(d, 'cookie')
    early = rng.random() < 0.5
    received = [[]]
    def connected(conn):
        if not isinstance(conn.proto['s'].factory, inject.PrivCountDataInjector):
            return
        proto = conn.proto['c']
        old = proto.lineReceived
        def tapped(line):
            if line.startswith('650 '):
                received[-1].append((VTime.now, line))
            return old(line)
        proto.lineReceived = tapped
    net.on_connect = connected

    node = argv = None
    if early:
        node, argv = start_injector(ctx, rng, logs[0], d, 0, how, method)
    conf = {'use_setconf': rng.random() < 0.5}
    col = evsim.Collector(ctx, bins, extra, fingerprint=False, conf=conf, source=source)
    if how.startswith('/') and 'ip' in source:
        del source['ip']
    total, replayed, cut = {}, [], False
    witness = dict(argv=argv, source=source, method=method)
    for k, log in enumerate(logs):
        if k > 0:
            received.append([])
        if node is None:
            reactor.advance(rng.choice([0.0, 1.0, 60.0]))
            node, argv = start_injector(ctx, rng, log, d, k, how, method)
        witness['argv'] = argv
        lines = [(l, e) for l, e in log if e is not None]
        if k == len(logs) - 1 and method['pause'] and rng.random() < 0.5:
            # the round ends before the log does
            reactor.advance(20.0 + rng.random() * 60.0)
            cut = True
        else:
            # (the data collector may wait for more than an hour before it connects again)
            for _ in range(200):
                reactor.advance(60.0)
                if ended(node):
                    break
        got = received[-1]
        if cut:
            ctx.check(len(got) <= len(lines), 'no more events than in the log', events=got, **witness)
            ctx.count('rounds cut short')
        else:
            ctx.eq(len(got), len(lines), 'every event of the log arrives', events=got, log=[l for l, e in log], **witness)
            ctx.check(ended(node), 'the injector ends', **witness)
            ctx.count('complete logs')
        for (t, line), (l, e) in zip(got, lines):
            ctx.eq(line.split(' ')[1], l.split(' ')[0], 'the events arrive in order', log=[x for x, _ in log], **witness)
            evsim.merge(total, e)
        ctx.count('events replayed', len(got))
        if k > 0:
            ctx.count('second logs')
        if method['pause']:
            ctx.count('replays with pauses')
        replayed += got
        node = None
    if 'password' in method:
        ctx.count('with a password')
    if 'cookie' in method:
        ctx.count('with a cookie')
    if how.startswith('/'):
        ctx.count('over a unix socket')
    if replayed:
        st = col.dc.get_status()
        want = {'fingerprint': 'FACADE0000000000000000000123456789ABCDEF', 'nickname': 'PrivCountTorRelay99', 'address': '192.0.2.91',
                'orport': '9001, [::1]:12345', 'dirport': '9030'}
        got = dict((x, st.get(x)) for x in want)
        got['orport'] = ', '.join(sorted((got['orport'] or '').split(', ')))
        ctx.eq(got, want, 'the status describes the emulated relay', **witness)
        ctx.count('statuses compared')
    evsim.compare(ctx, bins, col.stop(), total, 'the counts of the replayed events', events=[l for t, l in replayed],
                  logs=[[l for l, e in log] for log in logs], **witness)
    ctx.nontrivial(sorted(bins)[:10], how[:1], use, method['pause'], cut, len(logs), len(replayed))
    ctx.sample({'argv': argv, 'log': [l for l, e in logs[0]][:4], 'counters': sorted(names)[:8]})
