'''C22: per circuit stream counters, and per client circuit counters.'''
import evsim
from evsim import SINGLE
from gen import *
from simenv import reactor, VTime

ID, LEVEL = 'C22', 'exploration'
RULE = ('random histories of streams, circuit closes and rotations of the client address tables: circuit ids that are reused, clients with '
        'several circuits and spellings of their address, circuits that span a rotation; distinct by shape of the history')
ASSUMPTIONS = ['noise is forced to zero and blinding is subtracted; C03 and C02 cover them',
               'no event is within a second of a rotation']
QUICK = dict(cases=800, seconds=25)
THOROUGH = dict(cases=40000, seconds=1200)
REQUIRE = {'exit circuits counted': 200, 'interstream times': 200, 'clients counted': 200, 'rotations': 150, 'reused circuit ids': 20,
           'circuits that span a rotation': 60, 'bins that changed': 1000}
MIN_DISTINCT = 30

PORTS = {'Web': [80, 443], 'Interactive': [22, 194, 6667], 'P2P': [1214, 6881], 'OtherPort': [9001, 25]}
CLIENTS = [('10.0.0.1', '10.0.0.1'), ('10.0.0.2', '10.0.0.2'), ('10.0.0.3', '10.0.0.3'), ('2001:db8::1', '2001:db8::1'),
           ('2001:DB8:0:0::1', '2001:db8::1'), ('2001:db8::2', '2001:db8::2'), (None, '0.0.0.0')]
NAMES = ['ExitCircuitStreamHistogram', 'ExitCircuitInterStreamCreationTime', 'EntryClientIPCount', 'EntryActiveClientIPCount',
         'EntryInactiveClientIPCount', 'EntryClientIPActiveCircuitHistogram', 'EntryClientIPInactiveCircuitHistogram']
for c in PORTS:
    NAMES += ['Exit%sCircuitCount' % c, 'ExitCircuit%sStreamHistogram' % c, 'ExitCircuit%sInterStreamCreationTime' % c]
NEEDED = ['PreviousChannelId', 'PreviousCircuitId', 'InboundExitByteCount', 'OutboundExitByteCount']

class Model(object):
    def __init__(self, now):
        self.total, self.circuits, self.seen = {}, {}, set()
        self.current, self.previous, self.rotated = {}, {}, now
        self.stats = {}

    def note(self, what, n=1):
        self.stats[what] = self.stats.get(what, 0) + n

    def stream(self, chan, circ, kind, start, carried):
        if carried:
            self.circuits.setdefault((chan, circ), []).append((kind, start))

    def gaps(self, name, starts):
        starts = sorted(starts)
        for a, b in zip(starts, starts[1:]):
            evsim.add(self.total, name, b - a, 1)
            self.note('interstream times')

    def exit_circuit(self, chan, circ):
        streams = self.circuits.pop((chan, circ), [])
        if not streams:
            return
        self.note('exit circuits counted')
        if (chan, circ) in self.seen:
            self.note('reused circuit ids')
        self.seen.add((chan, circ))
        evsim.add(self.total, 'ExitCircuitStreamHistogram', len(streams), 1)
        self.gaps('ExitCircuitInterStreamCreationTime', [t for _, t in streams])
        for c in PORTS:
            starts = [t for k, t in streams if k == c]
            if starts:
                evsim.add(self.total, 'Exit%sCircuitCount' % c, SINGLE, 1)
                evsim.add(self.total, 'ExitCircuit%sStreamHistogram' % c, len(starts), 1)
                self.gaps('ExitCircuit%sInterStreamCreationTime' % c, starts)

    def entry_circuit(self, client, active, created):
        c = self.current.setdefault(client, [0, 0, False])
        c[0 if active else 1] += 1
        c[2] = c[2] or active
        if created < self.rotated:
            # the client was connected in the previous window too
            self.note('circuits that span a rotation')
            p = self.previous.setdefault(client, [0, 0, False])
            p[2] = p[2] or active

    def rotate(self, now):
        self.note('rotations')
        for c in self.previous.values():
            self.note('clients counted')
            evsim.add(self.total, 'EntryClientIPCount', SINGLE, 1)
            evsim.add(self.total, 'Entry%sClientIPCount' % ('Active' if c[2] else 'Inactive'), SINGLE, 1)
            evsim.add(self.total, 'EntryClientIPActiveCircuitHistogram', c[0], 1)
            evsim.add(self.total, 'EntryClientIPInactiveCircuitHistogram', c[1], 1)
        self.previous, self.current, self.rotated = self.current, {}, now

def case(ctx, rng, i):
    period = rng.choice([60, 600, 600, 120])
    names = [n for n in NAMES if rng.random() < 0.8] or NAMES
    bins = {}
    for n in names:
        if n.endswith('Count'):
            bins[n] = [[0.0, INF]]
        elif 'Time' in n:
            bins[n] = evsim.make_bins(rng, n, [0.0, 0.25, 1.0, 2.75, 60.0, 600.0])
        else:
            bins[n] = evsim.make_bins(rng, n, [0, 1, 2, 3, 5])
    col = evsim.Collector(ctx, bins, rotate=period)
    start = VTime.now - 0.25        # (the round starts within the half second before)
    m = Model(start)
    rotations, log = 0, []
    for _ in range(rng.choice([5, 20, 60, 120])):
        k = rng.random()
        if k < 0.25:
            # not within a second of a rotation
            to = VTime.now + rng.choice([0.0, 1.0, 10.0, period / 3.0, period * 0.9])
            off = (to - start) % period
            if off < 1:
                to += 1
            elif off > period - 1:
                to += 2
            reactor.advance(to - VTime.now)
            while start + (rotations + 1) * period < VTime.now:
                rotations += 1
                m.rotate(start + rotations * period)
            log.append(('time', VTime.now - start))
        elif k < 0.6:
            kind = rng.choice(sorted(PORTS))
            begin = 1.5e9 + rng.choice([0.0, 0.25, 1.0, 3.75, 60.0, rng.randrange(0, 4000) / 4.0])
            chan, circ = rng.randrange(3), rng.randrange(3)
            read, write = rng.choice([(0, 0), (10, 0), (0, 5), (100, 100), (100, 100), (-1, 5), (3, 900), (3, 900)])
            ctx.check(col.event('PRIVCOUNT_STREAM_ENDED', [str(x) for x in (
                chan, circ, rng.randrange(9), rng.choice(PORTS[kind]), read, write)] + ['%.6f' % begin, '%.6f' % (begin + 1), 'example.com',
                                                                                      '10.9.9.9', str(rng.randrange(1, 4))]),
                      'the stream is handled')
            m.stream(chan, circ, kind, begin, read >= 0 and write >= 0 and read + write > 0)
            log.append(('stream', chan, circ, kind, begin, read, write))
        else:
            entry, exit = rng.choice([(True, False), (True, False), (False, True), (False, True), (False, False), (True, True)])
            chan, circ = rng.randrange(3), rng.randrange(3)
            spelling, client = rng.choice(CLIENTS)
            created = VTime.now - rng.choice([0.5, 10.0, period / 2.0, period * 1.5, period * 3.0])
            if abs(created - m.rotated) < 1:
                created -= 2
            cells = [rng.choice([0, 1, 3, 4, 5, 8, 100]) for _ in range(2)]
            f = {'EventTimestamp': '%.6f' % VTime.now, 'CreatedTimestamp': '%.6f' % created, 'IsLegacyCircuitEndEventFlag': '1',
                 'StateString': 'open', 'PurposeCode': '5', 'PreviousChannelId': str(chan), 'PreviousCircuitId': str(circ),
                 'InboundExitByteCount': '498', 'OutboundExitByteCount': '0'}
            f[rng.choice(['InboundSentCellCount', 'InboundReceivedCellCount', 'InboundExitCellCount'])] = str(cells[0])
            f[rng.choice(['OutboundSentCellCount', 'OutboundReceivedCellCount', 'OutboundExitCellCount'])] = str(cells[1])
            if spelling:
                f['PreviousNodeIPAddress'] = spelling
            for on, name in ((entry, 'IsEntryFlag'), (exit, 'IsExitFlag')):
                if on or rng.random() < 0.5:
                    f[name] = '1' if on else '0'
            counted = True
            if rng.random() < 0.08:
                counted = False
                del f[rng.choice(NEEDED)]
            elif rng.random() < 0.08:
                counted = False
                f['IsLegacyCircuitEndEventFlag'] = '0'
            elif rng.random() < 0.05:
                counted = False
                f['PreviousNodeIPAddress'] = 'x'
            elif rng.random() < 0.06:
                # used for something else than an exit
                f['Is%sFlag' % rng.choice(['Dir', 'HSDir', 'Intro', 'Rend'])] = '1'
                exit = False
            ctx.check(col.event('PRIVCOUNT_CIRCUIT_CLOSE', evsim.tagged(rng, f)), 'the circuit is handled')
            if counted and entry:
                m.entry_circuit(client, sum(cells) >= 8, created)
            elif counted and exit:
                m.exit_circuit(chan, circ)
            log.append(('circuit', entry, exit, counted, chan, circ, client, cells, created - start))
    evsim.compare(ctx, bins, col.stop(), m.total, 'the counts of circuits and clients', history=log, period=period)
    for k in m.stats:
        ctx.count(k, m.stats[k])
    ctx.nontrivial([x[0] + str(x[1:3]) if x[0] == 'circuit' else x[0] for x in log][:40])
    ctx.sample({'history': log[:6], 'period': period})
