'''C19: the counters of closed circuits.'''
import math
import sys
import evsim
import fields
from evsim import SINGLE
from gen import *

ID, LEVEL = 'C19', 'exploration'
RULE = ('random rounds of up to 80 random circuit close events (positions, hidden service roles and versions, cells, failures, times; '
        'some malformed in one field) and cells, which count nothing, on a random selection of counters and bins; distinct by what was touched')
ASSUMPTIONS = ['noise is forced to zero and blinding is subtracted; C03 and C02 cover them']
QUICK = dict(cases=560, seconds=25)
THOROUGH = dict(cases=30000, seconds=1200)
REQUIRE = {'circuits counted': 400, 'malformed circuits': 60, 'bins that changed': 1500, 'onion service circuits': 150,
           'failures': 100, 'versioned roles': 40, 'cells': 100}
MIN_DISTINCT = 30
FAILURES = ['TRUNCATED', 'DESTROYED', 'TIMEOUT', 'no_route', 'Requested', 'other-reason', 'NOPATH']

COMMON = {'NextChannelId': fields.NONNEG, 'NextCircuitId': fields.NONNEG, 'PreviousChannelId': fields.NONNEG,
          'PreviousCircuitId': fields.NONNEG, 'OnionHandshakeType': fields.int_between(0, 2),
          'HiddenServiceVersionNumber': fields.int_between(2, 3), 'FailureReasonString': fields.STR50,
          'ExitStreamCount': fields.int_between(1, None)}
for f in ('IsOriginFlag', 'IsEntryFlag', 'IsMidFlag', 'IsEndFlag', 'IsExitFlag', 'IsDirFlag', 'IsHSDirFlag', 'IsIntroFlag',
          'IsClientIntroLegacyFlag', 'IsRendFlag', 'IsHSClientSideFlag', 'IsMarkedForCloseFlag', 'HasReceivedCreateCellFlag'):
    COMMON[f] = fields.FLAG
MANDATORY = ['EventTimestamp', 'CreatedTimestamp', 'IsLegacyCircuitEndEventFlag', 'StateString', 'PurposeCode']
TABLE = dict(COMMON)
for pre in ('IntroClientSink', 'RendSplice'):
    for f in COMMON:
        TABLE[pre + f] = COMMON[f]
TABLE.update({'EventTimestamp': fields.TIME, 'CreatedTimestamp': fields.TIME, 'IsLegacyCircuitEndEventFlag': fields.FLAG,
              'StateString': fields.STR50, 'PurposeCode': fields.int_between(1, 20), 'PurposeString': fields.STR50,
              'HSStateString': fields.STR50})
for pre in ('Previous', 'Next'):
    TABLE[pre + 'NodeIPAddress'] = fields.IP
    TABLE[pre + 'NodeFingerprint'] = ('A' * 39, 'A' * 41, '')
    TABLE[pre + 'NodeRelayFlagList'] = ('', ','.join(['a'] * 21))
CELLS = ['InboundSentCellCount', 'InboundReceivedCellCount', 'OutboundSentCellCount', 'OutboundReceivedCellCount',
         'InboundExitCellCount', 'OutboundExitCellCount']
for f in CELLS + ['InboundExitByteCount', 'OutboundExitByteCount', 'InboundDirByteCount', 'OutboundDirByteCount']:
    TABLE[f] = fields.NONNEG

def ratio(down, up):
    if down == 0 and up == 0:
        return 0.0
    if down == 0:
        return float(sys.float_info.max_exp)
    if up == 0:
        return float(sys.float_info.min_exp)
    return math.log(up / float(down)) / math.log(2)

def on(f, name):
    return f.get(name) == '1'

def reference(f, failures):
    e = {}
    inner = any(on(f, 'Is%sFlag' % k) for k in ('Dir', 'HSDir', 'Intro', 'Rend'))
    is_exit = on(f, 'IsExitFlag') and not inner
    version = f.get('HiddenServiceVersionNumber')
    role = None
    if 'IsHSClientSideFlag' in f:
        role = 'Client' if on(f, 'IsHSClientSideFlag') else 'Service'
    down = max([0] + [int(f[k]) for k in CELLS if k.startswith('In') and k in f])
    up = max([0] + [int(f[k]) for k in CELLS if k.startswith('Out') and k in f])
    active = down + up >= 8
    if is_exit or on(f, 'IsDirFlag') or on(f, 'IsHSDirFlag'):
        active = True
    if (on(f, 'IsIntroFlag') or on(f, 'IsRendFlag')) and version is None:
        active = False
    reason = f.get('FailureReasonString')
    states = [('', ''), ('', 'Failure' if reason is not None else 'Success')]
    activity = 'Active' if active else 'Inactive'

    # the names of the positions: always active ones have no activity in their names
    plain, always = [], []
    for k in ('Origin', 'Entry', 'Mid', 'End'):
        if on(f, 'Is%sFlag' % k):
            plain.append(k)
    single = on(f, 'IsEntryFlag') and on(f, 'IsEndFlag')
    if single:
        plain.append('SingleHop')
    if is_exit:
        always.append('Exit')
    if on(f, 'IsDirFlag'):
        always.append('Dir')
    position = 'HSDir' if on(f, 'IsHSDirFlag') else 'Intro' if on(f, 'IsIntroFlag') else 'Rend' if on(f, 'IsRendFlag') else None
    if position is not None:
        roles = ['']
        if role is not None:
            hop = {'Client': 'Tor2Web', 'Service': 'SingleOnion'}[role] if single else 'MultiHop'
            roles += [role, hop + role]
        for v in ('', version or 'U'):
            for r in roles:
                (always if position == 'HSDir' else plain).append(position + v + r)

    values = [('Count', SINGLE, 1), ('InboundCellCount', SINGLE, down), ('OutboundCellCount', SINGLE, up),
              ('InboundCellHistogram', down, 1), ('OutboundCellHistogram', up, 1),
              ('LifeTime', float(f['EventTimestamp']) - float(f['CreatedTimestamp']), 1)]
    if active:
        values.append(('CellRatio', ratio(down, up), 1))
    if reason is not None:
        hit = [i for i, l in enumerate(failures) if reason.lower() in l]
        values.append(('ReasonCountList', float(hit[0]) if hit else INF, 1))
    for names, acts in ((plain, ['', activity]), (always, [''])):
        for n in names:
            for a in acts:
                for s in ('', 'Failure' if reason is not None else 'Success'):
                    for suffix, v, inc in values:
                        evsim.add(e, '%s%s%sCircuit%s' % (n, a, s, suffix), v, inc)
    for r in ('Client', 'Service'):
        n = (1 if is_exit else 0) + (1 if on(f, 'IsRendFlag') and version == '2' and role == r else 0)
        if n:
            evsim.add(e, 'ExitAndRend2%sCircuitCount' % r, SINGLE, n)
    return e

def circuit(rng):
    start = 1.5e9 + rng.choice([0.0, 0.25, 17.5, 600.0])
    f = {'EventTimestamp': '%.6f' % (start + rng.choice([0.0, 0.5, 10.0, 119.0, 600.0, 86400.0, -2.0])), 'CreatedTimestamp': '%.6f' % start,
         'IsLegacyCircuitEndEventFlag': rng.choice('01'), 'StateString': 'open', 'PurposeCode': str(rng.randrange(1, 21))}
    kind = rng.choice(['exit', 'dir', 'hsdir', 'intro', 'rend', 'mid', 'origin', 'entry', 'random', 'intro', 'rend', 'hsdir'])
    if kind == 'random':
        for k in ('Origin', 'Entry', 'Mid', 'End', 'Exit', 'Dir', 'HSDir', 'Intro', 'Rend'):
            if rng.random() < 0.35:
                f['Is%sFlag' % k] = rng.choice('1110')
    elif kind in ('origin', 'entry', 'mid'):
        f['Is%sFlag' % kind.capitalize()] = '1'
        if rng.random() < 0.2:
            f['IsEndFlag'] = '1'
    else:
        f['IsEndFlag'] = '1'
        f['Is%sFlag' % {'hsdir': 'HSDir'}.get(kind, kind.capitalize())] = '1'
        if rng.random() < 0.3:
            f['IsEntryFlag'] = '1'
        if kind != 'exit' and rng.random() < 0.3:
            f['IsExitFlag'] = '1'
    if kind in ('hsdir', 'intro', 'rend', 'random'):
        if rng.random() < 0.75:
            f['HiddenServiceVersionNumber'] = rng.choice('23')
        if rng.random() < 0.75:
            f['IsHSClientSideFlag'] = rng.choice('01')
    if rng.random() < 0.35:
        f['FailureReasonString'] = rng.choice(FAILURES)
    for k in CELLS:
        if rng.random() < 0.6:
            f[k] = str(rng.choice([0, 1, 3, 4, 5, 7, 8, 9, 100, rng.randrange(0, 5000), 10 ** 9]))
    opt = {'PreviousChannelId': str(rng.randrange(99)), 'PreviousCircuitId': str(rng.randrange(99)), 'NextChannelId': '0', 'NextCircuitId': '1',
           'InboundExitByteCount': '498', 'OutboundExitByteCount': '0', 'InboundDirByteCount': '10', 'OutboundDirByteCount': '0',
           'PurposeString': 'Acting_as_rend', 'HSStateString': 'HSSI_CONNECTING', 'PreviousNodeIPAddress': rng.choice(['10.0.0.7', '::7']),
           'PreviousNodeFingerprint': 'AB' * 20, 'PreviousNodeRelayFlagList': 'Fast,Running,Valid', 'NextNodeIPAddress': '10.0.0.8',
           'NextNodeFingerprint': 'CD' * 20, 'NextNodeRelayFlagList': 'Running', 'OnionHandshakeType': rng.choice('012'),
           'HasReceivedCreateCellFlag': '1', 'IsMarkedForCloseFlag': '1', 'ExitStreamCount': '3', 'IsClientIntroLegacyFlag': '1',
           'RendSpliceIsRendFlag': '1', 'RendSpliceIsExitFlag': '1', 'RendSpliceHiddenServiceVersionNumber': rng.choice('23'),
           'IntroClientSinkIsIntroFlag': '1', 'IntroClientSinkHiddenServiceVersionNumber': rng.choice('23'),
           'IntroClientSinkFailureReasonString': 'DESTROYED', 'RendSpliceIsHSClientSideFlag': '0', 'SomeFutureField': 'x'}
    for k in opt:
        if rng.random() < 0.25:
            f[k] = opt[k]
    return f

def cell(rng):
    'a cell, which no counter counts'
    f = circuit(rng)
    for k in ('CreatedTimestamp', 'StateString', 'PurposeCode', 'IsLegacyCircuitEndEventFlag', 'PurposeString', 'HSStateString'):
        f.pop(k, None)
    f.update({'IsSentFlag': rng.choice('01'), 'CellCircuitId': str(rng.randrange(3)), 'CellCommandString': rng.choice(['RELAY', 'CREATE2', 'DESTROY'])})
    opt = {'IsOutboundFlag': '0', 'RelayCellPayloadByteCount': '498', 'RelayCellStreamId': '7', 'RelayCellCommandString': 'DATA',
           'IsRecognizedFlag': '1', 'WasRelayCryptSuccessfulFlag': '1'}
    for k in opt:
        if rng.random() < 0.5:
            f[k] = opt[k]
    if rng.random() < 0.2:
        k = rng.choice(sorted(f))
        f[k] = rng.choice(['', '-1', 'x' * 60])
    return f

def family(known):
    return [n for n in known if 'Circuit' in n and 'Connection' not in n and 'Stream' not in n and 'ClientIP' not in n
            and 'TrafficModel' not in n and n not in ('ExitWebCircuitCount', 'ExitInteractiveCircuitCount', 'ExitP2PCircuitCount',
                                                      'ExitOtherPortCircuitCount')]

def case(ctx, rng, i):
    known = evsim.known_names()
    pool = list(FAILURES)
    rng.shuffle(pool)
    lists = [[s.lower() for s in pool[:2]], [s.lower() for s in pool[2:3]]][:rng.randrange(1, 3)]
    events, full = [], {}
    for _ in range(rng.choice([2, 8, 20, 40, 80])):
        f = circuit(rng)
        e, bad = reference(f, lists), None
        if rng.random() < 0.15:
            bad = fields.spoil(rng, f, TABLE, MANDATORY)
        events.append((f, e, bad))
        evsim.merge(full, e)
    names = evsim.choose(rng, known, set(n for n, _ in full), family(known), rng.choice([10, 60, 120]), rng.choice([0, 20]))
    values = {}
    for (n, v) in full:
        values.setdefault(n, []).append(v)
    bins = dict((n, evsim.make_bins(rng, n, values.get(n, []), n_lists=len(lists))) for n in names)
    col = evsim.Collector(ctx, bins, {'circuit_failure_lists': lists})
    total = {}
    for f, e, bad in events:
        items = evsim.tagged(rng, f)
        if bad is None and rng.random() < 0.05:
            bad = fields.spoil_items(rng, items)
        if rng.random() < 0.1:
            c = cell(rng)
            ctx.check(col.event('PRIVCOUNT_CIRCUIT_CELL', evsim.tagged(rng, c)), 'cells are ignored', event=c)
            ctx.count('cells')
        ctx.check(col.event('PRIVCOUNT_CIRCUIT_CLOSE', items), 'the event is handled', event=f, bad=bad)
        if bad is None:
            evsim.merge(total, e)
            ctx.count('circuits counted')
            if any(on(f, 'Is%sFlag' % k) for k in ('HSDir', 'Intro', 'Rend')):
                ctx.count('onion service circuits')
                if 'HiddenServiceVersionNumber' in f and 'IsHSClientSideFlag' in f:
                    ctx.count('versioned roles')
            if 'FailureReasonString' in f:
                ctx.count('failures')
        else:
            ctx.count('malformed circuits')
    evsim.compare(ctx, bins, col.stop(), total, 'the counts of the circuits',
                  events=[(bad, sorted('%s=%s' % x for x in f.items())) for f, e, bad in events], lists=lists)
    ctx.nontrivial(sorted(set(n for n, _ in total) & set(names))[:40], len(events))
    ctx.sample({'event': events[0][0], 'counters': sorted(names)[:8]})
