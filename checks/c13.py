'''C13: the data collector over sequences of start and stop commands.'''
import base64
import copy
import json
import os
import rounds
import keys
import simenv
from gen import *
from simenv import VTime, Rand, reactor
from privcount import crypto
from privcount.data_collector import DataCollector

ID, LEVEL = 'C13', 'exploration'
RULE = ('random histories of valid and refused start commands, relay fingerprints with and without a noise weight, events, stops at '
        'every stage and time, on a real data collector; distinct by history')
ASSUMPTIONS = ['the Tor side is driven through the interface the control port protocol uses; C24 and C17 cover the protocol']
QUICK = dict(cases=420, seconds=45)
THOROUGH = dict(cases=20000, seconds=1200)
REQUIRE = {'rounds started': 200, 'blinded counts compared': 80, 'refused starts': 200, 'counts withheld': 60, 'no noise weight': 20,
           'delays enforced': 10, 'starts during a round': 60, 'events counted': 200, 'times compared': 100, 'checkins': 200}
MIN_DISTINCT = 150
M = 2 ** 70
NAMES = ['ZeroCount', 'ExitStreamCount', 'ExitStreamByteCount', 'ExitStreamOutboundByteCount', 'HSDir2StoreCount', 'EntryConnectionCount',
         'EntryConnectionLifeTime', 'HSDirStoreIntroByteHistogram']

def new_counters(rng):
    c, n = rounds.counters(rng, rng.sample(NAMES, rng.randrange(1, 5)))
    return c, n

def noise_configs(rng, fps):
    kind = rng.choice(['default', 'default', 'own', 'both', 'both', 'other'])
    w = {}
    if kind in ('own', 'both'):
        w[fps[0]] = rng.choice([1.0, 2.0, 0.5])
    if kind in ('default', 'both'):
        w['*'] = rng.choice([1.0, 4.0])
    if kind == 'other':
        w[fps[1]] = 1.0
    return w

def start_command(rng, c, n, sks, weights):
    return {'counters': copy.deepcopy(c), 'noise': {'counters': copy.deepcopy(n)}, 'noise_weight': weights, 'dc_threshold': 1,
            'collect_period': 1000, 'sharekeepers': dict(('sk%d' % k, base64.b64encode(crypto.get_serialized_public_key(keys.path(k)))) for k in sks)}

def spoil(rng, cmd, sks):
    kind = rng.choice(['missing', 'sks', 'mismatch', 'unknown', 'bins', 'sigma', 'weight', 'fewer', 'foreign', 'more', 'twice', 'model'])
    unused = [k for k in range(keys.COUNT) if k not in sks]
    pk = lambda k: base64.b64encode(crypto.get_serialized_public_key(keys.path(k)))
    if kind == 'missing':
        f = rng.choice(['counters', 'noise', 'noise_weight', 'dc_threshold', 'collect_period'])
        del cmd[f]
        kind += ' ' + f
    elif kind == 'sks':
        del cmd['sharekeepers']
    elif kind == 'mismatch':
        k = rng.choice(sorted(cmd['counters']))
        del rng.choice([cmd['counters'], cmd['noise']['counters']])[k]
    elif kind == 'unknown':
        cmd['counters']['SomeFutureCount'] = {'bins': [[0.0, INF]]}
        cmd['noise']['counters']['SomeFutureCount'] = {'sigma': 1.0}
    elif kind == 'bins':
        cmd['counters'][rng.choice(sorted(cmd['counters']))]['bins'] = rng.choice([[[1.0, 1.0]], [], [[0.0, 2.0], [1.0, 3.0]]])
    elif kind == 'sigma':
        cmd['noise']['counters'][rng.choice(sorted(cmd['counters']))] = {'sigma': -1.0}
    elif kind == 'weight':
        cmd['noise_weight'] = rng.choice([{}, {'*': -1.0}, {'*': NAN}])
    elif kind == 'fewer':
        del cmd['sharekeepers'][rng.choice(sorted(cmd['sharekeepers']))]
    elif kind == 'foreign':
        cmd['sharekeepers'][rng.choice(sorted(cmd['sharekeepers']))] = pk(rng.choice(unused))
    elif kind == 'more':
        cmd['sharekeepers']['sk9'] = pk(rng.choice(unused))
    elif kind == 'twice':
        cmd['sharekeepers']['sk9'] = pk(rng.choice(sks))
    else:
        cmd['traffic_model'] = {'nonsense': 1}
    return kind

class Round(object):
    pass

def stream_event(rng):
    port = rng.choice([80, 22, 443, 9999])
    rd, wr = rng.randrange(0, 5000), rng.randrange(1, 5000)
    ev = ['PRIVCOUNT_STREAM_ENDED', str(rng.randrange(9)), str(rng.randrange(9)), str(rng.randrange(99)), str(port), str(rd), str(wr),
          repr(VTime.now - 5), repr(VTime.now), 'example.com', '93.184.216.34', '1']
    return ev, {'ExitStreamCount': 1, 'ExitStreamByteCount': rd + wr, 'ExitStreamOutboundByteCount': wr}

def case(ctx, rng, i):
    d = ctx.scratch()
    delay = rng.choice([0, 50, 1000, 1000])
    always = rng.random() < 0.15
    sks = rng.sample(range(keys.COUNT), rng.randrange(1, 4))
    path = os.path.join(d, 'dc.yaml')
    name = 'dc-%d' % rng.randrange(100)
    conf = {'name': name, 'delay_period': delay, 'always_delay': always, 'event_source': {'port': 20003, 'ip': '127.0.0.1'},
            'tally_server_info': {'ip': '127.0.0.1', 'port': 9999}, 'secret_handshake': os.path.join(d, 'hs'),
            'share_keepers': [keys.digest(k) for k in sks]}
    rounds.write(path, {'data_collector': conf})
    dc = DataCollector(path)
    dc.refresh_config()
    Rand.gauss_hook = lambda: 1.0
    model = rounds.Delay(delay, always)
    fps = [rand_fp(rng), rand_fp(rng)]
    cur = None
    shares_seen = set()
    c, n = new_counters(rng)
    weights = noise_configs(rng, fps)
    log = []
    for step in range(rng.randrange(4, 12)):
        reactor.advance(rng.choice([0.5, 1.0, 49.0, 60.0, 1001.0]))
        st = dc.get_status()
        ctx.eq((st['type'], st['name'], st['state']), ('DataCollector', name, 'idle' if cur is None else 'active'), 'the state that is reported', history=log)
        if cur is not None and VTime.now < cur.begin - 0.2 and rng.random() < 0.4:
            # just before or after the round begins
            reactor.advance(cur.begin - VTime.now + rng.choice([-0.1, 0.1]))
        op = rng.choice(['start', 'start', 'start', 'stop'] if cur is None else ['stop', 'stop', 'fp', 'events', 'events', 'start'])
        if rng.random() < 0.3:
            # (nobody listens there)
            dc.do_checkin()
            log.append(('checkin', VTime.now))
            ctx.count('checkins')
            reactor.advance(rng.choice([0.25, 20.0]))
        if op == 'start':
            how = rng.choice(['same', 'up', 'down', 'down', 'new'])
            if how == 'new':
                c, n = new_counters(rng)
            elif how in ('up', 'down'):
                for k in n:
                    n[k]['sigma'] = n[k]['sigma'] + 8.0 if how == 'up' else float(int(n[k]['sigma']) // 4 * 2)
            if rng.random() < 0.5:
                weights = noise_configs(rng, fps)
            cmd = start_command(rng, c, n, sks, dict(weights))
            if rng.random() < 0.3:
                cmd['defer_time'] = rng.choice([30.0, 30.75, 0.75, 10.5])
            bad = spoil(rng, cmd, sks) if rng.random() < 0.4 else None
            sig = rounds.sigmas(cmd['noise']) if 'noise' in cmd else {}
            allowed = model.permitted(sig, VTime.now)
            if not weights and bad is None:
                bad = 'no weights'
            running = cur is not None
            r = dc.do_start(jcopy(cmd))
            log.append(('start', how, bad, allowed, running, sorted(weights), VTime.now))
            if running:
                ctx.check(r is None, 'a start during a round is refused', history=log)
                ctx.count('starts during a round')
                continue
            if bad is not None or not allowed:
                ctx.check(r is None, 'a start that is invalid or too early is refused', history=log, returned=r)
                ctx.eq(dc.get_status()['state'], 'idle', 'a refused start leaves the data collector idle', history=log)
                ctx.count('refused starts')
                if bad is None:
                    ctx.count('delays enforced')
                continue
            ctx.check(isinstance(r, dict), 'a valid start returns shares', history=log, returned=r)
            ctx.eq(sorted(r), sorted('sk%d' % k for k in sks), 'one share for each share keeper', history=log)
            cur = Round()
            cur.c, cur.sigmas, cur.weights = copy.deepcopy(c), sig, dict(weights)
            cur.asked = VTime.now
            cur.begin = VTime.now + cmd.get('defer_time', 0.0)
            cur.sum = dict(((k, b), 0) for k in c for b in range(len(c[k]['bins'])))
            cur.true = dict(cur.sum)
            cur.fp, cur.dropped, cur.noised = None, False, False
            wire_text = json.dumps(r)
            for k in sks:
                m = r['sk%d' % k]
                ctx.eq(m['dc_name'], name, 'the share names its sender')
                s = crypto.decrypt(keys.pair(k)[1], jcopy(m)['secret'])
                for o in range(keys.COUNT):
                    if o != k:
                        ctx.must_raise('only its share keeper can read a share', crypto.decrypt, keys.pair(o)[1], m['secret'])
                        break
                ctx.eq(sorted(s), sorted(c), 'a share covers every counter')
                for key in c:
                    ctx.eq(len(s[key]['bins']), len(c[key]['bins']), 'and every bin')
                    for b, item in enumerate(s[key]['bins']):
                        v = long(item[2])
                        ctx.check(0 <= v < M, 'a blinding value is within the modulus')
                        ctx.check(v not in shares_seen, 'a blinding value is never used again')
                        if v > 10 ** 6:
                            ctx.check(str(v) not in wire_text, 'shares leave encrypted only')
                        shares_seen.add(v)
                        cur.sum[(key, b)] = (cur.sum[(key, b)] + v) % M
            # (with one share keeper, the blinded count of an empty bin is the share)
            ctx.check(len(sks) == 1 or not rounds.hold(dc.__dict__, set(v for v in shares_seen if v > 10 ** 6)), 'no share is kept by its maker', history=log)
            ctx.count('rounds started')
        elif op == 'fp':
            if VTime.now < cur.begin or cur.dropped:
                continue
            f = rng.choice([fps[0], fps[0], fps[1], 'nonsense', fps[0][:39]])
            before = len(Rand.gauss_log)
            dc.aggregator.set_fingerprint(f)
            if len(f) == 40 and cur.fp is None:
                cur.fp = f
                w = cur.weights.get(f, cur.weights.get('*'))
                if w is None:
                    cur.dropped = True
                    ctx.count('no noise weight')
                else:
                    cur.noised, cur.w = True, w
            log.append(('fp', fps.index(f) if f in fps else f, cur.dropped))
        elif op == 'events':
            if VTime.now < cur.begin:
                continue
            for _ in range(rng.randrange(1, 4)):
                ev, effect = stream_event(rng)
                dc.aggregator.handle_event(ev)
                if not cur.dropped:
                    for k in effect:
                        if k in cur.c:
                            cur.true[(k, 0)] += effect[k]
                            ctx.count('events counted')
            log.append(('events',))
        else:
            wants = rng.choice([True, True, True, False, None])
            pending = cur is not None and VTime.now < cur.begin
            r = dc.do_stop({} if wants is None else {'send_counters': wants})
            log.append(('stop', wants, cur is not None, pending, VTime.now))
            ok = cur is not None and not pending and not cur.dropped
            if ok and not cur.noised:
                cur.w = cur.weights.get('*')
                if cur.w is None:
                    ok = False
                    ctx.count('no noise weight')
            if ok and wants:
                ctx.check('Counts' in (r or {}), 'the counts are sent when the tally server wants them', history=log)
                got = rounds.values(r['Counts'])
                want = {}
                for (k, b) in cur.sum:
                    noise = int(round(cur.sigmas[k] * cur.w))
                    want[(k, b)] = (cur.true[(k, b)] + noise + cur.sum[(k, b)]) % M
                ctx.eq(got, want, 'each count is what was collected, its noise once, and all its blinding', history=log,
                       difference=dict((str(x), (got[x] - want[x]) % M) for x in want if x in got and got[x] != want[x]))
                ctx.eq(rounds.sigmas(r['Config']['Start']['noise']), cur.sigmas, 'the configuration sent along is that of the round', history=log)
                model.success(cur.sigmas, VTime.now)
                ctx.count('blinded counts compared')
            else:
                ctx.check(not (r or {}).get('Counts'), 'no counts are sent without a round, without noise, or when nobody wants them', history=log,
                          returned=r)
                ctx.count('counts withheld')
            if cur is not None:
                times = (r or {}).get('Config', {}).get('Time', {})
                ctx.eq((times.get('Start'), times.get('Stop')), (cur.asked, VTime.now), 'the times of the round are those when it was started and stopped',
                       history=log)
                ctx.eq(times.get('Collect'), VTime.now - cur.asked, 'and its length is the time between them', history=log)
                ctx.count('times compared')
            cur = None
            ctx.eq(dc.get_status()['state'], 'idle', 'a stop ends the round', history=log)
            r2 = dc.do_stop({'send_counters': True})
            ctx.check(not (r2 or {}).get('Counts'), 'the counts are sent at most once', history=log)
    ctx.nontrivial(log)
    ctx.sample({'history': log})
