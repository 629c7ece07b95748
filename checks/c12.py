'''C12: the share keeper over sequences of start and stop commands.'''
import copy
import json
import os
import rounds
import keys
import simenv
from gen import *
from simenv import VTime
from privcount import crypto
from privcount.counter import counter_modulus
from privcount.share_keeper import ShareKeeper

ID, LEVEL = 'C12', 'exploration'
RULE = ('random histories of valid and refused start commands, stops with and without counters, and time, on a real share keeper with '
        'shares really encrypted to its key; distinct by history')
ASSUMPTIONS = ['share values are generated by the check: how data collectors make them is C02 and C13']
QUICK = dict(cases=420, seconds=45)
THOROUGH = dict(cases=20000, seconds=1200)
REQUIRE = {'rounds started': 200, 'sums compared': 80, 'refused starts': 150, 'counts withheld': 40, 'delays enforced': 20,
           'stops while idle': 80}
MIN_DISTINCT = 150
M = 2 ** 70

def share(rng, c, n, dc, pub, extra=0):
    secret = {}
    for k in c:
        secret[k] = {'bins': [[l, u, rng.getrandbits(70)] for l, u in c[k]['bins']], 'sigma': n[k]['sigma']}
    return secret

def start_command(rng, c, n, pub):
    secrets, shares = [], []
    for d in range(rng.randrange(1, 5)):
        s = share(rng, c, n, d, pub)
        secrets.append(s)
        shares.append({'secret': crypto.encrypt(pub, s), 'sk_uid': 'me', 'dc_name': 'dc%d' % d})
    return {'counters': copy.deepcopy(c), 'noise': {'counters': copy.deepcopy(n)}, 'noise_weight': {'*': 1.0}, 'dc_threshold': 1,
            'collect_period': 100, 'shares': shares}, secrets

def spoil(rng, cmd, secrets, pub):
    'makes a command that must be refused'
    kind = rng.choice(['missing', 'shares', 'mismatch', 'badbins', 'sigma', 'weight', 'threshold', 'share-counter', 'share-bins', 'share-item'])
    if kind == 'missing':
        f = rng.choice(['counters', 'noise', 'noise_weight', 'dc_threshold', 'collect_period'])
        del cmd[f]
        kind += ' ' + f
    elif kind == 'shares':
        del cmd['shares']
    elif kind == 'mismatch':
        k = rng.choice(sorted(cmd['counters']))
        del rng.choice([cmd['counters'], cmd['noise']['counters']])[k]
    elif kind == 'badbins':
        k = rng.choice(sorted(cmd['counters']))
        cmd['counters'][k]['bins'] = rng.choice([[[1.0, 1.0]], [], [[5.0, 1.0]], [[0.0, 2.0], [1.0, 3.0]]])
    elif kind == 'sigma':
        k = rng.choice(sorted(cmd['counters']))
        cmd['noise']['counters'][k] = rng.choice([{'sigma': -1.0}, {'sigma': NAN}])
    elif kind == 'weight':
        cmd['noise_weight'] = rng.choice([{}, {'*': -1.0}])
    elif kind == 'threshold':
        cmd['dc_threshold'] = rng.choice([0, -1])
    else:
        d = rng.randrange(len(secrets))
        s = copy.deepcopy(secrets[d])
        k = rng.choice(sorted(s))
        if kind == 'share-counter':
            del s[k]
        elif kind == 'share-bins':
            s[k]['bins'] = rng.choice([[], s[k]['bins'] + [[9e9, 9e10, 5]]])
        else:
            s[k]['bins'][0] = s[k]['bins'][0][:2]
        cmd['shares'][d]['secret'] = crypto.encrypt(pub, s)
    return kind

def expected(c, secrets):
    want = dict(((k, b), 0) for k in c for b in range(len(c[k]['bins'])))
    for s in secrets:
        for k in c:
            for b in range(len(c[k]['bins'])):
                want[(k, b)] = (want[(k, b)] - s[k]['bins'][b][2]) % M
    return want

def secret_numbers(secrets):
    return set(item[2] for s in secrets for k in s for item in s[k]['bins'])

def case(ctx, rng, i):
    ki = rng.randrange(keys.COUNT)
    pub, priv = keys.pair(ki)
    d = ctx.scratch()
    delay = rng.choice([0, 50, 1000, 1000])
    always = rng.random() < 0.15
    path = os.path.join(d, 'sk.yaml')
    conf = {'key': keys.path(ki), 'delay_period': delay, 'always_delay': always,
            'tally_server_info': {'ip': '127.0.0.1', 'port': 9999}, 'secret_handshake': os.path.join(d, 'hs')}
    rounds.write(path, {'share_keeper': conf})
    sk = ShareKeeper(path)
    sk.refresh_config()
    ctx.eq(sk.config['name'], keys.digest(ki), 'a share keeper is named by its key')
    model = rounds.Delay(delay, always)
    active = None          # (counters, secrets, sigmas)
    known = set()          # every share value ever received
    released = set()
    c, n = rounds.counters(rng)
    log = []
    clean = True           # no start was refused during the round
    for step in range(rng.randrange(3, 9)):
        VTime.now += rng.choice([0.5, 1.0, 49.0, 60.0, 1001.0])
        op = rng.choice(['start', 'start', 'start', 'stop'] if active is None else ['stop', 'stop', 'stop', 'status', 'start', 'start'])
        st = sk.get_status()
        ctx.eq(st['state'], 'idle' if active is None else 'active', 'the state that is reported', history=log)
        ctx.eq((st['type'], st['name']), ('ShareKeeper', keys.digest(ki)), 'the name that is reported')
        ctx.check('PRIVATE' not in json.dumps(st), 'the private key is not reported')
        ctx.eq(crypto.get_public_digest_string(st['public_key'], False), st['name'], 'the key that is reported is its own')
        if op == 'start':
            how = rng.choice(['same', 'up', 'down', 'down', 'new', 'unknown'])
            if how == 'new':
                c, n = rounds.counters(rng)
            elif how in ('up', 'down'):
                for k in n:
                    n[k]['sigma'] = n[k]['sigma'] + 7.0 if how == 'up' else n[k]['sigma'] / 2.0
            elif how == 'unknown':
                c, n = rounds.counters(rng)
                c['SomeFutureCount'] = {'bins': [[0.0, INF]]}
                n['SomeFutureCount'] = {'sigma': 1.0}
            cmd, secrets = start_command(rng, c, n, pub)
            sigmas = rounds.sigmas(cmd['noise'])
            bad = None
            if rng.random() < 0.4:
                bad = spoil(rng, cmd, secrets, pub)
            allowed = model.permitted(sigmas, VTime.now)
            cmd = jcopy(cmd)
            r = sk.do_start(cmd)
            log.append(('start', how, bad, allowed, VTime.now))
            known |= secret_numbers(secrets)
            if bad is None and allowed:
                ctx.eq(r, {}, 'a valid start is confirmed, and nothing is given away', history=log)
                if active is not None:
                    ctx.count('rounds replaced')
                clean = True
                active = (copy.deepcopy(c), secrets, sigmas, VTime.now)
                ctx.eq(sk.get_status()['state'], 'active', 'the share keeper is active', history=log)
                ctx.count('rounds started')
            else:
                ctx.check(r is None, 'a start that is invalid or too early is refused', history=log, returned=r)
                now = sk.get_status()['state']
                if active is None:
                    ctx.eq(now, 'idle', 'a refused start leaves the share keeper idle', history=log)
                elif now == 'idle':
                    active = None
                else:
                    # the round that was running goes on: its sums are compared when it stops
                    clean = False
                    ctx.count('refused during a round')
                ctx.count('refused starts')
                if bad is None:
                    ctx.count('delays enforced')
        elif op == 'stop':
            wants = rng.choice([True, True, False, None])
            scmd = {} if wants is None else {'send_counters': wants}
            r = sk.do_stop(scmd)
            log.append(('stop', wants, active is not None, VTime.now))
            if active is not None and wants:
                ctx.check(r is not None and 'Counts' in r, 'the sums are sent when the tally server wants them', history=log)
                want = expected(active[0], active[1])
                got = rounds.values(r['Counts'])
                ctx.eq(got, want, 'the sums of the unblinding values', history=log)
                for k in active[0]:
                    ctx.eq([x[:2] for x in r['Counts'][k]['bins']], active[0][k]['bins'], 'the bins are those of the round')
                if clean:
                    ctx.eq(rounds.sigmas({'counters': r['Config']['Start']['noise']['counters']}), active[2],
                           'the configuration sent along is that of the round', history=log)
                model.success(active[2], VTime.now)
                released |= set(got.values())
                ctx.count('sums compared')
            else:
                ctx.check(not (r or {}).get('Counts'), 'no sums are sent without a round, or when nobody wants them', history=log)
                ctx.count('counts withheld' if active is not None else 'stops while idle')
            if active is not None and clean:
                times = r['Config'].get('Time', {})
                ctx.eq([times.get(k) for k in ('Start', 'Stop', 'Collect')], [active[3], VTime.now, VTime.now - active[3]],
                       'the times of the round are those when it was started and stopped', history=log)
            # with more than one share, no single one leaves; nor does any sum that was not asked for
            text = json.dumps(r['Config'])
            ctx.check(not any(str(v) in text for v in known if v > 10 ** 6), 'the shares themselves are never sent', history=log)
            if 'Start' in r['Config']:
                ctx.check(not any('pk_encrypted' in json.dumps(s.get('secret')) for s in r['Config']['Start'].get('shares', [])),
                          'the encrypted shares are not sent back', history=log)
            active = None
            ctx.eq(sk.get_status()['state'], 'idle', 'a stop ends the round', history=log)
            ctx.check(not rounds.hold(sk.__dict__, set(v for v in known if v > 10 ** 6)), 'no share is kept after a stop', history=log)
        else:
            ctx.eq(sk.get_status()['state'], 'active', 'asking for the state changes nothing')
    ctx.nontrivial(log)
    ctx.sample({'history': log})
