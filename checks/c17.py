'''C17: a whole deployment, with faults.'''
import glob
import json
import os

import deploy
import evsim
from gen import *
from simenv import VTime, Rand, net, reactor

ID, LEVEL = 'C17', 'exploration'
RULE = ('a real tally server, share keepers and data collectors in one simulation with simulated relays, that run rounds while connections '
        'are cut, processes killed and restarted, nodes cut off, relays restarted and configurations changed, and then in peace; '
        'distinct by faults and outcome')
ASSUMPTIONS = ['each bin gets exactly sigma units of noise from each data collector, so that noise added twice or never shows in the tally',
               'relays are simulated; TLS and the cryptography library are stand-ins with real RSA, AES and SHA']
QUICK = dict(cases=44, seconds=45)
THOROUGH = dict(cases=4000, seconds=1500)
REQUIRE = {'tallies compared': 20, 'events counted': 500, 'faults': 40, 'rounds without a tally': 3, 'completed in peace': 8}
MIN_DISTINCT = 8
M = 2 ** 70

def case(ctx, rng, i):
    net.rng = rng
    net.max_latency = rng.choice([0.0, 0.1, 0.8])
    net.fragment = rng.random() < 0.5
    n_dc, n_sk = rng.choice([1, 2, 2, 3]), rng.choice([1, 2, 2, 3])
    known = evsim.known_names()
    pool = [n for n in sorted(known) if n.startswith(('EntryConnection', 'NonEntryConnection')) and 'Match' not in n]
    def some():
        return rng.sample(pool, rng.choice([0, 2])) + rng.sample(['EntryConnectionCount', 'NonEntryConnectionCount', 'ExitStreamCount',
                                                                  'NonEntryConnectionLifeTime'], 2)
    dep = deploy.Deployment(ctx, rng, n_dc, n_sk, some(), collect_period=rng.choice([40, 60, 100]),
                            delay_period=rng.choice([0, 0, 15]), dc_threshold=rng.choice([1, n_dc]))
    for n in rng.sample(dep.nodes, len(dep.nodes)):
        n.start()
        reactor.advance(rng.choice([0.0, 0.5, 7.0]))
    seen = set()
    stats = {'tally': 0, 'none': 0}
    faults = []
    dcs = [n for n in dep.nodes if n.kind == 'dc']

    def look():
        for f in dep.outcomes():
            if f in seen or not f.startswith('privcount.outcome'):
                continue
            seen.add(f)
            out = json.load(open(os.path.join(dep.results, f)))
            sent, dep.sent_counts = dep.sent_counts, {}
            dep.note('outcome', 'Tally' in out)
            if 'Tally' not in out:
                stats['none'] += 1
                ctx.count('rounds without a tally')
                continue
            tally = out['Tally']
            total = {}
            for name in sent:
                evsim.merge(total, sent[name])
            bins = dict((k, [b[:2] for b in tally[k]['bins']]) for k in tally)
            got = dict(((k, b), v[2] % M) for k in tally for b, v in enumerate(tally[k]['bins']))
            noise = out['Context']['TallyServer']['Config']['noise']['counters']
            for k, b in got:
                got[(k, b)] = (got[(k, b)] - int(noise[k]['sigma']) * len(sent)) % M
            evsim.compare(ctx, bins, got, total, 'the tally, without the noise, against the events of all relays',
                          history=dep.log[-60:], sent=sorted(sent))
            listed = sorted(out['Context'].get('DataCollector', {}))
            ctx.check(set(sent) <= set(listed), 'the outcome lists the data collectors that were counted', sent=sorted(sent), listed=listed)
            stats['tally'] += 1
            ctx.count('tallies compared')

    def run(seconds, busy=True):
        end = VTime.now + seconds
        while VTime.now < end - 1e-6:
            reactor.advance(min(end - VTime.now, rng.choice([0.3, 2.0, 5.0])))
            look()
            if busy:
                for n in dcs:
                    for _ in range(rng.choice([0, 0, 1, 2])):
                        dep.emit(n.name)

    p = rng.choice([0.0, 0.1, 0.3])
    again = {}
    for _ in range(rng.choice([10, 25, 40])):
        run(rng.choice([2.0, 10.0, 20.0]))
        for n in list(again):
            if again[n] <= VTime.now:
                del again[n]
                dep.cut_off.discard(n.name)
                if not n.up():
                    dep.note(n.name, 'starts again')
                    n.start()
        for n in dep.nodes:
            if not n.up() and n not in again:
                again[n] = VTime.now + rng.choice([5.0, 30.0])
        if rng.random() < p:
            n = rng.choice(dep.nodes)
            how = rng.choice(['cut', 'cut', 'kill', 'away', 'relay', 'relay cut', 'config'])
            ctx.count('faults')
            faults.append(how + ' ' + n.kind)
            dep.note(how, n.name)
            if how == 'cut':
                for c in n.connections():
                    if rng.random() < 0.7:
                        c.drop()
            elif how == 'kill':
                n.kill()
                again[n] = VTime.now + rng.choice([0.5, 20.0, 200.0])
            elif how == 'away':
                dep.cut_off.add(n.name)
                for c in n.connections():
                    c.drop()
                again[n] = VTime.now + rng.choice([10.0, 90.0, 300.0])
            elif how.startswith('relay'):
                r = dep.relays[rng.choice(dcs).name]
                for s in r.live():
                    s.drop()
                if how == 'relay':
                    r.conf['EnablePrivCount'] = '0'
            else:
                if rng.random() < 0.5:
                    dep.sigma = rng.choice([3.0, 7.0, 20.0])
                else:
                    dep.set_counters(some())
                dep.write_ts()
    # peace: everything is there again, and rounds complete
    dep.cut_off.clear()
    for n in dep.nodes:
        if not n.up():
            n.start()
    before = stats['tally']
    period = dep.ts_conf['collect_period']
    for _ in range(12):
        run(period + 100.0)
        if stats['tally'] > before + 1:
            break
    ctx.check(stats['tally'] > before, 'rounds complete when everything works', history=dep.log[-60:], faults=faults)
    ctx.count('completed in peace')
    ctx.eq(dep.ended, [], 'no node ends by itself', history=dep.log[-60:])
    ctx.eq([(str(a), repr(b)) for a, b in net.errors], [], 'no exceptions in the protocols', history=dep.log[-60:])
    ctx.count('events counted', dep.events)
    ctx.count('events not asked for', dep.unasked)
    ctx.nontrivial(sorted(set(faults)), n_dc, n_sk, min(stats['tally'], 5), min(stats['none'], 5))
    ctx.sample({'history': dep.log[:30], 'faults': faults})
