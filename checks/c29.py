'''C29: rounds that collect a traffic model, from the model file to the updated model.'''
import json
import os

import deploy
import evsim
import rounds
import tmodel
from gen import *
from simenv import Rand, VTime, net, reactor

ID, LEVEL = 'C29', 'exploration'
RULE = ('a deployment whose rounds collect random models of packets and streams with random noise files, or none, fed with decoded paths of '
        'random observations; models are replaced, made invalid, or follow the last update; distinct by model and counters')
ASSUMPTIONS = ['relays are simulated: the paths they decode are random, not the likely ones', 'noise is forced to one sigma, or to minus one or three, blinding cancels as in C17']
QUICK = dict(cases=64, seconds=35)
THOROUGH = dict(cases=6000, seconds=1200)
REQUIRE = {'tallies compared': 30, 'paths': 500, 'observations': 1500, 'bins that changed': 500, 'models followed': 4, 'models refused': 4,
           'updates compared': 25, 'rounds without a noise file': 5, 'stream models': 10, 'models kept after a refusal': 3, 'separate files': 2}
MIN_DISTINCT = 20
M = 2 ** 70
EVENTS = {'packet_model': ('PRIVCOUNT_VITERBI_PACKETS', 'ViterbiPathPackets'), 'stream_model': ('PRIVCOUNT_VITERBI_STREAMS', 'ViterbiPathStreams')}

class State(object):
    def __init__(self, ctx, rng, dep):
        self.ctx, self.rng, self.dep = ctx, rng, dep
        self.path = os.path.join(dep.dir, 'model.json')
        self.noise_path = os.path.join(dep.dir, 'traffic.noise.yaml')
        self.base = dict(dep.bins)

    def following(self):
        return self.dep.ts_conf['traffic_model'] != self.path

    def put(self, model):
        self.model, self.spoiled = model, False
        f = open(self.path, 'w')
        json.dump(model, f)
        f.close()
        self.dep.ts_conf['traffic_model'] = self.path

    def set_noise(self):
        'which counters of the model are collected'
        rng, names = self.rng, tmodel.labels(self.model)
        self.dep.bins = dict(self.base)
        if rng.random() < 0.25:
            # all of them, with the sigmas in the main file
            self.dep.ts_conf.pop('traffic_noise', None)
            for n in names:
                self.dep.bins[n] = [[0.0, INF]]
            self.labels = set(names)
            self.noise = None
            self.ctx.count('rounds without a noise file')
        else:
            t = sorted(set(names.values()))
            keep = t if rng.random() < 0.6 else rng.sample(t, rng.randrange(1, len(t) + 1))
            self.noise = dict((k, rng.choice([0.0, 2.0, 5.0])) for k in keep)
            rounds.write(self.noise_path, {'counters': dict((k, {'sigma': self.noise[k]}) for k in keep)})
            self.dep.ts_conf['traffic_noise'] = self.noise_path
            self.labels = set(n for n in names if names[n] in self.noise)
        self.dep.write_ts()

def case(ctx, rng, i):
    net.rng, net.max_latency, net.fragment = rng, 0.0, False
    n_dc = rng.choice([1, 1, 2])
    dep = deploy.Deployment(ctx, rng, n_dc, 1, rng.sample(['EntryConnectionCount', 'ExitStreamCount'], rng.randrange(3)), collect_period=60)
    dep.split = rng.random() < 0.3
    z = rng.choice([1.0, 1.0, -1.0, -3.0])
    Rand.gauss_hook = lambda: z
    st = State(ctx, rng, dep)
    st.put(tmodel.rand_model(rng))
    st.set_noise()
    for n in rng.sample(dep.nodes, len(dep.nodes)):
        n.start()
    dcs = [n for n in dep.nodes if n.kind == 'dc']
    if dep.split:
        ctx.count('separate files')
    seen = set()
    history = []
    for r in range(rng.choice([1, 2, 3])):
        model, want_labels, noise = jcopy(st.model), set(st.labels), st.noise
        witness = dict(model=model, history=history[-4:])
        for _ in range(150):
            if all(n.counting for n in dcs):
                break
            reactor.advance(1.0)
        ctx.check(all(n.counting for n in dcs), 'a round starts', deplog=dep.log[-20:], ended=dep.ended, **witness)
        reactor.advance(13.0)
        for n in dcs:
            relay = dep.relays[n.name]
            need = set(l for l in want_labels)
            if need:
                ctx.check(relay.tmodel is not None, 'the relay gets the traffic model', **witness)
                ctx.eq(json.loads(relay.tmodel.replace(';', ',')), json.loads(json.dumps(model)), 'the model that the relay gets', history=history[-4:])
        end = VTime.now + 15
        while VTime.now < end - 1e-6:
            for n in dcs:
                for _ in range(rng.choice([0, 1, 2])):
                    kind = rng.choice(sorted(model))
                    path = tmodel.rand_path(rng, model[kind])
                    code, key = EVENTS[kind]
                    items = evsim.tagged(rng, {key: json.dumps(path, separators=(';', ':')), 'EventTimestamp': '%.6f' % VTime.now})
                    e = tmodel.effect(kind, path)
                    dep.effects[' '.join(['650', code] + items)] = e
                    if dep.relays[n.name].emit(code, items):
                        ctx.count('paths')
                        ctx.count('observations', len(path))
                    else:
                        counted = [x for x, _ in e if x in want_labels]
                        ctx.eq(counted, [], 'the relay is asked for the paths of the counters that are collected', **witness)
                if rng.random() < 0.2:
                    dep.emit(n.name)
            reactor.advance(1.0)
        # (what is changed during a round counts for the next)
        how = rng.choice(['keep', 'new', 'new', 'noise', 'spoil', 'spoil', 'follow', 'follow'])
        if (how == 'noise' and st.spoiled) or (how == 'spoil' and st.following()):
            how = 'keep'
        if how == 'new':
            st.put(tmodel.rand_model(rng))
            st.set_noise()
        elif how == 'noise':
            st.set_noise()
        elif how == 'spoil':
            if st.noise is not None and rng.random() < 0.3:
                # noise for a counter that the model does not have
                why = rng.choice([k for k in tmodel.ALL_TEMPLATES + ['ExitStreamCount'] if k not in tmodel.labels(model).values()])
                rounds.write(st.noise_path, {'counters': dict((k, {'sigma': v}) for k, v in list(st.noise.items()) + [(why, 1.0)])})
            else:
                for _ in range(6):
                    why, bad = tmodel.spoil(rng, model)
                    f = open(st.path, 'w')
                    json.dump(bad, f)
                    f.close()
                    net.call(dep.ts.proc, dep.ts.obj.refresh_config)
                    ctx.eq(tmodel.differences(jcopy(dep.ts.obj.config['traffic_model']), jcopy(model)), [], 'a model that is not valid is not used',
                           how=why, bad=bad, model=model)
            st.spoiled = True
            ctx.count('models refused')
            history.append(('spoil', why))
        for _ in range(60):
            reactor.advance(2.0)
            new = [f for f in dep.outcomes() if f not in seen and f.startswith('privcount.outcome')]
            if new:
                break
        ctx.check(len(new) == 1, 'the round ends', log=dep.log[-20:], ended=dep.ended, new=new, **witness)
        made = [f for f in dep.outcomes() if f not in seen and f.startswith('privcount.traffic.model')]
        seen.update(dep.outcomes())
        out = json.load(open(os.path.join(dep.results, new[0])))
        ctx.check('Tally' in out, 'the round has a tally', log=dep.log[-20:], **witness)
        tally = out['Tally']
        ctx.eq(sorted(n for n in tally if n != 'ZeroCount'), sorted(want_labels | set(st.base)), 'the counters of the round', **witness)
        bins = dict((k, [[float(b[0]), float(b[1])] for b in tally[k]['bins']]) for k in tally)
        for k in want_labels:
            ctx.eq(bins[k], [[0.0, INF]], 'the bin of a counter of the model', counter=k, **witness)
        names = tmodel.labels(model)
        sigmas = out['Context']['TallyServer']['Config']['noise']['counters']
        for k in want_labels:
            ctx.eq(float(sigmas[k]['sigma']), float(dep.sigma if noise is None else noise[names[k]]), 'the noise of a counter of the model',
                   counter=k, **witness)
        total = {}
        for n in dcs:
            evsim.merge(total, dep.sent_counts.get(n.name, {}))
        dep.sent_counts = {}
        got = dict(((k, b), (v[2] - n_dc * int(z * sigmas[k]['sigma'])) % M) for k in tally for b, v in enumerate(tally[k]['bins']))
        # (counters of the model all have one bin)
        flat = {}
        for (n, v), inc in total.items():
            k = (n, v)
            flat[k] = flat.get(k, 0) + inc
        single = dict((k, v) for k, v in bins.items())
        want = dict(((k, b), 0) for k in bins for b in range(len(bins[k])))
        for (n, v), inc in flat.items():
            if n in bins:
                for b, (l, u) in enumerate(bins[n]):
                    if v is None or evsim.in_bin(l, u, v):
                        want[(n, b)] = (want[(n, b)] + inc) % M
        diff = dict((k, (evsim.signed_(got[k]), evsim.signed_(want[k]))) for k in want if got[k] != want[k])
        ctx.eq(diff, {}, 'the tally of the round (counted, expected)', **witness)
        ctx.count('tallies compared')
        ctx.count('bins that changed', sum(1 for k in want if want[k]))
        if 'stream_model' in model:
            ctx.count('stream models')
        # the updated model
        counts = dict((k, tally[k]['bins'][0][2]) for k in tally)
        updated = out.get('UpdatedTrafficModel')
        ctx.check(updated is not None, 'the model is updated', **witness)
        expected = tmodel.update(model, counts, 0.5, 0.5)
        ctx.eq(tmodel.differences(updated, expected)[:5], [], 'the updated model in the outcome', counts=counts, **witness)
        ctx.eq(tmodel.invalid(updated), [], 'the updated model can be used', counts=counts, **witness)
        ctx.eq(len(made), 1, 'the updated model has its own file', **witness)
        ctx.eq(json.load(open(os.path.join(dep.results, made[0]))), updated, 'the file of the updated model', **witness)
        link = os.path.realpath('traffic.model.latest.json')
        ctx.eq(link, os.path.realpath(os.path.join(dep.results, made[0])), 'the link to the latest model', **witness)
        recorded = out['Context']['TallyServer']['Config'].get('traffic_model')
        ctx.eq(tmodel.differences(recorded, json.loads(json.dumps(model))), [], 'the model that the outcome says was used', **witness)
        ctx.count('updates compared')
        if st.spoiled:
            if rng.random() < 0.7:
                ctx.count('models kept after a refusal')
            else:
                st.put(tmodel.rand_model(rng))
                st.set_noise()
        if how == 'follow':
            # as the documentation of the link suggests: the next round uses the latest model
            st.dep.ts_conf['traffic_model'] = os.path.join(os.getcwd(), 'traffic.model.latest.json')
            st.spoiled = False
        if st.following():
            st.model = updated
            ctx.count('models followed')
        if how == 'follow':
            st.set_noise()
        history.append((r, how, sorted(model), sorted(want_labels)[:4]))
        ctx.nontrivial(sorted(model), sorted(want_labels), how)
    ctx.eq(dep.ended, [], 'no node ends by itself', history=history, log=dep.log[-20:])
    ctx.sample({'model': st.model, 'history': history})
