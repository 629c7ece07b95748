'''C30: how the tally of a round changes its traffic model.'''
import json
import os

import tmodel
from gen import *
from privcount.traffic_model import TrafficModel, check_traffic_model_config, normalize_traffic_model_config

ID, LEVEL = 'C30', 'exploration'
RULE = ('random models of packets and streams, and sequences of one to four random tallies (large, small, zero, negative, missing) with the '
        'default and other inertias; each updated model is the model of the next tally; distinct by model and signs of the tally')
ASSUMPTIONS = ['where the variance of the logarithms of delays is below 0.1, it can not be told from rounding and noise: any value between the '
               'default deviation and the computed one is accepted']
QUICK = dict(cases=3000, seconds=20)
THOROUGH = dict(cases=200000, seconds=900)
REQUIRE = {'updates': 1000, 'probabilities compared': 10000, 'negative or missing tallies': 3000, 'states without observations': 200,
           'rates without delays': 60, 'updated models used again': 300, 'noise files': 500, 'models normalised': 500}
MIN_DISTINCT = 300

def rand_tally(rng, model):
    scale = rng.choice([1, 20, 1000, 10 ** 7])
    noise = rng.choice([0, 0, 1, scale, 10 * scale])
    blank = rng.random() < 0.1
    t = {}
    for l in tmodel.labels(model):
        if blank or rng.random() < 0.05:
            continue
        v = rng.choice([0, rng.randrange(scale + 1), rng.randrange(scale + 1)])
        if 'Squared' in l:
            v *= rng.choice([1, 5, 40])
        elif 'LogDelay' in l:
            v *= rng.choice([1, 3, 10])
        elif 'DelayTime' in l:
            v *= rng.choice([1, 1000, 10 ** 6])
        if noise:
            v += int(rng.gauss(0, noise))
        t[l] = v
    return t

def noise_file(ctx, rng, model):
    'which counters a noise file stands for'
    names, tm = tmodel.labels(model), TrafficModel(jcopy(model))
    t = sorted(set(names.values()))
    noise = dict((k, {'sigma': rng.random(), 'sensitivity': rng.random()}) for k in rng.sample(t, rng.randrange(len(t) + 1)))
    ctx.check(tm.check_noise_config({'counters': jcopy(noise)}), 'the noise file is accepted', noise=noise, model=model)
    ctx.eq(tm.get_noise_init_config({'counters': jcopy(noise)}), dict((n, noise[names[n]]) for n in names if names[n] in noise),
           'the noise of the counters of the noise file', noise=noise, model=model)
    ctx.eq(jcopy(tm.get_bins_init_config({'counters': jcopy(noise)})),
           dict((n, {'bins': [[0.0, INF]]}) for n in names if names[n] in noise), 'the counters of the noise file', noise=noise, model=model)
    ctx.eq(sorted(tm.get_all_counter_labels()), sorted(names), 'the counters of the model', model=model)
    other = [k for k in tmodel.ALL_TEMPLATES + ['ExitStreamCount', rng.choice(sorted(names))] if k not in t]
    noise[rng.choice(other)] = {'sigma': 1.0}
    ctx.check(not tm.check_noise_config({'counters': noise}), 'noise for counters that the model does not have is refused', noise=noise,
              model=model)
    ctx.check(not tm.check_noise_config({}), 'a noise file has counters', model=model)
    ctx.count('noise files')

def weights(ctx, rng, model):
    'a model with weights in place of probabilities'
    whole = rng.random() < 0.5
    odd = jcopy(model)
    def row(r, get, put):
        f = rng.choice([0.5, 3.0, 1000.0, rng.random() + 0.01])
        for k in r:
            w = get(r[k]) * f
            if whole:
                w = int(round(1000 * w)) or (1 if w else 0)
            put(r, k, w)
    def first(r, k, w):
        r[k][0] = w
    for h in odd.values():
        row(h['start_probability'], lambda x: x, lambda r, k, w: r.__setitem__(k, w))
        for r in h['transition_probability'].values():
            row(r, lambda x: x, lambda r, k, w: r.__setitem__(k, w))
        for r in h['emission_probability'].values():
            row(r, lambda x: x[0], first)
    def share(r):
        t = float(sum(r.values()))
        return dict((k, r[k] / t if t else r[k]) for k in r)
    want = jcopy(odd)
    for h in want.values():
        h['start_probability'] = share(h['start_probability'])
        h['transition_probability'] = dict((s, share(r)) for s, r in h['transition_probability'].items())
        for r in h['emission_probability'].values():
            for o, p in share(dict((o, r[o][0]) for o in r)).items():
                r[o][0] = p
    got = jcopy(normalize_traffic_model_config(jcopy(odd)))
    ctx.eq(tmodel.differences(got, want)[:6], [], 'the normalised model', weights=odd)
    ctx.check(check_traffic_model_config(jcopy(got)), 'the normalised model is accepted', weights=odd, normalised=got)
    ctx.count('models normalised')

def case(ctx, rng, i):
    model = tmodel.rand_model(rng)
    before = jcopy(model)
    ctx.check(check_traffic_model_config(jcopy(model)), 'the model is accepted', model=model)
    how, bad = tmodel.spoil(rng, model)
    ctx.check(not check_traffic_model_config(jcopy(bad)), 'a model that is not valid is refused', how=how, model=bad)
    noise_file(ctx, rng, model)
    weights(ctx, rng, model)
    seen = []
    for k in range(rng.choice([1, 1, 2, 4])):
        tally = rand_tally(rng, model)
        inertia = rng.choice([(), (), (0.5, 0.25), (0.0625, 0.5), (0.9, 0.9), (0.125, 0.75)])
        want = tmodel.update(before, tally, *(inertia or (0.5, 0.5)))
        got = jcopy(TrafficModel(jcopy(before)).update_from_tallies(dict(tally), *inertia))
        diff = tmodel.differences(got, want)
        ctx.eq(diff[:6], [], 'the updated model', model=before, tally=tally, inertia=inertia)
        ctx.eq(tmodel.invalid(got), [], 'the updated model can be used', model=before, tally=tally, inertia=inertia, updated=got)
        ctx.check(check_traffic_model_config(jcopy(got)), 'the updated model is accepted', model=before, tally=tally, inertia=inertia,
                  updated=got)
        ctx.count('updates')
        if k:
            ctx.count('updated models used again')
        ctx.count('negative or missing tallies', sum(1 for l in tmodel.labels(before) if tally.get(l, -1) < 0))
        for kind in before:
            p = tmodel.PREFIX[kind]
            h = before[kind]
            ctx.count('probabilities compared', sum(len(r) for part in ('transition_probability', 'emission_probability') for r in h[part].values()))
            for s, row in h['emission_probability'].items():
                if all(tally.get('%sEmissionCount_%s_%s' % (p, s, o), 0) <= 0 for o in row):
                    ctx.count('states without observations')
                for o in row:
                    if tmodel.delays(o, s) == 'rate' and tally.get('%sDelayTime_%s_%s' % (p, s, o), 0) <= 0:
                        ctx.count('rates without delays')
        seen.append(sorted((l, v > 0) for l, v in tally.items())[:40])
        before = got
    ctx.nontrivial(sorted(model), seen)
    ctx.sample({'model': model, 'updated': before})
