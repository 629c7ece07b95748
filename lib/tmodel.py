'''
Traffic models: random ones, the counters that they have, what a path through
a model counts, and how a tally changes a model. Written from the
documentation; nothing here uses the code under test.
'''
import math

from evsim import SINGLE

INF = float('inf')
PREFIX = {'packet_model': 'ExitStreamTrafficModel', 'stream_model': 'ExitCircuitTrafficModel'}
TOTAL = {'packet_model': 'StreamCount', 'stream_model': 'CircuitCount'}
SHARED = ['EmissionCount', 'TransitionCount', 'DelayTime', 'LogDelayTime', 'SquaredLogDelayTime']

def split(rng, n, zeros=False):
    'n numbers that sum to 1'
    if rng.random() < 0.4:
        w = [float(rng.choice([1, 1, 2, 4])) for _ in range(n)]
    else:
        w = [rng.random() + 1e-3 for _ in range(n)]
    if zeros and n > 1 and rng.random() < 0.4:
        w[rng.randrange(n)] = 0.0
    t = sum(w)
    return [x / t for x in w]

def delays(obs, state):
    'what is known of the delays: lognormal, exponential or nothing'
    if obs in '+-' or (obs == '$' and 'Dwell' in state):
        return 'log'
    if obs == '$' and 'Active' in state:
        return 'rate'
    return None

def rand_hmm(rng, kind):
    obs = ['+', '-', 'F'] if kind == 'packet_model' else ['$', 'F']
    n = rng.choice([1, 2, 3])
    if kind == 'packet_model':
        names = rng.choice([['m%ds%d' % (rng.randrange(3), k) for k in range(n)], ['Blabbing', 'Thinking', 'Waiting'][:n]])
        end = rng.choice(['m0sEnd', 'End'])
    else:
        names = rng.choice([['Active', 'Dwell'], ['ActiveA', 'DwellB', 'ActiveC'], ['Dwell1', 'Dwell2'], ['Active0']])
        end = 'End'
    states = names + ([end] if rng.random() < 0.8 else [])
    emit, trans = {}, {}
    for s in states:
        if s == end:
            emit[s] = {'F': [1.0]}
            trans[s] = {} if rng.random() < 0.6 else dict(zip(states, [0.0] * len(states)))
            continue
        o = rng.sample(obs[:-1], rng.randrange(1, len(obs)))
        if rng.random() < 0.2:
            o.append('F')
        emit[s] = {}
        for x, p in zip(o, split(rng, len(o))):
            if x == 'F':
                emit[s][x] = [p]
            elif delays(x, s) == 'rate':
                emit[s][x] = [p, 0.0, 0.0, rng.choice([0.5, 1e-3, 1e-6, 3.25e-7])]
            else:
                emit[s][x] = [p, rng.choice([3.0, 6.125, 13.99, 0.0]), rng.choice([0.01, 0.5, 2.075]), 0.0]
        to = [s2 for s2 in states if s2 == end or rng.random() < 0.8] or [s]
        trans[s] = dict(zip(to, split(rng, len(to), True)))
    first = [s for s in states if rng.random() < 0.7] or [states[0]]
    return {'state_space': states, 'observation_space': obs, 'start_probability': dict(zip(first, split(rng, len(first), True))),
            'transition_probability': trans, 'emission_probability': emit}

def rand_model(rng):
    kinds = rng.choice([['packet_model'], ['packet_model'], ['stream_model'], ['packet_model', 'stream_model']])
    return dict((k, rand_hmm(rng, k)) for k in kinds)

def labels(model):
    'the counters of a model, and the name that each has in the noise configuration'
    r = {}
    for kind in model:
        p, h = PREFIX[kind], model[kind]
        for x in SHARED + [TOTAL[kind]]:
            r[p + x] = p + x
        for s in h['emission_probability']:
            for o in h['emission_probability'][s]:
                what = ['EmissionCount']
                if delays(o, s) == 'log':
                    what += ['LogDelayTime', 'SquaredLogDelayTime']
                elif delays(o, s) == 'rate':
                    what += ['DelayTime']
                for x in what:
                    r['%s%s_%s_%s' % (p, x, s, o)] = '%s%s_<STATE>_<OBS>' % (p, x)
        for s in h['transition_probability']:
            for d, v in h['transition_probability'][s].items():
                if v > 0.0:
                    r['%sTransitionCount_%s_%s' % (p, s, d)] = p + 'TransitionCount_<SRCSTATE>_<DSTSTATE>'
        for s, v in h['start_probability'].items():
            if v > 0.0:
                r['%sTransitionCount_START_%s' % (p, s)] = p + 'TransitionCount_START_<STATE>'
    return r

def rand_path(rng, h):
    'observations [state, observation, delay] as the relay decodes them'
    states = h['state_space']
    def delay():
        return rng.choice([0, 1, 2, 3, 7, 20, 150, rng.randrange(10 ** 4), rng.randrange(10 ** 7), 10 ** 12])
    path = []
    s = rng.choice([x for x in states if x in h['start_probability']] or states)
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 12])):
        o = rng.choice(sorted(h['emission_probability'][s]))
        path.append([s, o, delay()])
        k = rng.random()
        if k < 0.03:
            path.append(rng.choice([[], [s], [s, o]]))
        elif k < 0.06:
            path.append([rng.choice(['elsewhere', s]), rng.choice(h['observation_space']), delay()])
        to = [d for d, v in h['transition_probability'][s].items() if v > 0.0]
        if to and rng.random() < 0.9:
            s = rng.choice(to)
        elif 'End' in s:
            break
        else:
            s = rng.choice(states)
    return path

def effect(kind, path):
    'what the path counts, of all conceivable counters'
    p = PREFIX[kind]
    e = {}
    def inc(name, n):
        e[(p + name, SINGLE)] = e.get((p + name, SINGLE), 0) + n
    inc(TOTAL[kind], 1)
    for i, x in enumerate(path):
        if len(x) < 3:
            continue
        s, o, d = x[:3]
        inc('EmissionCount', 1)
        inc('EmissionCount_%s_%s' % (s, o), 1)
        if delays(o, s) == 'log':
            l = int(math.floor(math.log(d) + 0.5)) if d >= 1 else 0
            for n in ('', '_%s_%s' % (s, o)):
                inc('LogDelayTime' + n, l)
                inc('SquaredLogDelayTime' + n, l * l)
        elif delays(o, s) == 'rate':
            for n in ('', '_%s_%s' % (s, o)):
                inc('DelayTime' + n, d)
        if i == 0:
            inc('TransitionCount_START_%s' % s, 1)
        if i + 1 < len(path) and len(path[i + 1]) >= 3:
            inc('TransitionCount', 1)
            inc('TransitionCount_%s_%s' % (s, path[i + 1][0]), 1)
    return e

def share(old, counts, inertia):
    'old probabilities, updated with counts'
    counts = dict((k, max(0.0, float(counts.get(k, 0)))) for k in old)
    t = sum(counts.values())
    new = dict((k, inertia * old[k] + (1 - inertia) * (counts[k] / t if t > 0 else 0.0)) for k in old)
    t = sum(new.values())
    return dict((k, new[k] / t) for k in new) if t > 0 else new

def update(model, tally, trans_inertia, emit_inertia):
    '''the updated model. The deviation of delays is a pair: what the definition says, and whether it is too small to be
    told from rounding and noise'''
    r = {}
    for kind in model:
        p, h = PREFIX[kind], model[kind]
        def t(name):
            return max(0.0, float(tally.get(p + name, 0)))
        new = {'state_space': h['state_space'], 'observation_space': h['observation_space']}
        new['start_probability'] = share(h['start_probability'],
                                         dict((s, t('TransitionCount_START_%s' % s)) for s in h['start_probability']), trans_inertia)
        new['transition_probability'] = {}
        for s, row in h['transition_probability'].items():
            new['transition_probability'][s] = share(row, dict((d, t('TransitionCount_%s_%s' % (s, d))) for d in row), trans_inertia)
        new['emission_probability'] = {}
        for s, row in h['emission_probability'].items():
            n = dict((o, t('EmissionCount_%s_%s' % (s, o))) for o in row)
            dp = share(dict((o, row[o][0]) for o in row), n, emit_inertia)
            out = new['emission_probability'][s] = {}
            for o in row:
                k = '_%s_%s' % (s, o)
                if delays(o, s) == 'log':
                    mean = t('LogDelayTime' + k) / n[o] if n[o] > 0 else 0.0
                    squares = t('SquaredLogDelayTime' + k)
                    var = squares / n[o] - mean * mean if n[o] > 0 and squares > 0 else 0.0
                    small = var < 0.1
                    sigma = emit_inertia * row[o][2] + (1 - emit_inertia) * (0.01 if small else math.sqrt(var))
                    vague = emit_inertia * row[o][2] + (1 - emit_inertia) * math.sqrt(var) if small and var > 1e-4 else sigma
                    out[o] = [dp[o], emit_inertia * row[o][1] + (1 - emit_inertia) * mean, (sigma, vague), 0.0]
                elif delays(o, s) == 'rate':
                    lam, d = row[o][3], t('DelayTime' + k)
                    if n[o] > 0 and d > 0:
                        lam = 1.0 / (emit_inertia / lam + (1 - emit_inertia) * d / n[o])
                    out[o] = [dp[o], 0.0, 0.0, lam]
                else:
                    out[o] = [dp[o]]
        r[kind] = new
    return r

def close(a, b, rel=1e-6):
    return abs(a - b) <= max(1e-12, rel * max(abs(a), abs(b)))

def differences(got, want, path=''):
    'where an updated model is not what update() says'
    if isinstance(want, dict):
        if not isinstance(got, dict) or sorted(got) != sorted(want):
            return [(path, got, want)]
        return [x for k in sorted(want) for x in differences(got[k], want[k], path + '/' + k)]
    if isinstance(want, list) and want and not isinstance(want[0], basestring):
        if not isinstance(got, (list, tuple)) or len(got) != len(want):
            return [(path, got, want)]
        return [x for k in range(len(want)) for x in differences(got[k], want[k], '%s/%d' % (path, k))]
    if isinstance(want, tuple):
        lo, hi = min(want), max(want)
        return [] if lo - 1e-9 <= got <= hi + 1e-9 or close(got, lo) or close(got, hi) else [(path, got, want)]
    if isinstance(want, float):
        return [] if isinstance(got, (int, float)) and close(got, want) else [(path, got, want)]
    return [] if got == want else [(path, got, want)]

def invalid(model):
    'what a relay or the next round would refuse'
    bad = []
    def one(what, values):
        if any(v < 0 or v != v for v in values) or abs(sum(values) - 1.0) > 1e-6:
            bad.append((what, values))
    for kind in model:
        h = model[kind]
        one((kind, 'start'), list(h['start_probability'].values()))
        for s, row in h['transition_probability'].items():
            if 'End' not in s:
                one((kind, 'transitions', s), list(row.values()))
        for s, row in h['emission_probability'].items():
            one((kind, 'emissions', s), [x[0] for x in row.values()])
            for o, x in row.items():
                if any(v != v or v in (INF, -INF) or v < 0 for v in x):
                    bad.append((kind, s, o, x))
    return bad

ALL_TEMPLATES = sorted(p + x for p in PREFIX.values() for x in
                       SHARED + ['EmissionCount_<STATE>_<OBS>', 'LogDelayTime_<STATE>_<OBS>', 'SquaredLogDelayTime_<STATE>_<OBS>',
                                 'DelayTime_<STATE>_<OBS>', 'TransitionCount_<SRCSTATE>_<DSTSTATE>', 'TransitionCount_START_<STATE>'])

def spoil(rng, model):
    'a model that is not valid, and why'
    m = dict((k, dict((p, _copy(v)) for p, v in model[k].items())) for k in model)
    kind = rng.choice(sorted(m))
    h = m[kind]
    s = rng.choice(sorted(h['emission_probability']))
    to = [x for x in h['transition_probability'] if 'End' not in x]
    how = rng.choice(['emissions', 'start', 'transitions', 'no transitions', 'key', 'start state', 'source', 'destination', 'emission state',
                      'space', 'unknown observation', 'parameters', 'empty'])
    off = rng.choice([0.01, -0.01, 1e-6, -1e-6, 0.5])
    if how == 'emissions':
        h['emission_probability'][s][sorted(h['emission_probability'][s])[0]][0] += off
    elif how == 'start':
        h['start_probability'][sorted(h['start_probability'])[0]] += off
    elif how == 'transitions':
        h['transition_probability'][to[0]][to[0]] = h['transition_probability'][to[0]].get(to[0], 0.0) + off
    elif how == 'no transitions':
        # (possible in end states only)
        for d in h['transition_probability'][to[0]]:
            h['transition_probability'][to[0]][d] = 0.0
    elif how == 'key':
        del h[rng.choice(['start_probability', 'transition_probability', 'emission_probability'])]
    elif how == 'start state':
        h['start_probability']['nowhere'] = 0.0
    elif how == 'source':
        h['transition_probability']['nowhere'] = {s: 1.0}
    elif how == 'destination':
        h['transition_probability'][to[0]]['nowhere'] = 0.0
    elif how == 'emission state':
        h['emission_probability']['nowhere'] = {'F': [1.0]}
    elif how == 'space':
        o = rng.choice(h['observation_space'])
        h['observation_space'] = [x for x in h['observation_space'] if x != o]
    elif how == 'unknown observation':
        h['emission_probability'][s]['$' if kind == 'packet_model' else '+'] = [0.0, 0.0, 0.0, 0.0]
    elif how == 'parameters':
        o = rng.choice(sorted(h['emission_probability'][s]))
        if rng.random() < 0.5:
            h['emission_probability'][s][o].append(0.0)
        elif o != 'F':
            h['emission_probability'][s][o] = h['emission_probability'][s][o][:rng.choice([1, 3])]
        else:
            h['emission_probability'][s][o] += [0.0, 0.0, 0.0]
    else:
        m = {}
    return how, m

def _copy(x):
    if isinstance(x, dict):
        return dict((k, _copy(v)) for k, v in x.items())
    if isinstance(x, list):
        return [_copy(v) for v in x]
    return x
