#!/usr/bin/env python3
'''
python3 run.py <property> [--tier quick|thorough] [--seed N] [--replay FILE]

Runs the check of one property: spawns the Jython workers, merges what their
monitors saw, rewrites evidence/<property>.json.
Exit 0: held on everything explored. Exit 1, with a VIOLATION line: broken.
Exit 2: inconclusive (the monitors could not decide, or were not reached).
'''
import argparse, json, os, shutil, signal, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('--workers', type=int)
    a = ap.parse_args()
    pid = a.property
    only = a.only or '-'
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        a.seed, a.tier, only = r['seed'], r['tier'], str(r['index']) if r['index'] >= 0 else '-'
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    start = time.time()
    limit = 800 if a.tier == 'quick' else 4 * 3600
    n = 1 if only != '-' else (a.workers or int(os.environ.get('VERIF_WORKERS') or min(6, max(2, (os.cpu_count() or 4) - 2))))
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    results, procs = [], []
    try:
        for s in range(n):
            out = os.path.join(scratch, 'w%d' % s, 'out.json')
            os.makedirs(os.path.dirname(out))
            env = dict(os.environ)
            if not env.get('VERIF_REPO'):
                env.pop('VERIF_REPO', None)
            # short runs do not pay back the optimising compiler
            env.setdefault('VERIF_TIERED', '1' if a.tier == 'quick' else '4')
            log = open(os.path.join(scratch, 'w%d.log' % s), 'w+')
            p = subprocess.Popen(['bash', os.path.join(V, 'lib', 'jython.sh'), os.path.join(V, 'lib', 'vf.py'),
                                  pid, str(a.seed), a.tier, str(s), str(n), out, only],
                                 stdout=log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=env,
                                 cwd=os.path.dirname(out), start_new_session=True)
            procs.append((p, out, log))
        for p, out, log in procs:
            left = limit - (time.time() - start)
            timed_out = False
            try:
                p.wait(timeout=max(1, left))
            except subprocess.TimeoutExpired:
                timed_out = True
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
            log.seek(0)
            text = log.read()
            if os.path.exists(out):
                with open(out) as f:
                    r = json.load(f)
                r['log'] = text[-2000:]
            else:
                r = {'error': ('timed out\n' if timed_out else 'worker ended with %s\n' % p.returncode) + text[-4000:]}
            results.append(r)
    finally:
        for p, _, _ in procs:
            if p.poll() is None:
                os.killpg(p.pid, signal.SIGKILL)
        shutil.rmtree(scratch, ignore_errors=True)
    return report(a, pid, results, time.time() - start, only)

def report(a, pid, results, wall, only):
    ok = [r for r in results if 'evaluations' in r]
    errors = [r['error'] for r in results if r.get('error')]
    violations = [v for r in ok for v in r['violations']]
    known = sorted({k for r in ok for k in r['known']})
    counts = {}
    for r in ok:
        for k, v in r['counts'].items():
            counts[k] = counts.get(k, 0) + v
    keys = {k for r in ok for k in r['keys']}
    evaluations = sum(r['evaluations'] for r in ok)
    n_inc = sum(r['n_inconclusive'] for r in ok)
    info = ok[0] if ok else {}
    problems = list(errors)
    # everything was tried, but what must follow was not seen
    complete = not errors and not any(r['truncated'] for r in ok)
    if only == '-' and ok and not violations:
        for name, least in info['require'].items():
            if counts.get(name, 0) < least and complete:
                violations.append({'index': -1, 'what': 'after all of the workload, the monitors saw %s only %d times, and not at least %d'
                                   % (name, counts.get(name, 0), least), 'witness': {'observed': counts}})
            elif counts.get(name, 0) < least:
                problems.append('the monitors saw %s %r, at least %s are needed' % (counts.get(name, 0), name, least))
        if len(keys) < info['min_distinct']:
            problems.append('only %d distinct non-trivial cases, %d are needed' % (len(keys), info['min_distinct']))
        if n_inc > evaluations * 0.2:
            problems.append('%d of %d cases could not be decided: %s' % (n_inc, evaluations, info['inconclusive']))
    samples = [s for r in ok for s in r['samples']][:4]
    replays = []
    if violations:
        d = os.path.join(V, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        for i, v in enumerate(violations[:5]):
            path = os.path.join(d, '%s-%d-%d.json' % (pid, a.seed, v['index']))
            with open(path, 'w') as f:
                json.dump({'property': pid, 'seed': a.seed, 'tier': a.tier, 'index': v['index'], 'what': v['what'],
                           'witness': v['witness']}, f, indent=1)
            replays.append(path)
    if only == '-':
        evidence = {
            'property': pid, 'tier': a.tier, 'seed': a.seed, 'level': info.get('level', 'exploration'),
            'coverage': {'evaluations': evaluations, 'distinct_nontrivial': len(keys),
                         'rule': info.get('rule', ''), 'samples': samples or ['none'],
                         'oracle_comparisons': sum(r['checks'] for r in ok),
                         'observed': dict(sorted(counts.items())),
                         'undecided_cases': n_inc, 'workers': len(results),
                         'stopped_by_time': sum(1 for r in ok if r['truncated'])},
            'assumptions': info.get('assumptions', []), 'wall_s': round(wall, 2), 'violations': len(violations)}
        with open(os.path.join(V, 'evidence', pid + '.json'), 'w') as f:
            json.dump(evidence, f, indent=1)
            f.write('\n')
    print('%s: %d cases, %d distinct non-trivial, %d oracle comparisons, %.1fs' %
          (pid, evaluations, len(keys), sum(r['checks'] for r in ok), wall))
    for k, v in sorted(counts.items()):
        print('  observed %s: %d' % (k, v))
    texts = {}
    path = os.path.join(V, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for line in open(path):
            w = line.split(None, 3)
            if len(w) == 4 and w[0] == 'finding:' and w[1] == 'property=' + pid:
                texts[w[2][3:]] = w[3].strip()
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, texts.get(k, k)))
    if violations:
        for v, path in zip(violations, replays):
            print('  %s' % v['what'])
            print('    %s' % json.dumps(v['witness'])[:1500])
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if problems:
        print('INCONCLUSIVE %s' % pid)
        for p in problems[:3]:
            print(p)
        return 2
    return 0

if __name__ == '__main__':
    sys.exit(main())
