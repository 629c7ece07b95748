'''
The runner of the checks (Jython side): makes the cases, collects what the
monitors saw, and writes one JSON result per worker.
'''
import hashlib
import imp
import json
import os
import random
import sys
import traceback

import simenv
from simenv import real_time

import java.lang

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')

class CaseViolation(Exception):
    def __init__(self, what, witness):
        Exception.__init__(self, what)
        self.what, self.witness = what, witness

class Inconclusive(Exception):
    'the monitor could not decide this case'

def short(x, n=600):
    try:
        s = x if isinstance(x, str) else repr(x)
    except Exception as e:
        s = '<unprintable %s>' % e
    return s if len(s) <= n else s[:n] + '...(%d)' % len(s)

def derive_seed(*parts):
    return int(hashlib.sha256('|'.join([str(p) for p in parts])).hexdigest()[:15], 16)

def plain(x, depth=0):
    'a JSON-able copy'
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            return repr(x)
        return x
    if x is None or isinstance(x, (bool, int, long)):
        return x
    if isinstance(x, str):
        try:
            return x.decode('ascii')
        except UnicodeError:
            return repr(x)
    if isinstance(x, unicode):
        return x
    if depth > 6:
        return short(x, 200)
    if isinstance(x, dict):
        return dict((k if isinstance(k, basestring) else repr(k), plain(v, depth + 1)) for k, v in x.items())
    if isinstance(x, (list, tuple, set, frozenset)):
        x = list(x)
        r = [plain(v, depth + 1) for v in x[:60]]
        if len(x) > 60:
            r.append('...(%d items)' % len(x))
        return r
    return short(x, 200)

class Ctx(object):
    def __init__(self, mod, seed, tier):
        self.mod, self.seed, self.tier = mod, seed, tier
        self.quick = tier == 'quick'
        self.evaluations = 0
        self.keys = set()
        self.counts = {}
        self.samples = []
        self.violations = []
        self.known = []
        self.inconclusive = []
        self.index = None
        self.checks = 0
        self.scratch_dir = None

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def nontrivial(self, *key):
        'the case (or part of it) was one of these distinct, non-trivial ones'
        self.keys.add(hashlib.md5(repr(key)).hexdigest()[:12])

    def sample(self, obj, limit=3):
        if len(self.samples) < limit:
            self.samples.append(plain(obj))

    def check(self, cond, what, **witness):
        self.checks += 1
        if not cond:
            raise CaseViolation(what, witness)

    def eq(self, got, want, what, **witness):
        self.checks += 1
        if got != want:
            witness['got'], witness['want'] = got, want
            raise CaseViolation(what, witness)

    def close(self, got, want, what, rel=1e-9, abs_=1e-12, **witness):
        self.checks += 1
        ok = got == want or abs(got - want) <= max(abs_, rel * max(abs(got), abs(want)))
        if not ok:
            witness['got'], witness['want'] = got, want
            raise CaseViolation(what, witness)

    def must_raise(self, what, fn, *args, **kw):
        'fn must refuse with an ordinary exception'
        self.checks += 1
        try:
            r = fn(*args, **kw)
        except Exception as e:
            return e
        raise CaseViolation(what, {'returned': short(r), 'args': short(args)})

    def scratch(self):
        'a fresh scratch directory for this case'
        import tempfile
        d = tempfile.mkdtemp(prefix='case', dir=self.scratch_dir)
        return d

def load(pid):
    path = os.path.join(VERIF, 'checks', pid.lower() + '.py')
    sys.path.insert(0, os.path.join(VERIF, 'checks'))
    return imp.load_source('check_' + pid.lower(), path)

def from_repo(tb):
    'is the frame that raised (or one called by the check) in the code under test?'
    prefix = REPO.rstrip('/') + '/privcount/'
    frames = [fr[0] or '' for fr in traceback.extract_tb(tb)]
    if frames and (frames[-1].startswith(VERIF + '/checks/') or
                   (frames[-1].startswith(VERIF + '/lib/') and not frames[-1].endswith('simenv.py'))):
        return False
    return any(f.startswith(prefix) for f in frames)

def is_missing_data(e):
    '''did the check fail because a result of the code under test lacks something that it always has? (renamed attributes or
    functions do not count: they are no behaviour)'''
    if isinstance(e, (KeyError, IndexError, ValueError, AssertionError, ZeroDivisionError, OverflowError)):
        return True
    if isinstance(e, (AttributeError, TypeError)):
        return 'NoneType' in str(e)
    return isinstance(e, IOError) and e.errno == 2

def run_case(ctx, mod, i):
    ctx.index = i
    ctx.since = real_time()
    seed = derive_seed(mod.ID, ctx.seed, i)
    rng = random.Random(seed)
    simenv.reactor.reset(None)
    simenv.Rand.reset(seed ^ 0x5bd1e995)
    del simenv.EXITS[:]
    del simenv.URANDOM[:]
    if os.environ.get('VERIF_LOG'):
        simenv.set_logging(True)
    try:
        mod.case(ctx, rng, i)
    except CaseViolation as e:
        return {'index': i, 'what': e.what, 'witness': plain(e.witness)}
    except Inconclusive as e:
        ctx.inconclusive.append('case %d: %s' % (i, e))
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt,)):
            raise
        tb = sys.exc_info()[2]
        text = traceback.format_exc()
        if from_repo(tb):
            return {'index': i, 'what': 'unexpected %s in the code under test: %s' % (type(e).__name__, short(e, 300)),
                    'witness': {'traceback': text[-3000:]}}
        if is_missing_data(e):
            return {'index': i, 'what': 'the results do not have their usual form: %s: %s' % (type(e).__name__, short(e, 300)),
                    'witness': {'traceback': text[-3000:]}}
        raise
    except java.lang.OutOfMemoryError:
        raise
    except java.lang.Throwable as e:
        tb = sys.exc_info()[2]
        if from_repo(tb):
            return {'index': i, 'what': 'unexpected Java error in the code under test: %s' % short(e, 300),
                    'witness': {'traceback': ''.join(traceback.format_tb(tb))[-3000:]}}
        raise
    finally:
        ctx.evaluations += 1
    return None

def seen_enough(ctx, mod, nshards):
    'did this worker see its share of what has to be seen?'
    return len(ctx.keys) * nshards >= 1.3 * getattr(mod, 'MIN_DISTINCT', 2) and \
        all(ctx.counts.get(k, 0) * nshards >= n for k, n in getattr(mod, 'REQUIRE', {}).items())

def main(argv):
    pid, seed, tier, shard, nshards, out, only = argv[0], int(argv[1]), argv[2], int(argv[3]), int(argv[4]), argv[5], argv[6]
    start = real_time()
    mod = load(pid)
    ctx = Ctx(mod, seed, tier)
    ctx.scratch_dir = os.path.dirname(out)
    budget = (mod.QUICK if tier == 'quick' else mod.THOROUGH)
    result = {'error': None}
    truncated = False
    watch_for_hangs(ctx, mod, out, start, HANG if tier == 'quick' else 4 * HANG)
    try:
        if hasattr(mod, 'setup'):
            mod.setup(ctx)
        if only != '-':
            indexes = [int(only)]
        else:
            indexes = range(shard, budget['cases'], nshards)
        for i in indexes:
            used = real_time() - start
            # on a slow machine, go on until enough was seen
            if only == '-' and used > budget['seconds'] and (used > max(600, budget['seconds']) or seen_enough(ctx, mod, nshards)):
                truncated = True
                break
            v = run_case(ctx, mod, i)
            if v is not None:
                if os.environ.get('VERIF_LOG'):
                    v['witness']['log'] = [short(m[1], 200) for m in (simenv.LOG.keep or [])[-int(os.environ.get('VERIF_LOG_LINES', '12')):]]
                finding = None
                if hasattr(mod, 'classify'):
                    finding = mod.classify(v)
                if finding is not None and finding in known_findings(pid):
                    ctx.known.append(finding)
                else:
                    ctx.violations.append(v)
                    if len(ctx.violations) >= 3:
                        break
        if hasattr(mod, 'finish') and only == '-' and not ctx.violations:
            mod.finish(ctx)
    except CaseViolation as e:
        ctx.violations.append({'index': -1, 'what': e.what, 'witness': plain(e.witness)})
    except BaseException as e:
        result['error'] = traceback.format_exc()
    except java.lang.Throwable as e:
        result['error'] = 'java: %s\n%s' % (e, traceback.format_exc())
    ctx.since = None
    write_result(ctx, mod, out, result, truncated, start)

def write_result(ctx, mod, out, result, truncated, start):
    result.update({
        'evaluations': ctx.evaluations, 'keys': sorted(ctx.keys), 'counts': ctx.counts, 'checks': ctx.checks,
        'samples': ctx.samples, 'violations': ctx.violations, 'known': sorted(set(ctx.known)),
        'inconclusive': ctx.inconclusive[:5], 'n_inconclusive': len(ctx.inconclusive),
        'truncated': truncated, 'wall': real_time() - start,
        'rule': mod.RULE, 'level': mod.LEVEL, 'assumptions': mod.ASSUMPTIONS,
        'require': getattr(mod, 'REQUIRE', {}), 'min_distinct': getattr(mod, 'MIN_DISTINCT', 2),
    })
    with open(out + '.tmp', 'w') as f:
        json.dump(result, f)
    os.rename(out + '.tmp', out)

# the longest cases take a few seconds
HANG = int(os.environ.get('VERIF_HANG') or 240)

def watch_for_hangs(ctx, mod, out, start, limit):
    'a case that does not end, and is busy in the code under test, breaks its property'
    main_thread = java.lang.Thread.currentThread()
    ctx.since = None
    def where():
        frames = []
        for f in main_thread.getStackTrace():
            n = f.getFileName() or ''
            if n.startswith(REPO.rstrip('/') + '/privcount/') or '/' not in n and f.getClassName().startswith('privcount'):
                frames.append('%s %s:%d' % (f.getMethodName(), n, f.getLineNumber()))
        return frames
    class Watch(java.lang.Thread):
        def run(self):
            seen = 0
            while True:
                java.lang.Thread.sleep(1000)
                since = ctx.since
                if since is None or real_time() - since < limit:
                    seen = 0
                    continue
                frames = where()
                seen = seen + 1 if frames else 0
                if seen >= 5:
                    ctx.violations.append({'index': ctx.index, 'what': 'the code under test does not end',
                                           'witness': {'seconds': real_time() - since, 'busy in': frames[:12]}})
                    write_result(ctx, mod, out, {'error': None}, False, start)
                    java.lang.Runtime.getRuntime().halt(1)
    w = Watch()
    w.setDaemon(True)
    w.start()

def known_findings(pid):
    'the ids of the findings recorded for this property'
    ids = set()
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for line in open(path):
            w = line.split()
            if len(w) > 2 and w[0] == 'finding:' and w[1] == 'property=' + pid and w[2].startswith('id='):
                ids.add(w[2][3:])
    return ids

if __name__ == '__main__':
    main(sys.argv[1:])
