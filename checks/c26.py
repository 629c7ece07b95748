'''C26: list files, from the configuration of the tally server to the tally.'''
import hashlib
import json
import os

import c18, c19, c20, c21
import deploy
import evsim
from gen import *
from simenv import VTime, net, reactor

ID, LEVEL = 'C26', 'exploration'
RULE = ('a deployment that runs rounds while list files are changed, added, removed, reordered, made invalid or repaired, with events that '
        'match them or nearly do; distinct by the changes and the counters')
ASSUMPTIONS = ['relays are simulated; pyasn is not installed here: the prefix maps are looked up by a stand-in with its interface',
               'noise is forced to one sigma, blinding cancels as in C17']
QUICK = dict(cases=40, seconds=40)
THOROUGH = dict(cases=4000, seconds=1200)
REQUIRE = {'tallies compared': 30, 'events': 1500, 'changes accepted': 25, 'changes refused': 8, 'listed values': 200,
           'lists reordered or removed': 8, 'overlapping lists': 4, 'rounds after a refused change': 8}
MIN_DISTINCT = 12
M = 2 ** 70

FAMILIES = {'domain': 'domain_files', 'country': 'country_files', 'as': 'as_files', 'store': 'hsdir_store_files',
            'fetch': 'hsdir_fetch_files', 'failure': 'circuit_failure_files', 'onion': 'onion_address_files'}
# groups of items that overlap only among themselves
DOMAINS = [['example.com', 'www.example.com', 'a.b.example.com'], ['co.uk', 'b.co.uk', 'x.b.co.uk'], ['x'], ['foo.bar.baz'], ['my_site.org'],
           ['xn--a.net', 'c.xn--a.net'], ['test.example.net'], ['notexample.com'], ['1.2.example']]
REASONS = ['added', 'expired', 'future', 'unparseable', 'multiple', 'skewed', 'x1']

def one(s):
    return [[x] for x in s]

def groups(rng, fam):
    if fam == 'domain':
        g = [list(x) for x in DOMAINS]
    elif fam == 'country':
        g = one(['us', 'de', 'fr', 'ru', 'nl', '??', '!!', 'gb', 'se', 'a1'])
    elif fam == 'as':
        g = one(range(64500, 64508))
    elif fam in ('store', 'fetch'):
        g = one(REASONS)
    elif fam == 'failure':
        g = one(sorted(x.lower() for x in c19.FAILURES if x.isalpha()))
    else:
        # an address, or its obfuscated form
        g = one([a if rng.random() < 0.6 else hashlib.md5(a + '.onion').hexdigest() for a in c21.ADDRESSES])
    rng.shuffle(g)
    return g

def family_of(name):
    'the lists that a counter named *CountList is for'
    if name.startswith('ExitDomain'):
        return 'domain'
    if 'CountryMatch' in name:
        return 'country'
    if 'ASMatch' in name:
        return 'as'
    if name.endswith('FailureCircuitReasonCountList'):
        return 'failure'
    if name.startswith('HSDir'):
        if 'OnionAddress' in name:
            return 'onion'
        if name.endswith('ReasonCountList'):
            return 'store' if 'Store' in name else 'fetch'
    return None

def spelled(rng, fam, item):
    'an item as someone may write it in a file'
    s = str(item)
    if fam == 'onion':
        k = rng.random()
        if len(s) == 16:
            s = '%s%s%s%s' % (rng.choice(['', '', 'http://', 'https://']), rng.choice(['', '', 'www.']), s.upper() if k < 0.3 else s,
                              rng.choice(['', '.onion', '.onion/', '.onion/a/b.html']))
        elif k < 0.3:
            s = s.upper()
    elif fam != 'as' and rng.random() < 0.3:
        s = rng.choice([s.upper(), s.capitalize()])
    if fam == 'domain' and rng.random() < 0.2:
        s = rng.choice(['.' + s, s + '.'])
    return rng.choice(['', '', '', ' ', '\t']) + s + rng.choice(['', '', '', ' ', '\r'])

BAD = {'domain': ['exa mple.com!', '*.example.com', '.', 'a..example.com', '/x'], 'country': ['usa', 'u', '?u?', '(none)'],
       'as': ['0', '-1'], 'store': ['=x', 'a reason', 'too_old'], 'fetch': ['x=', 'no-match', '*'], 'failure': ['(x)', 'no_route'],
       'onion': ['short.onion', 'abcdefghijklmno1', 'a' * 56, '0' * 31, 'g' * 32, '.onion']}

class File(object):
    def __init__(self, path, fam):
        self.path, self.fam, self.items, self.valid = path, fam, [], True

    def write(self, rng, bad=False):
        lines = []
        for x in self.items:
            if rng.random() < 0.15:
                lines.append(rng.choice(['', '# comment', '// comment', '; comment', '   ', '#us']))
            lines.append(spelled(rng, self.fam, x))
            if rng.random() < 0.1:
                lines.append(lines[-1])
        self.valid = bool(self.items) and not bad
        if bad:
            lines.insert(rng.randrange(len(lines) + 1), rng.choice(BAD[self.fam]))
        f = open(self.path, 'w')
        f.write('\n'.join(lines) + rng.choice(['', '\n', '\n\n']))
        f.close()

def owners(lists):
    'which list each domain suffix is counted in: shorter suffixes first, then earlier lists'
    all_ = sorted(((d.count('.'), i, d) for i, l in enumerate(lists) for d in l))
    kept = {}
    for _, i, d in all_:
        if not any(d == s or d.endswith('.' + s) for s in kept):
            kept[d] = i
    return kept

def overlapping(fam, lists):
    if fam == 'domain':
        kept = owners(lists)
        return any(kept[s] != i for i, l in enumerate(lists) for d in l for s in kept if d == s or d.endswith('.' + s))
    return any(x in lists[j] for i, l in enumerate(lists) for x in l for j in range(i))

class State(object):
    'the configuration of the lists, on disk'
    def __init__(self, ctx, rng, dep):
        self.ctx, self.rng, self.dep, self.n = ctx, rng, dep, 0
        self.files = dict((f, []) for f in FAMILIES)
        self.maps = {}
        self.map_files = {}
        self.reject = True

    def file(self, fam):
        self.n += 1
        return File(os.path.join(self.dep.dir, '%s%d.txt' % (fam, self.n)), fam)

    def fresh(self, fam, overlap=False):
        rng = self.rng
        old, self.files[fam] = self.files[fam], []
        g = groups(rng, fam)
        lists = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            l = []
            for _ in range(min(len(g), rng.choice([1, 1, 2, 3]))):
                items = g.pop()
                l += rng.sample(items, rng.randrange(1, len(items) + 1))
            if l:
                rng.shuffle(l)
                lists.append(l)
        if overlap and lists:
            i = rng.randrange(len(lists))
            x = rng.choice(lists[rng.randrange(len(lists))])
            if fam == 'domain' and rng.random() < 0.7:
                x = rng.choice([d for s in DOMAINS if x in s for d in s])
            lists[i].insert(rng.randrange(len(lists[i]) + 1), x)
        for l in lists:
            f = old.pop(rng.randrange(len(old))) if old and rng.random() < 0.5 else self.file(fam)
            f.items = l
            f.write(rng)
            self.files[fam].append(f)

    def fresh_maps(self):
        rng = self.rng
        self.maps, self.map_files = {}, {}
        for v in '46':
            table = dict((p, rng.choice(range(64500, 64508))) for p in rng.sample(c20.PREFIXES[v], rng.randrange(1, len(c20.PREFIXES[v]) + 1)))
            self.n += 1
            p = os.path.join(self.dep.dir, 'prefix%s_%d.txt' % (v, self.n if rng.random() < 0.5 else 0))
            f = open(p, 'w')
            f.write(rng.choice(['', '; comment\n', '\n']) + '\n'.join('%s\t%d' % x for x in sorted(table.items())) + '\n')
            f.close()
            self.maps[v], self.map_files[v] = table, p

    def write(self):
        'the configuration file of the tally server'
        c = self.dep.ts_conf
        for fam, key in FAMILIES.items():
            c.pop(key, None)
            if self.files[fam] or self.rng.random() < 0.05:
                c[key] = [f.path for f in self.files[fam]]
        c.pop('as_prefix_files', None)
        if self.map_files:
            c['as_prefix_files'] = dict((int(v), self.map_files[v]) for v in self.map_files)
        c['reject_overlapping_lists'] = self.reject
        if self.reject and self.rng.random() < 0.5:
            del c['reject_overlapping_lists']
        known = evsim.known_names()
        pool = {}
        for n in known:
            if n.endswith('CountList') and self.files.get(family_of(n)):
                pool.setdefault(family_of(n), []).append(n)
        self.dep.bins = {'EntryConnectionCount': [[0.0, INF]]}
        for fam in pool:
            names = sorted(pool[fam])
            # (prefer ones that many events change)
            names.sort(key=len)
            for n in self.rng.sample(names[:12], min(3, len(names))) + self.rng.sample(names, 1):
                # (whatever bins are given are replaced)
                self.dep.bins[n] = evsim.make_bins(self.rng, n, [], n_lists=self.rng.choice([len(self.files[fam]), 1, 2, 5]))
        self.dep.write_ts()

    def valid(self):
        for fam in FAMILIES:
            for f in self.files[fam]:
                if not f.valid or not os.path.exists(f.path):
                    return False
            if self.reject and overlapping(fam, [f.items for f in self.files[fam]]):
                return False
        if len(self.map_files) == 1:
            return False
        return bool(self.files['as']) == bool(self.map_files)

    def lists(self):
        r = dict((fam, [list(f.items) for f in self.files[fam]]) for fam in FAMILIES)
        r['maps'] = jcopy(self.maps) if self.map_files else None
        r['counters'] = sorted(self.dep.bins)
        return r

    def repair(self):
        for fam in FAMILIES:
            if self.rng.random() < 0.6:
                self.fresh(fam)
            else:
                self.files[fam] = []
        self.maps, self.map_files = {}, {}
        if self.files['as']:
            self.fresh_maps()
        self.reject = self.rng.random() < 0.7

    def change(self):
        rng = self.rng
        used = [fam for fam in sorted(FAMILIES) if self.files[fam]]
        fam = rng.choice(used) if used else 'country'
        how = rng.choice(['edit', 'add', 'add', 'remove', 'remove', 'reorder', 'reorder', 'fresh', 'drop', 'bad', 'empty', 'missing', 'half maps',
                          'no maps', 'overlap', 'overlap', 'overlap allowed', 'overlap allowed', 'reject', 'rewrite', 'maps', 'twice', 'swap'])
        fs = self.files[fam]
        if how in ('remove', 'reorder') and len(fs) < 2:
            many = [f for f in used if len(self.files[f]) > 1]
            if not many:
                how = 'fresh'
            else:
                fam = rng.choice(many)
                fs = self.files[fam]
        if not fs:
            how = 'fresh'
        if how == 'edit' or how == 'add':
            taken = set(x for f in fs for x in f.items)
            g = [x for x in groups(rng, fam) if not taken & set(x)]
            if fam == 'onion':
                # (never both forms of an address)
                both = lambda x: set([x, hashlib.md5(x + '.onion').hexdigest()])
                g = [[a] for a in c21.ADDRESSES if not taken & both(a)]
            if not g:
                how = 'rewrite'
            elif how == 'edit':
                f = rng.choice(fs)
                f.items = f.items[:rng.randrange(len(f.items) + 1)] + rng.choice(g)
                f.write(rng)
            else:
                f = self.file(fam)
                f.items = list(rng.choice(g))
                f.write(rng)
                fs.insert(rng.randrange(len(fs) + 1), f)
        if how == 'remove':
            fs.pop(rng.randrange(len(fs)))
        elif how == 'reorder':
            old = list(fs)
            while old == fs:
                rng.shuffle(fs)
        elif how == 'swap':
            # the same lists, in files with exchanged names
            if len(fs) > 1:
                fs[0].items, fs[1].items = fs[1].items, fs[0].items
                fs[0].write(rng)
                fs[1].write(rng)
        elif how == 'fresh':
            fam = rng.choice(sorted(FAMILIES))
            self.fresh(fam)
            if fam == 'as' and not self.map_files:
                self.fresh_maps()
        elif how == 'drop':
            self.files[fam] = []
            if fam == 'as':
                self.maps, self.map_files = {}, {}
        elif how == 'bad':
            rng.choice(fs).write(rng, bad=True)
        elif how == 'empty':
            f = rng.choice(fs)
            f.items = []
            f.write(rng)
        elif how == 'missing':
            os.unlink(rng.choice(fs).path)
        elif how == 'half maps':
            if self.map_files:
                self.map_files.pop(rng.choice('46'), None)
            else:
                self.fresh_maps()
        elif how == 'no maps':
            self.map_files = {}
        elif how.startswith('overlap'):
            if how == 'overlap allowed':
                self.reject = False
            self.fresh(fam, overlap=True)
        elif how == 'twice':
            fs.append(rng.choice(fs))
        elif how == 'reject':
            self.reject = not self.reject
        elif how == 'rewrite':
            rng.choice(fs).write(rng)
        elif how == 'maps':
            if self.files['as']:
                self.fresh_maps()
        return how

def a_stream(rng, lists):
    s = c18.a_stream(rng, lists or [['example.com']], 1.5e9)
    if rng.random() < 0.8:
        s['port'], s['number'] = rng.choice([80, 443]), 1
        s['read'], s['write'] = rng.randrange(1, 1000), rng.randrange(1000)
        s['host'] = c18.a_host(rng, lists or [d for d in [DOMAINS[0]]])
        if lists and rng.random() < 0.15:
            # (it may be in one list, and below a name in another)
            s['host'] = rng.choice(rng.choice(lists))
        while s['host'] in c18.NOT_IPS:
            s['host'] = c18.a_host(rng, lists or [d for d in [DOMAINS[0]]])
    s['chan'] = 5
    kept = owners(lists)
    e = c18.reference(s, lists, True, False)
    virtual = [[d for d in kept if kept[d] == i] for i in range(len(lists))]
    for (n, v), inc in c18.reference(s, virtual, False, True).items():
        if 'Suffix' in n:
            e[(n, v)] = inc
    return 'PRIVCOUNT_STREAM_ENDED', c18.wire(s), e

def make_event(rng, L):
    k = rng.choice(['stream', 'connection', 'connection', 'hsdir', 'hsdir', 'circuit'])
    if k == 'stream':
        return a_stream(rng, L['domain'])
    if k == 'connection':
        f = c20.connection(rng)
        return 'PRIVCOUNT_CONNECTION_CLOSE', evsim.tagged(rng, f), c20.reference(f, L['country'], L['maps'], L['as'])[0]
    if k == 'hsdir':
        lists = {'STORE': L['store'], 'FETCH': L['fetch'], 'ONION': L['onion']}
        kind, f = c21.event(rng, lists)
        return 'PRIVCOUNT_HSDIR_CACHE_' + kind, evsim.tagged(rng, f), c21.reference(kind, f, lists)
    f = c19.circuit(rng)
    if f.get('IsLegacyCircuitEndEventFlag') == '1':
        f['IsLegacyCircuitEndEventFlag'] = '0'
    return 'PRIVCOUNT_CIRCUIT_CLOSE', evsim.tagged(rng, f), c19.reference(f, L['failure'])

def case(ctx, rng, i):
    net.rng, net.max_latency, net.fragment = rng, 0.0, False
    dep = deploy.Deployment(ctx, rng, 1, 1, ['EntryConnectionCount'], collect_period=110)
    st = State(ctx, rng, dep)
    st.repair()
    if not any(st.files.values()):
        st.fresh('country')
    st.write()
    ctx.check(st.valid(), 'the harness starts with valid lists', files=st.lists())
    accepted = st.lists()
    for n in rng.sample(dep.nodes, len(dep.nodes)):
        n.start()
    dc = [n for n in dep.nodes if n.kind == 'dc'][0]
    seen = set()
    history = [('start', st.reject, accepted)]
    refused = False

    def run(seconds, L):
        end = VTime.now + seconds
        while VTime.now < end - 1e-6:
            if dc.counting:
                for _ in range(rng.choice([0, 1, 2, 3])):
                    code, items, e = make_event(rng, L)
                    dep.effects[' '.join(['650', code] + items)] = e
                    if dep.relays[dc.name].emit(code, items):
                        ctx.count('events')
                    for n, v in e:
                        if n in L['counters'] and n.endswith('CountList') and v != INF:
                            ctx.count('listed values')
            reactor.advance(1.0)

    hows = []
    for _ in range(rng.choice([2, 4, 6])):
        for _ in range(120):
            if dc.counting:
                break
            reactor.advance(1.0)
        ctx.check(dc.counting, 'a round starts', history=history[-4:], log=dep.log[-20:])
        L = accepted
        run(8, L)
        for _ in range(rng.choice([1, 1, 2])):
            if not st.valid() and rng.random() < 0.6:
                st.repair()
                how = 'repair'
            else:
                how = st.change()
            st.write()
            ok = st.valid()
            history.append((how, ok, st.reject, st.lists()))
            hows.append(how)
            if ok:
                accepted = st.lists()
                if how in ('reorder', 'remove'):
                    ctx.count('lists reordered or removed')
                if any(overlapping(fam, accepted[fam]) for fam in FAMILIES):
                    ctx.count('overlapping lists')
            refused = not ok
            ctx.count('changes accepted' if ok else 'changes refused')
            run(13, L)
        ctx.check(dc.counting, 'the round goes on while the configuration is changed', history=history[-4:], log=dep.log[-20:])
        for _ in range(40):
            run(5, L)
            new = [f for f in dep.outcomes() if f not in seen and f.startswith('privcount.outcome')]
            if new:
                break
        ctx.check(len(new) == 1, 'the round ends', history=history[-4:], log=dep.log[-20:], new=new)
        seen.update(new)
        out = json.load(open(os.path.join(dep.results, new[0])))
        ctx.check('Tally' in out, 'the round has a tally', history=history[-4:], log=dep.log[-20:])
        tally = out['Tally']
        ctx.eq(sorted(n for n in tally if n != 'ZeroCount'), L['counters'], 'the counters of the round', history=history[-4:])
        bins = dict((k, [[float(b[0]), float(b[1])] for b in tally[k]['bins']]) for k in tally)
        for k in bins:
            if k.endswith('CountList'):
                n = len(L[family_of(k)])
                ctx.eq(bins[k], [[float(j), j + 1.0] for j in range(n)] + [[float(n), INF]], 'one bin for each list, and one for no match',
                       counter=k, history=history[-4:])
        noise = out['Context']['TallyServer']['Config']['noise']['counters']
        sent, dep.sent_counts = dep.sent_counts, {}
        total = sent.get(dc.name, {})
        got = dict(((k, b), (v[2] - int(noise[k]['sigma'])) % M) for k in tally for b, v in enumerate(tally[k]['bins']))
        evsim.compare(ctx, bins, got, total, 'the tally of the round against the lists', lists=L, history=history[-4:])
        ctx.count('tallies compared')
        if refused:
            ctx.count('rounds after a refused change')
    ctx.eq(dep.ended, [], 'no node ends by itself', history=history[-4:], log=dep.log[-20:])
    ctx.nontrivial(hows, sorted(accepted['counters']))
    ctx.sample({'history': history[:3]})
