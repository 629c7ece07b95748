'''C37: results as text and graphs.'''
import argparse
import json
import math
import os
import re
import shutil
import sys
import types

import simenv
from gen import *

ID, LEVEL = 'C37', 'exploration'
RULE = ('random sets of one to three outcome or tallies files, with and without privacy budgets, sigmas and label sources, and all options of '
        'the plot command; the drawing library is replaced by one that records what is drawn; distinct by the options and the values')
ASSUMPTIONS = ['matplotlib is not installed here: a stand-in records bars, errors, labels and titles',
               'files that are compared have the same bins and labels for each counter that they share']
QUICK = dict(cases=2500, seconds=20)
THOROUGH = dict(cases=100000, seconds=600)
REQUIRE = {'text files': 400, 'graphs': 400, 'bins in text': 4000, 'bars': 4000, 'totals': 200, 'confidence intervals': 1500, 'bins left out': 500,
           'labelled bins': 500, 'outcomes without a privacy budget': 100}
MIN_DISTINCT = 300
MAX = 10 ** 18

# ------------------------------------------------ a drawing library that records

class Vec(list):
    def __add__(self, o):
        return Vec(x + o for x in self)

class Axis(object):
    def __init__(self):
        self.bars, self.title, self.ticks, self.ylabel = [], None, None, None

    def bar(self, x, height, width, yerr=None, color=None, error_kw=None):
        self.bars.append(dict(x=list(x), height=list(height), width=width, yerr=yerr, color=color))
        return [('bar', len(self.bars) - 1)]

    def set_title(self, t):
        self.title = t

    def set_ylabel(self, t):
        pass

    set_xlabel = set_ylabel

    def set_xticks(self, t):
        self.where = list(t)

    def set_xticklabels(self, t):
        self.ticks = list(t)
        return []

    def set_xlim(self, a, b):
        self.xlim = (a, b)

    def get_yticklabels(self):
        return []

    def legend(self, bars, labels):
        self.legend_ = (list(bars), list(labels))

class Drawing(object):
    'what was drawn since the last reset'
    def __init__(self):
        self.pages, self.axis, self.saved, self.closed = [], None, None, 0

D = Drawing()

class Pages(object):
    def __init__(self, path):
        D.saved = path

    def savefig(self):
        D.pages.append(D.axis)

    def close(self):
        D.closed += 1

class Figure(object):
    def add_subplot(self, n):
        D.axis = Axis()
        return D.axis

def install():
    m, b, p, y = [types.ModuleType(n) for n in ('matplotlib', 'matplotlib.backends', 'matplotlib.backends.backend_pdf', 'pylab')]
    m.use = lambda *a, **k: None
    m.backends, b.backend_pdf, p.PdfPages = b, p, Pages
    m.pyplot = y
    y.rcParams = {}
    y.arange = lambda n: Vec(range(n))
    y.figure = lambda *a, **k: Figure()
    y.setp = lambda *a, **k: None
    y.close = lambda *a, **k: None
    for k, v in (('matplotlib', m), ('matplotlib.backends', b), ('matplotlib.backends.backend_pdf', p), ('pylab', y), ('matplotlib.pyplot', y)):
        sys.modules[k] = v

install()
from privcount import plot as P
from privcount.counter import get_valid_counters

def setup(ctx):
    simenv.set_logging(False)

# ------------------------------------------------------------------- inputs

NAMES = ['ExitStreamCount', 'EntryConnectionCount', 'ExitCircuitLifeTime', 'ExitStreamByteRatio', 'ZeroCount', 'HSDir2StoreAddCountX']
FAMILIES = [('circuit_failure', r'FailureCircuitReasonCountList$'), ('hsdir_store', r'^HSDir\d?Store.*ReasonCountList$'),
            ('hsdir_fetch', r'^HSDir\d?Fetch.*ReasonCountList$'), ('onion_address', r'^HSDir.*OnionAddressCountList$'),
            ('domain', r'^ExitDomain.*CountList$'), ('country', r'CountryMatch.*CountList$'), ('as', r'ASMatch.*CountList$')]
LISTS = {}
for _n in sorted(get_valid_counters()):
    if _n.endswith('CountList'):
        LISTS[_n] = [f for f, r in FAMILIES if re.search(r, _n)][0]
OF_FAMILY = dict((f, [n for n in sorted(LISTS) if LISTS[n] == f]) for f, _ in FAMILIES)

def value(rng):
    k = rng.random()
    n = rng.choice([0, 1, 3, 17, 10, 20, 40, 100, 1000, 10 ** 6, rng.randrange(10 ** 5)])
    if k < 0.25:
        return -n
    if k < 0.3:
        return rng.choice([MAX, MAX + 1, MAX - 1, 3 * MAX, -MAX, -2 * MAX])
    return n

class Spec(object):
    'the counters that the files have'
    def __init__(self, rng):
        self.counters = {}
        self.lists = {}
        for name in rng.sample(NAMES, rng.randrange(1, 4)) + [rng.choice(OF_FAMILY[f]) for f in rng.sample(sorted(OF_FAMILY), rng.randrange(3))]:
            if name == 'ZeroCount':
                bins = [[-INF, INF]]
            elif name in LISTS:
                fam = LISTS[name]
                if fam not in self.lists:
                    n = rng.choice([1, 2, 4])
                    self.lists[fam] = [(rng.choice(['/data/%s-%d.txt', '/data.d/%s%d', 'relative/%s%d.txt', '/x/a.b.%s%d.txt']) % (fam, i),
                                        rng.choice(["'%s%d' (1)", "'%s%d....zz' (3)", "'%s-%d....y' (11)", "'a rather long name of %s %d' (1)"]) % (fam, i))
                                       for i in range(n)]
                n = len(self.lists[fam])
                bins = [[float(i), float(i + 1)] for i in range(n)] + [[float(n), INF]]
            elif name.endswith('Count'):
                bins = [[0.0, INF]]
            else:
                bins = rand_bins(rng, rng.choice([1, 2, 3, 6]))
                if rng.random() < 0.2:
                    bins[0][0] = -INF
            self.counters[name] = bins

def labels_of(spec, name, how):
    'the labels of the bins of a counter, if it has any'
    if name not in LISTS:
        return None
    r = []
    for f, c in spec.lists[LISTS[name]]:
        if how == 'file':
            if f.startswith('/'):
                f = f.split('/')[-1]
                if '.' in f:
                    f = f[:f.rindex('.')]
            r.append(f)
        else:
            r.append(c[1:-5] if c.endswith("' (1)") else c)
    return r + ['(unmatched)']

def make_file(ctx, rng, spec, path):
    'a file, and what it has'
    names = [n for n in sorted(spec.counters) if rng.random() < 0.9] or [rng.choice(sorted(spec.counters))]
    values = dict((n, [value(rng) for _ in spec.counters[n]]) for n in names)
    tally = dict((n, {'bins': [[l, r, v] for (l, r), v in zip(spec.counters[n], values[n])]}) for n in names)
    sigmas = dict((n, rng.choice([0.0, None, 0.4, 10.0, 10.0, 123.456, 1e4, 1e17 if rng.random() < 0.3 else 5.5])) for n in names)
    kind = rng.choice(['outcome', 'outcome', 'tallies', 'tallies with sigmas'])
    ratio = 3.0
    if kind == 'outcome':
        config = {'noise': {'counters': dict((n, {} if sigmas[n] is None else {'sigma': sigmas[n]}) for n in names)}}
        if rng.random() < 0.6:
            ratio = rng.choice([1.0, 4.0, 2.5, 3.0, 7, 0.0])
            config['noise']['privacy'] = {'epsilon': 0.3, 'excess_noise_ratio': ratio}
            if rng.random() < 0.2:
                del config['noise']['privacy']['excess_noise_ratio']
                ratio = 3.0
        else:
            ctx.count('outcomes without a privacy budget')
        for fam in spec.lists:
            config[fam + '_files'] = [f for f, _ in spec.lists[fam]]
            config['as_raw_lists' if fam == 'as' else fam + '_lists'] = [c for _, c in spec.lists[fam]]
        content = {'Tally': tally, 'Context': {'TallyServer': {'Config': config}}}
        if rng.random() < 0.3:
            content['Time'] = {'Start': 5}
    else:
        for n in names:
            if kind == 'tallies with sigmas' and sigmas[n] is not None:
                tally[n]['sigma'] = sigmas[n]
        if kind == 'tallies':
            sigmas = dict.fromkeys(names)
        content = tally
    f = open(path, 'w')
    json.dump(content, f)
    f.close()
    variance = dict((n, None if not sigmas[n] or not ratio else ratio * sigmas[n] ** 2) for n in names)
    return dict(path=path, kind=kind, names=names, values=values, variance=variance)

# ---------------------------------------------------------------- reference

def near(e, x):
    'is the whole number e a rounding of x?'
    return abs(e - x) <= 0.5 + 1e-9 * x

class Bin(object):
    pass

def expected(spec, files, labels, o):
    'the series (experiment, counter, bins) that are to be shown, in order'
    series = []
    for f, label in zip(files, labels):
        for n in f['names']:
            series.append([label, n, f['values'][n], f['variance'][n]])
    if o['totals']:
        order = []
        for s in series:
            if s[1] not in order:
                order.append(s[1])
        total = []
        for n in order:
            same = [s for s in series if s[1] == n]
            total.append(['total', n, [sum(x) for x in zip(*[s[2] for s in same])],
                          None if None in [s[3] for s in same] else sum(s[3] for s in same)])
        series += total
    out = []
    for label, n, values, variance in series:
        k = o['stddev']
        error = float(k) * math.sqrt(variance) if variance is not None and float(k) > 0 else None
        if exact(error):
            error = float(round(error))
        bins = []
        for j, v in enumerate(values):
            b = Bin()
            b.left, b.right = spec.counters[n][j]
            b.value, b.error = v, error
            b.noisy = error is not None and (v == 0 or error >= abs(v))
            b.zero = v - (error or 0) <= 0
            bins.append(b)
        out.append((label, n, bins, error))
    return out

def exact(error):
    'is rounding of no importance?'
    return error is not None and error < 1e9 and abs(error - round(error)) < 1e-9

def unclear(out):
    'is a decision so close that rounding matters?'
    for _, _, bins, error in out:
        if error is not None and not exact(error) and any(abs(abs(b.value) - error) <= 1.01 + 1e-9 * error for b in bins):
            return True
    return False

def clamp(x, zero):
    x = min(x, MAX)
    return max(x, 0) if zero else x

def case(ctx, rng, i):
    d = os.path.join(os.getcwd(), 'c37-%d' % i)
    os.mkdir(d)
    here = os.getcwd()
    try:
        run(ctx, rng, i, d)
    finally:
        shutil.rmtree(d)

def run(ctx, rng, i, d):
    global D
    D = Drawing()
    spec = Spec(rng)
    n = rng.choice([1, 1, 2, 2, 3])
    files = [make_file(ctx, rng, spec, os.path.join(d, 'f%d.json' % k)) for k in range(n)]
    labels = ['test %d' % k for k in range(n)]
    o = dict(totals=rng.random() < 0.35, stddev=rng.choice(['2', '2', '0', '1', '1.96', '3', '0.5', '10', '0.0']), zero=rng.random() < 0.4,
             noisy=rng.random() < 0.3, ignore_zero=rng.random() < 0.3)
    argv = []
    given = []
    flags = [rng.choice(['-o', '--outcome', '-t', '-d']) for _ in files] if rng.random() < 0.3 else ['-o'] * n
    for f, l, flag in zip(files, labels, flags):
        argv.append([flag, f['path'], l])
    order = sorted(range(n), key=lambda k: ['-d', '-t', '-o', '--outcome'].index(flags[k]) if flags[k] != '--outcome' else 2)
    files, labels = [files[k] for k in order], [labels[k] for k in order]
    if o['totals']:
        argv.append([rng.choice(['-a', '--totals'])])
    if o['stddev'] != '2' or rng.random() < 0.3:
        argv.append([rng.choice(['-c', '--confidence']), o['stddev']])
    if o['zero']:
        argv.append(['-z'])
    if o['noisy']:
        argv.append(['-n'])
    if o['ignore_zero']:
        argv.append(['-i'])
    how = rng.choice(['range', 'range', 'file', 'content', 'custom'])
    custom = None
    sizes = set(len(b) for b in spec.counters.values())
    if how in ('file', 'content') and spec.lists and any(f['kind'] != 'outcome' for f in files):
        # (the labels of the files have to be the same)
        how = 'range'
    if how == 'custom' and len(sizes) > 1:
        how = 'range'
    if how == 'custom':
        size = sizes.pop()
        custom = ['label %d' % k if rng.random() < 0.5 else 'a long label of bin number %d' % k for k in range(size)]
        k = rng.choice([size, size, max(1, size - 1)])
        f = open(os.path.join(d, 'labels.txt'), 'w')
        f.write('\n'.join(custom[:k]) + '\n')
        f.close()
        custom = custom[:k] + ['(unmatched)'] * (size - k)
        argv.append(['-b', os.path.join(d, 'labels.txt')])
    elif how != 'range' or rng.random() < 0.2:
        argv.append(['--bin-labels', how])
    colours = P.LINEFORMATS.split(',')
    if rng.random() < 0.3:
        colours = rng.sample(['r', 'b--', 'g', 'k:'], rng.randrange(1, 4))
        argv.append(['-f', ','.join(colours)])
    no_pdf, no_text = rng.random() < 0.15, rng.random() < 0.15
    if no_pdf:
        argv.append(['-w'])
    if no_text:
        argv.append(['-x'])
    prefix = os.path.join(d, 'out')
    fixed, rest = argv[:n], argv[n:]
    rng.shuffle(rest)
    argv = [a for x in fixed + rest + [['-p', prefix]] for a in x]
    parser = argparse.ArgumentParser()
    P.add_plot_args(parser)
    out = expected(spec, files, labels, o)
    w = dict(options=argv, files=[dict(f, path=None) for f in files])
    if unclear(out):
        ctx.count('decisions that depend on rounding')
        return
    P.run_plot(parser.parse_args(argv))

    # which bins are shown
    shown = []
    for label, name, bins, error in out:
        same = [s for s in out if s[1] == name]
        keep = [not (o['noisy'] or o['ignore_zero']) or
                any(not (o['noisy'] and s[2][j].noisy) and not (o['ignore_zero'] and s[2][j].zero) for s in same) for j in range(len(bins))]
        if any(keep):
            shown.append((label, name, bins, error, keep))
        ctx.count('bins left out', keep.count(False))
    ctx.count('totals', len([1 for s in shown if s[0] == 'total' and o['totals']]))
    for _, name, bins, error, keep in shown:
        if custom:
            l = custom
        else:
            l = labels_of(spec, name, how) if how != 'range' else None
            if l is not None and not [f for f in files if f['kind'] == 'outcome']:
                l = None
        for j, b in enumerate(bins):
            b.label = l[j] if l else None
            ctx.count('labelled bins', 1 if l else 0)

    text_path, pdf_path = prefix + '.privcount.results.txt', prefix + '.privcount.results.pdf'
    ctx.eq(os.path.exists(text_path), not no_text, 'whether there is a text file', **w)
    ctx.eq(D.saved, None if no_pdf else pdf_path, 'whether there is a PDF file', **w)
    if not no_text:
        text(ctx, text_path, shown, o, w)
    if not no_pdf:
        graphs(ctx, shown, colours, o, w)
    ctx.nontrivial(tuple(a for a in argv if not a.startswith('/')), tuple(repr(sorted(f['values'].items())) for f in files))
    if i % 100 == 0:
        ctx.sample(w)

def title(ctx, got, label, o, error, sigma, w):
    'the name of an experiment, with its confidence interval'
    if error is None:
        ctx.eq(got, label, 'the name of the experiment', **w)
        return
    m = re.match(r'^(.*) \((\S+) (\S+) = ([0-9.]+)% CI\)$', got)
    ctx.check(m is not None, 'the experiment has a confidence interval', text=got, **w)
    ctx.eq(m.group(1, 2, 3), (label, o['stddev'], sigma), 'the name of the experiment, and its confidence interval', **w)
    p = 100 * math.erf(float(o['stddev']) / math.sqrt(2))
    ctx.check(abs(float(m.group(4)) - p) <= 0.1 * (100 - p) + 1e-6, 'the probability of the confidence interval', text=got, expected=p, **w)
    ctx.count('confidence intervals')

LINE = re.compile(r"^(\S+) \[ *([-0-9.inf]+), *([-0-9.inf]+)\)(?: '(.*)')? = +(-?\d+|-?\d+L?)(?: \+- (\d+) \( *([0-9.]+|inf)%\))? "
                  r"\( *(visible|obscured), *(zero|positive)\)(?: bound: +(-?\d+)(?: \[ *(-?\d+), *(-?\d+)\])? \(([a-z, ]+)\))?$")

def text(ctx, path, shown, o, w):
    f = open(path)
    lines = f.read().split('\n')
    f.close()
    ctx.eq(lines.pop(), '', 'the text file ends with a line', **w)
    previous = None
    for label, name, bins, error, keep in shown:
        head = (label, error is not None)
        if head != previous:
            got = lines.pop(0)
            ctx.check(got.startswith('Experiment Label: '), 'the start of an experiment', text=got, **w)
            title(ctx, got[18:], label, o, error, 'sigma', w)
            previous = head
        for b, k in zip(bins, keep):
            if not k:
                continue
            ctx.check(lines, 'a line for each bin', counter=name, **w)
            got = lines.pop(0)
            m = LINE.match(got)
            v = dict(w, text=got, counter=name, label=b.label, value=b.value)
            ctx.check(m is not None, 'the form of a bin', **v)
            g = m.groups()
            ctx.eq(g[0], name, 'the counter', **v)
            ctx.check(float(g[1]) == float('%.1f' % b.left) and float(g[2]) == float('%.1f' % b.right), 'the range of the bin', left=b.left,
                      right=b.right, **v)
            ctx.eq(g[3], b.label, 'the label of the bin', **v)
            ctx.eq(int(g[4]), b.value, 'the value of the bin', **v)
            if error is None:
                ctx.eq(g[5:7], (None, None), 'no error where there is no noise', **v)
                e = 0
            else:
                e = int(g[5])
                ctx.check(near(e, error), 'the error of the bin', expected=error, **v)
                p = float('inf') if b.value == 0 else 100.0 * e / abs(b.value)
                ctx.check(float(g[6]) == p or abs(float(g[6]) - p) <= 0.051 + 1e-9 * p, 'the error in percent', expected=p, **v)
            ctx.eq(g[7:9], ('obscured' if b.noisy else 'visible', 'zero' if b.zero else 'positive'), 'whether the value means anything', **v)
            z = o['zero']
            bound = clamp(b.value, z)
            what = ['value'] if bound != b.value else []
            if error is not None:
                low, high = clamp(b.value - e, z), clamp(b.value + e, z)
                # (the distances to the bounds)
                what += ['error low'] if bound - low != e else []
                what += ['error high'] if high - bound != e else []
            if z or what:
                ctx.check(g[9] is not None, 'the bounded value', **v)
                ctx.eq(int(g[9]), bound, 'the bounded value', **v)
                ctx.eq((g[10], g[11]), (None, None) if error is None else (str(low), str(high)), 'the bounded interval', **v)
                ctx.eq(g[12], ', '.join(what) or 'no change', 'what is bounded', **v)
            else:
                ctx.check(g[9] is None, 'nothing is bounded', **v)
            ctx.count('bins in text')
    ctx.eq(lines, [], 'nothing else is in the text file', **w)
    ctx.count('text files')

def edge(x, ratio):
    if abs(x) == INF:
        return r'$\infty$' if x > 0 else r'$-\infty$'
    return str(x) if ratio else str(int(x))

def graphs(ctx, shown, colours, o, w):
    ctx.eq(D.closed, 1, 'the PDF file is closed', **w)
    names = sorted(set(s[1] for s in shown))
    ctx.eq([p.title for p in D.pages], names, 'a page for each counter', **w)
    # a colour for each experiment
    colour, previous, k = {}, None, -1
    for j, s in enumerate(shown):
        if s[0] != previous:
            k += 1
            previous = s[0]
        colour[j] = colours[k % len(colours)]
    for page in D.pages:
        mine = [(j, s) for j, s in enumerate(shown) if s[1] == page.title]
        v = dict(w, page=page.title)
        ctx.eq(len(page.bars), len(mine), 'bars for each experiment', **v)
        ctx.eq(page.legend_[0], [('bar', k) for k in range(len(mine))], 'the legend of each experiment', **v)
        for k, ((j, (label, name, bins, error, keep)), b, l) in enumerate(zip(mine, page.bars, page.legend_[1])):
            title(ctx, l, label, o, error, r'$\sigma$', v)
            kept = [x for x, y in zip(bins, keep) if y]
            ctx.eq(b['height'], [clamp(x.value, o['zero']) for x in kept], 'the heights of the bars', **v)
            ctx.eq(b['color'], colour[j], 'the colour of the bars', **v)
            ctx.eq(len(b['x']), len(kept), 'the places of the bars', **v)
            width = 1.0 / (len(mine) + 1)
            for x in range(len(kept)):
                ctx.close(b['x'][x], x + k * width, 'the place of a bar', **v)
            ctx.close(b['width'], width, 'the width of a bar', **v)
            if error is None:
                ctx.check(b['yerr'] is None, 'no error bars where there is no noise', **v)
            else:
                ctx.eq([len(e) for e in b['yerr']], [len(kept)] * 2, 'error bars', **v)
                for x, low, high in zip(kept, *b['yerr']):
                    z = o['zero']
                    c = clamp(x.value, z)
                    some = [e for e in (int(error), int(error) + 1, int(low), int(high)) if near(e, error)]
                    ctx.check(any(low == c - clamp(x.value - e, z) and high == clamp(x.value + e, z) - c for e in some), 'the error bars',
                              value=x.value, error=error, low=low, high=high, **v)
            ratio = name.endswith('Ratio')
            want = [(x.label if len(x.label) <= 15 else x.label[:12] + '...') if x.label is not None else
                    '[%s,%s)' % (edge(x.left, ratio), edge(x.right, ratio)) for x in kept]
            ctx.eq(page.ticks, want, 'the labels of the bins', **v)
            ctx.count('bars', len(kept))
        ctx.count('graphs')
