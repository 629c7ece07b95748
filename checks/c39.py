'''C39: the privcount command.'''
import logging
import os
import shutil
import StringIO
import sys

import simenv
from gen import *
from privcount import data_collector, inject, plot, share_keeper, tally_server

ID, LEVEL = 'C39', 'exploration'
RULE = ('all modes of the command, with random configurations given as relative, absolute or missing files or on standard input, and all '
        'options of logging; distinct by the arguments and the configuration')
ASSUMPTIONS = ['the nodes are stand-ins that read their configuration file and log at all levels; what nodes do is decided by other checks']
QUICK = dict(cases=3000, seconds=12)
THOROUGH = dict(cases=50000, seconds=300)
REQUIRE = {'nodes started': 400, 'configurations from standard input': 150, 'refused command lines': 150, 'log lines': 1500, 'log files': 150,
           'injectors': 100, 'plots': 100}
MIN_DISTINCT = 500

T, started = {}, []
LEVELS = {'debug': 10, 'info': 20, 'warning': 30, 'error': 40, 'critical': 50}

def talk():
    for l in ('debug', 'info', 'warning', 'error', 'critical'):
        getattr(logging, l)('a node says %s', l)

def node(name):
    class Node(object):
        def __init__(self, path):
            self.path = path

        def run(self):
            f = open(self.path, 'rb')
            started.append((name, self.path, f.read()))
            f.close()
            talk()
    return Node

def tool(name):
    def run(args):
        started.append((name, vars(args), None))
        talk()
    return run

def setup(ctx):
    simenv.set_logging(False)
    path = os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'privcount', 'tools', 'privcount')
    f = open(path)
    source = f.read()
    f.close()
    T['__name__'] = 'command'
    exec compile(source, path, 'exec') in T
    data_collector.DataCollector, tally_server.TallyServer, share_keeper.ShareKeeper = node('dc'), node('ts'), node('sk')
    inject.run_inject, plot.run_plot = tool('inject'), tool('plot')

def case(ctx, rng, i):
    d = os.path.join(os.getcwd(), 'c39-%d' % i)
    os.mkdir(d)
    here = os.getcwd()
    os.chdir(d)
    root = logging.getLogger()
    before = (root.handlers[:], root.level, logging.root.manager.disable)
    root.handlers[:] = []
    logging.disable(0)
    try:
        run(ctx, rng, i, d)
    finally:
        for h in root.handlers:
            h.close()
        root.handlers[:], root.level = before[0], before[1]
        logging.disable(before[2])
        os.chdir(here)
        shutil.rmtree(d)

LINES = ['tally_server:', '  counters: 5', '', '   ', '# comment', "  a: 'x'", '\tb', '\xe9\xff', 'c: "d" ', ' ', '---', 'x' * 300, 'ends with a tab\t', '\r']

def run(ctx, rng, i, d):
    del started[:]
    mode = rng.choice(['ts', 'sk', 'dc', 'ts', 'sk', 'dc', 'inject', 'plot', 'version'])
    argv, level, log, ident = ['privcount'], 20, None, ''
    k = rng.random()
    if k < 0.3:
        argv.append(rng.choice(['-v', '--debug']))
        level = 10
    elif k < 0.6:
        argv.append(rng.choice(['-q', '--warn', '--warning']))
        level = 30
    if rng.random() < 0.5:
        log = rng.choice(['x.log', 'some/where/x.log', os.path.join(d, 'y.log'), './z'])
        argv += [rng.choice(['-l', '--log']), log]
        log = os.path.join(d, log)
    elif rng.random() < 0.3:
        argv += ['-l', '-']
    if rng.random() < 0.4:
        ident = rng.choice(['-1', 'x', ' test'])
        argv += ['--log-id=' + ident] if rng.random() < 0.5 or ident.startswith('-') else ['-i', ident]
    argv.append(mode)
    refused = False
    content = rng.choice(['\n', '']).join(rng.choice(LINES) + '\n' for _ in range(rng.choice([0, 1, 3, 10])))
    if content and rng.random() < 0.3:
        content = content[:-1]
    stdin, want, path = '', None, None
    if mode in ('ts', 'sk', 'dc'):
        k = rng.random()
        if k < 0.4:
            argv.append('-')
            stdin = content
        else:
            path = rng.choice(['my.yaml', 'conf/my.yaml', os.path.join(d, 'my.yaml'), '../' + os.path.basename(d) + '/my.yaml'])
            if not os.path.isdir('conf'):
                os.mkdir('conf')
            argv.append(path)
            path = os.path.abspath(path)
            if k < 0.8:
                f = open(path, 'wb')
                f.write(content)
                f.close()
            else:
                refused = True
    elif mode == 'inject':
        want = dict(port=None, ip=None, unix=None, log='-', simulate=False, prune_before=0, prune_after=sys.maxint, control_password=None,
                    control_cookie_file=None)
        opts = [['--log', rng.choice(['-', 'e.txt'])]]
        want['log'] = opts[0][1]
        for o, n, v in (('-p', 'port', '5'), ('--ip', 'ip', '::1'), ('-u', 'unix', '/x'), ('--prune-before', 'prune_before', '7.5'),
                        ('--prune-after', 'prune_after', '9'), ('--control-password', 'control_password', 'f'),
                        ('--control-cookie-file', 'control_cookie_file', 'g')):
            if rng.random() < 0.3:
                opts.append([o, v])
                want[n] = v
        if rng.random() < 0.4:
            opts.append([rng.choice(['-s', '--simulate'])])
            want['simulate'] = True
        rng.shuffle(opts)
        if rng.random() < 0.1:
            opts = [o for o in opts if o[0] != '--log']
            refused = True
        argv += [x for o in opts for x in o]
    elif mode == 'plot':
        for n in ('a.json', 'b.json'):
            open(n, 'w').close()
        want = dict(experiments=[], data_tallies=[], data_outcome=[], total_result=False, noise_stddev='2', bound_zero=False, ignore_noisy=False,
                    ignore_zero=False, bin_label_source='range', lineformats='k,r,b,g,c,m,y', prefix=None, skip_pdf=False, skip_text=False)
        opts = []
        for o, n in (('-o', 'data_outcome'), ('-o', 'data_outcome'), ('-t', 'data_tallies'), ('-d', 'experiments')):
            if rng.random() < 0.4:
                f, l = rng.choice(['a.json', 'b.json', os.path.join(d, 'b.json')]), rng.choice(['one', 'the second'])
                opts.append([o, f, l])
                want[n].append((os.path.join(d, f), l))
        flags = [('-a', 'total_result'), ('-z', 'bound_zero'), ('-n', 'ignore_noisy'), ('-i', 'ignore_zero'), ('-w', 'skip_pdf'), ('-x', 'skip_text')]
        for o, n in rng.sample(flags, rng.randrange(4)):
            opts.append([o])
            want[n] = True
        for o, n, v in (('-c', 'noise_stddev', '1.5'), ('-b', 'bin_label_source', 'file'), ('-f', 'lineformats', 'r,b'), ('-p', 'prefix', 'out')):
            if rng.random() < 0.3:
                opts.append([o, v])
                want[n] = v
        if rng.random() < 0.1:
            opts.append(['-o', 'missing.json', 'x'])
            refused = True
        argv += [x for o in opts for x in o]
    if rng.random() < 0.06:
        argv.append(rng.choice(['--no-such-option', 'extra argument']))
        refused = True
    w = dict(arguments=argv[1:], stdin=repr(stdin), content=repr(content))
    out, err, old = StringIO.StringIO(), StringIO.StringIO(), (sys.argv, sys.stdin, sys.stdout, sys.stderr)
    sys.argv, sys.stdin, sys.stdout, sys.stderr = argv, StringIO.StringIO(stdin), out, err
    ended = None
    try:
        T['main']()
    except SystemExit as e:
        ended = e.code
    finally:
        sys.argv, sys.stdin, sys.stdout, sys.stderr = old
    w['errors'] = err.getvalue()[-300:]
    ctx.nontrivial(tuple(argv[1:]), content)
    if i % 300 == 0:
        ctx.sample(w)
    if refused:
        ctx.check(ended not in (None, 0), 'a wrong command line is refused', ended=ended, **w)
        ctx.eq(started, [], 'nothing runs after a wrong command line', **w)
        ctx.count('refused command lines')
        return
    ctx.check(ended in (None, 0), 'a right command line is accepted', ended=ended, **w)
    if mode == 'version':
        ctx.eq(started, [], 'nothing runs', **w)
    else:
        ctx.eq([s[0] for s in started], [mode], 'the chosen mode runs, once', **w)
        name, given, read = started[0]
        if mode in ('inject', 'plot'):
            for n in sorted(want):
                got = given.get(n)
                ctx.check(got == want[n] or n.startswith('prune') and float(got) == float(want[n]), 'the options of the mode', option=n, got_=got,
                          expected=want[n], **w)
            ctx.count('injectors' if mode == 'inject' else 'plots')
        else:
            ctx.eq(read, content, 'the node reads the given configuration', path=given, **w)
            ctx.check(os.path.isabs(given), 'the path of the configuration is absolute', path=given, **w)
            if path is not None:
                ctx.eq(given, path, 'the node has the given file', **w)
            ctx.count('nodes started')
            ctx.count('configurations from standard input', path is None)
    # the log
    text = err.getvalue()
    if log is not None:
        ctx.eq([l for l in text.split('\n') if ' says ' in l], [], 'the log is in the file only', **w)
        f = open(log)
        text = f.read()
        f.close()
        ctx.count('log files')
    else:
        text = out.getvalue() + text
    lines = [l for l in text.split('\n') if 'a node says ' in l]
    said = [l for l in ('debug', 'info', 'warning', 'error', 'critical') if LEVELS[l] >= level and mode != 'version']
    ctx.eq([l.split('a node says ')[1] for l in lines], said, 'what is logged', log=text, **w)
    for l in lines:
        ctx.check('privcount-%s%s]' % (mode, ident) in l, 'each line in the log names the node', line=l, **w)
        ctx.check('[%s]' % l.split('a node says ')[1].upper() in l, 'each line in the log has its level', line=l, **w)
    ctx.count('log lines', len(lines))
