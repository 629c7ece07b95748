'''C31: the event injector, seen from its control port.'''
import argparse
import os
import sys

import evsim
from gen import *
from simenv import VTime, net, reactor
from torsim import C2S, S2C, mac
from privcount import inject
from privcount.counter import get_valid_events

ID, LEVEL = 'C31', 'exploration'
RULE = ('random event logs (all kinds of events, in and out of order and the time window, blank and unknown lines), with and without '
        '--simulate, and sequences of controllers that authenticate in all ways, rightly or not, ask for events and leave; distinct by log '
        'and controllers')
ASSUMPTIONS = ['one controller is connected at a time, and asks for events once', 'events have times that are numbers']
QUICK = dict(cases=900, seconds=20)
THOROUGH = dict(cases=60000, seconds=900)
REQUIRE = {'events sent': 1000, 'events moved to now': 800, 'events left out': 200, 'pauses': 200, 'complete logs': 80, 'logs cut short': 30,
           'authenticated with a password': 30, 'authenticated with a cookie': 30, 'authenticated without secrets': 40,
           'controllers refused': 100, 'unknown events refused': 30}
MIN_DISTINCT = 150

class Node(object):
    dead = False

class Client(object):
    'a controller'
    def __init__(self, node):
        self.node = node
        self.buf, self.lines, self.open, self.closed_at = '', [], False, None
        self.transport = None
    def doStart(self):
        pass
    def startedConnecting(self, c):
        pass
    def clientConnectionFailed(self, c, why):
        pass
    def clientConnectionLost(self, c, why):
        pass
    def buildProtocol(self, addr):
        return self
    def makeConnection(self, transport):
        self.transport, self.open = transport, True
    def connectionLost(self, why=None):
        self.open, self.closed_at = False, VTime.now
    def dataReceived(self, data):
        self.buf += data
        while '\r\n' in self.buf:
            line, _, self.buf = self.buf.partition('\r\n')
            self.lines.append((VTime.now, line))
    def send(self, line):
        'the answer to a line'
        n = len(self.lines)
        self.transport.write(line + '\r\n')
        reactor.advance(0.01)
        return [l for _, l in self.lines[n:]]
    def events(self):
        return [(t, l) for t, l in self.lines if l.startswith('650')]

def rand_time(rng, t):
    return rng.choice(['%.6f', '%.6f', '%.3f', '%d']) % t

def rand_log(rng, t0):
    'lines, each with what is sent: (line, name, fields, (start, end)), times are None for unknown lines'
    t = t0
    out = []
    for _ in range(rng.choice([0, 1, 3, 8, 20])):
        t += rng.choice([0.0, 0.001, rng.random(), rng.random(), 7.5, 100.0])
        if rng.random() < 0.07:
            t -= rng.choice([0.5, 20.0])
        end = rand_time(rng, t)
        start = rand_time(rng, t - rng.choice([0.0, rng.random(), 50.0, 100000.0]))
        w = [str(rng.randrange(2000)) for _ in range(14)]
        kind = rng.choice(['bytes', 'stream', 'circuit', 'connection', 'tagged', 'tagged', 'tagged', 'close', 'close', 'blank', 'unknown'])
        if kind == 'blank':
            out.append((rng.choice(['', ' ', '\t']), None, None, None))
            continue
        if kind == 'unknown':
            line = rng.choice(['PRIVCOUNT_STREAM_ENDED 1 2 3', 'PRIVCOUNT_SOMETHING', 'PRIVCOUNT_CIRCUIT_CLOSE EventTimestamp=%s EventTimestamp=%s'
                               % (end, end), 'PRIVCOUNT_HSDIR_CACHE_STORE %s' % end])
            out.append((line, line, None, None))
            continue
        if kind == 'bytes':
            items = ['PRIVCOUNT_STREAM_BYTES_TRANSFERRED'] + w[:5] + [end]
            where = (6, 6)
        elif kind == 'stream':
            items = ['PRIVCOUNT_STREAM_ENDED'] + w[:6] + [start, end, '192.0.2.7', 'example.com', '0']
            where = (7, 8)
        elif kind == 'circuit':
            items = ['PRIVCOUNT_CIRCUIT_ENDED'] + w[:6] + [start, end, '192.0.2.7', '0', w[7], '1']
            where = (7, 8)
        elif kind == 'connection':
            items = ['PRIVCOUNT_CONNECTION_ENDED', w[0], start, end, '192.0.2.7', '0']
            where = (2, 3)
        else:
            fields = dict(('Field%d' % k, rng.choice(['1', 'x;y', '0', 'a-b', '1.5', '"', '%.2f' % t])) for k in range(rng.randrange(4)))
            fields['EventTimestamp'] = end
            if kind == 'close':
                fields['CreatedTimestamp'] = start
                name = rng.choice(['PRIVCOUNT_CIRCUIT_CLOSE', 'PRIVCOUNT_CONNECTION_CLOSE'])
            else:
                start = end
                name = rng.choice(['PRIVCOUNT_HSDIR_CACHE_FETCH', 'PRIVCOUNT_HSDIR_CACHE_STORE', 'PRIVCOUNT_CIRCUIT_CELL',
                                   'PRIVCOUNT_VITERBI_PACKETS', 'PRIVCOUNT_VITERBI_STREAMS'])
                if name == 'PRIVCOUNT_HSDIR_CACHE_FETCH':
                    fields['CacheCreatedTime'] = '%d' % t
            items = [name] + evsim.tagged(rng, fields)
            out.append((' '.join(items), name, fields, (float(start), float(end))))
            continue
        if where[0] == where[1]:
            start = end
        out.append((' '.join(items), items[0], (items, where), (float(start), float(end))))
    return out

def compare(ctx, got, want, **witness):
    'one event: what was received, when, and the line of the log'
    t, line = got
    text, name, fields, times = want
    parts = line.split(' ')
    if times is None:
        ctx.eq(line, '650 ' + ' '.join(text.split()), 'a line without times', **witness)
        return
    ctx.eq(parts[:2], ['650', name], 'the name of an event', line=text, **witness)
    rest = [p for p in parts[2:] if p != '']
    if isinstance(fields, dict):
        found = dict(p.split('=', 1) for p in rest)
        ctx.eq(sorted(found), sorted(fields), 'the fields of an event', line=text, sent=line, **witness)
        ctx.eq(len(rest), len(found), 'each field once', line=text, sent=line, **witness)
        for k in fields:
            if k not in ('EventTimestamp', 'CreatedTimestamp'):
                ctx.eq(found[k], fields[k], 'a field that is not a time', key=k, line=text, sent=line, **witness)
        end = found['EventTimestamp']
        start = found.get('CreatedTimestamp', end)
    else:
        items, where = fields
        ctx.eq(len(rest), len(items) - 1, 'the items of an event', line=text, sent=line, **witness)
        for k in range(1, len(items)):
            if k not in where:
                ctx.eq(rest[k - 1], items[k], 'an item that is not a time', item=k, line=text, sent=line, **witness)
        start, end = rest[where[0] - 1], rest[where[1] - 1]
    ctx.check(abs(float(end) - (t - 0.001)) < 3e-6, 'the time of an event is when it is sent', line=text, sent=line, received=t, **witness)
    ctx.check(abs(float(end) - float(start) - (times[1] - times[0])) < 3e-6, 'the duration of an event is kept', line=text, sent=line, **witness)
    ctx.count('events moved to now')

def quoted(rng, secret):
    'a password as an argument'
    if rng.random() < 0.5:
        h = secret.encode('hex')
        return h.upper() if rng.random() < 0.5 else h
    return '"%s"' % secret.replace('\\', '\\\\').replace('"', '\\"')

def authenticate(ctx, rng, c, password, cookie_path, how):
    'True if the controller should now be authenticated'
    witness = dict(how=how)
    if how == 'unauthenticated command':
        line = rng.choice(['SETEVENTS PRIVCOUNT_STREAM_ENDED', 'GETINFO version', 'SETEVENTS', 'SETCONF EnablePrivCount=1', ''])
        got = c.send(line)
        ctx.check(len(got) == 1 and got[0].startswith('514'), 'commands need authentication', got_lines=got, line=line, **witness)
        return False
    if how == 'none':
        if rng.random() < 0.7:
            c.send('PROTOCOLINFO 1')
        got = c.send(rng.choice(['AUTHENTICATE', 'AUTHENTICATE', 'AUTHENTICATE "anything"', 'AUTHENTICATE 1234']))
        good = password is None and cookie_path is None
    elif how in ('password', 'wrong password'):
        c.send('PROTOCOLINFO 1')
        p = password if password is not None else 'some password here'
        if how == 'wrong password':
            p = rng.choice([p[:-1], p + 'x', p.swapcase() + '.', ' ' * 20])
        got = c.send('AUTHENTICATE ' + quoted(rng, p))
        good = (password is None and cookie_path is None) or p == password
    elif how == 'bad encoding':
        c.send('PROTOCOLINFO 1')
        got = c.send('AUTHENTICATE ' + rng.choice(['"abc', 'xyz', '123']))
        good = False
    else:
        if how != 'no cookie':
            got = c.send('PROTOCOLINFO 1')
            methods = [l for l in got if l.startswith('250-AUTH')][0]
            ctx.eq('SAFECOOKIE' in methods, cookie_path is not None, 'the methods', methods=methods)
            ctx.eq('HASHEDPASSWORD' in methods, password is not None, 'the methods', methods=methods)
            ctx.eq('NULL' in methods, password is None and cookie_path is None, 'the methods', methods=methods)
        nonce = evsim_bytes(rng, 32)
        got = c.send('AUTHCHALLENGE SAFECOOKIE ' + nonce.encode('hex'))
        if cookie_path is None or how == 'no cookie':
            ctx.check(got[0].startswith('513'), 'no cookies without a cookie file', answer=got, **witness)
            return False
        cookie = open(cookie_path).read()
        ctx.eq(len(cookie), 32, 'the cookie has 32 bytes')
        words = dict(x.split('=') for x in got[0].split(' ')[2:])
        server = words['SERVERNONCE'].decode('hex')
        ctx.eq(words['SERVERHASH'].decode('hex'), mac(S2C, cookie + nonce + server), 'the injector knows the cookie')
        if how == 'wrong cookie':
            cookie = rng.choice([cookie[:-1] + chr((ord(cookie[-1]) + 1) % 256), '\0' * 32, cookie + 'x'])
            answer = mac(C2S, cookie + nonce + server)
        elif how == 'wrong side':
            answer = mac(S2C, cookie + nonce + server)
        elif how == 'wrong nonces':
            answer = mac(C2S, cookie + server + nonce)
        else:
            answer = mac(C2S, cookie + nonce + server)
        got = c.send('AUTHENTICATE ' + answer.encode('hex'))
        good = how == 'cookie'
    if good:
        ctx.eq(got, ['250 OK'], 'a controller with the right secret is accepted', **witness)
        ctx.count('authenticated ' + ('without secrets' if password is None and cookie_path is None else
                                      'with a password' if how == 'password' else 'with a cookie'))
    else:
        ctx.check(len(got) == 1 and got[0][:1] == '5', 'a controller without the right secret is refused', answer=got, **witness)
    return good

def evsim_bytes(rng, n):
    return ''.join(chr(rng.randrange(256)) for _ in range(n))

def case(ctx, rng, i):
    net.rng, net.max_latency, net.fragment = rng, 0.0, False
    d = ctx.scratch()
    log = rand_log(rng, 1498000000.0 + rng.random() * 1000)
    path = os.path.join(d, 'events')
    f = open(path, 'w')
    f.write(''.join(l[0] + rng.choice(['\n', '\n', ' \n']) for l in log))
    f.close()
    password = cookie_path = None
    argv = []
    if rng.random() < 0.4:
        password = ''.join(rng.choice('abcXYZ01 "\\=') for _ in range(rng.randrange(16, 40))) + 'z'
        password = 'p' + password
        f = open(os.path.join(d, 'password'), 'w')
        f.write(password)
        f.close()
        argv += ['--control-password', f.name]
    if rng.random() < 0.4:
        cookie_path = os.path.join(d, rng.choice(['cookie', 'a "cookie"']))
        argv += ['--control-cookie-file', cookie_path]
    pause = rng.random() < 0.5
    if pause:
        argv.append(rng.choice(['-s', '--simulate']))
    ends = sorted(l[3][1] for l in log if l[3] is not None)
    before, after = 0.0, float(sys.maxint)
    if rng.random() < 0.4 and ends:
        before = rng.choice([ends[0], ends[len(ends) // 2], rng.choice(ends) + 1])
        argv += ['--prune-before', repr(before)]
    if rng.random() < 0.3 and ends:
        after = rng.choice([ends[-1], rng.choice(ends), ends[-1] - 1])
        argv += ['--prune-after', repr(after)]
    unix = rng.random() < 0.3
    address = os.path.join(d, 'socket') if unix else ('tcp', 20003)
    argv += ['--unix', address] if unix else ['--port', '20003']
    stdin = rng.random() < 0.2
    argv += ['--log', '-' if stdin else path]
    ap = argparse.ArgumentParser()
    inject.add_inject_args(ap)
    args = ap.parse_args(argv)
    node, real_stdin = Node(), sys.stdin
    if stdin:
        sys.stdin = open(path)
    witness = dict(argv=argv, log=[l[0] for l in log])
    try:
        run(ctx, rng, args, node, log, password, cookie_path, pause, before, after, address, unix, witness)
    finally:
        if stdin:
            sys.stdin.close()
        sys.stdin = real_stdin

def run(ctx, rng, args, node, log, password, cookie_path, pause, before, after, address, unix, witness):
    net.call(node, inject.run_inject, args)
    ctx.eq(sorted(p.interface for p in net.ports), [None] if unix else ['127.0.0.1', '::1'], 'where the injector listens', **witness)
    # what is sent, and how long after the one before
    want, last = [], None
    for l in log:
        if l[1] is None:
            continue
        end = l[3][1] if l[3] is not None else 0.0
        wait = 0.0
        inside = before <= end <= after
        if l[3] is not None:
            if last is not None:
                wait = max(0.0, end - last)
            last = end
        if inside:
            want.append((l, wait if pause else 0.0))
        else:
            ctx.count('events left out')
    history = []
    known = sorted(get_valid_events())
    for n in range(4):
        c = Client(node)
        net.call(None, reactor.connectUNIX if unix else lambda a, x: reactor.connectTCP('127.0.0.1', a[1], x), address, c)
        reactor.advance(0.01)
        ctx.check(c.open, 'the injector accepts connections', history=history, **witness)
        how = rng.choice(['unauthenticated command', 'wrong password', 'wrong cookie', 'wrong side', 'wrong nonces', 'no cookie', 'bad encoding',
                          'quit', 'drop', 'none', 'none', 'password', 'password', 'cookie', 'cookie', 'right', 'right', 'right'])
        if how == 'right' or n == 3:
            how = rng.choice((['password'] if password is not None else []) + (['cookie'] if cookie_path is not None else []) or ['none'])
        history.append(how)
        good = False
        if how == 'quit':
            ctx.eq(c.send('QUIT'), ['250 closing connection'], 'controllers can quit', history=history, **witness)
        elif how == 'drop':
            c.transport.conn.drop()
        else:
            good = authenticate(ctx, rng, c, password, cookie_path, how)
        if good:
            break
        reactor.advance(0.5)
        ctx.check(not c.open, 'the connection is closed', history=history, lines=c.lines, **witness)
        ctx.eq(c.events(), [], 'no events without authentication', history=history, **witness)
        ctx.count('controllers refused')
    ctx.check(good, 'a controller can authenticate', history=history, **witness)
    # some questions
    for _ in range(rng.choice([0, 0, 1, 3])):
        line, answer = rng.choice([('GETINFO version', '250-version='), ('GETINFO fingerprint', '250-fingerprint='), ('GETINFO x', '552 '),
                                   ('GETCONF EnablePrivCount', '250 EnablePrivCount=1'), ('GETCONF x', '552 '), ('SETCONF EnablePrivCount=1', '250 OK'),
                                   ('SET_TMODEL FALSE', '250 OK'), ('HELLO', '510 '), ('SETEVENTS', '250 OK'),
                                   ('SETEVENTS PRIVCOUNT_STREAM_ENDED NOTHING', '552 '), ('SETEVENTS bw stream', '552 ')])
        got = c.send(line)
        ctx.check(got and got[0].startswith(answer), 'the answer to a command', line=line, answer=got, history=history, **witness)
        history.append(line)
        if line.endswith('NOTHING') or line.endswith('stream'):
            ctx.count('unknown events refused')
    reactor.advance(rng.choice([0.0, 1.0, 30.0]))
    ctx.eq(c.events(), [], 'no events before they are asked for', history=history, **witness)
    # ask
    names = rng.sample(known, rng.randrange(1, len(known) + 1))
    if rng.random() < 0.3:
        names = [x.lower() for x in names]
    start = VTime.now
    got = None
    n = len(c.lines)
    c.transport.write('SETEVENTS %s\r\n' % ' '.join(names))
    leave = rng.choice([None, None, None, 'QUIT', 'SETEVENTS', 'SETEVENTS NOTHING', 'drop'])
    total = sum(w for _, w in want)
    left_at = None
    if leave is not None:
        reactor.advance(rng.random() * (total + 0.5) + 0.01)
        ctx.eq(c.lines[n][1], '250 OK', 'the answer to SETEVENTS', history=history, **witness)
        left_at = VTime.now
        if leave == 'drop':
            c.transport.conn.drop()
        else:
            c.transport.write(leave + '\r\n')
        history.append((leave, left_at - start))
        reactor.advance(0.5)
    reactor.advance(0.01)
    ctx.eq([p.interface for p in net.ports], [], 'the injector stops listening once events are asked for', history=history, **witness)
    reactor.advance(total + 30.0)
    ctx.eq(c.lines[n][1], '250 OK', 'the answer to SETEVENTS', history=history, **witness)
    sent = c.events()
    ctx.count('events sent', len(sent))
    # the times at which they are sent
    t, due = start + 0.001, []
    for l, w in want:
        t += w
        due.append(t)
    # (events and a command may pass each other)
    must = len([x for x in due if left_at is None or x < left_at - 0.01])
    may = len([x for x in due if left_at is None or x < left_at + 0.01])
    ctx.check(must <= len(sent) <= may, 'how many events are sent', sent=sent, must=must, may=may, start=start, due=due, history=history, **witness)
    for k, (got, (l, w)) in enumerate(zip(sent, want)):
        compare(ctx, got, l, history=history)
        ctx.check(abs(got[0] - 0.001 - due[k]) < 1e-3, 'the time at which an event is sent', start=start, due=due[k], received=got[0], event=k,
                  history=history, **witness)
        if w > 0:
            ctx.count('pauses')
    ctx.count('complete logs' if left_at is None else 'logs cut short')
    ctx.check(not c.open, 'the connection is closed at the end', sent=sent, history=history, lines=c.lines[n:][-5:], **witness)
    ctx.check(any(x is node for x, _ in net.exits) or reactor.stopped, 'the injector ends', history=history, **witness)
    other = [l for _, l in c.lines[n + 1:] if not l.startswith('650')]
    ctx.check(len(other) <= 1, 'nothing else is sent', other=other, history=history, **witness)
    ctx.nontrivial([l[0] for l in log], history, pause)
    ctx.sample({'argv': witness['argv'], 'log': witness['log'][:5], 'history': history})
