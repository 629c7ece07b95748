'''C10: the dialogue between tally server and clients.'''
import base64
import json
import os
import simenv
import wire
from simenv import reactor, VTime
from wire import H1, H2, H3, H4, Transport, deliver
from privcount.protocol import PrivCountServerProtocol, PrivCountClientProtocol

ID, LEVEL = 'C10', 'exploration'
RULE = ('authenticated and unauthenticated connections to real protocols with scripts of valid, malformed, unknown and over-long '
        'lines, coalesced and fragmented, over several connections and virtual time; distinct by script')
ASSUMPTIONS = ['malformed JSON and exceptions end the process, as documented: only what happened before is compared']
QUICK = dict(cases=2600, seconds=30)
THOROUGH = dict(cases=120000, seconds=1200)
REQUIRE = {'unauthenticated lines': 800, 'over-long lines refused': 150, 'lines of the longest length': 20, 'server messages': 1000, 'client commands': 1000,
           'connections closed on an invalid line': 300, 'check-ins': 200}
MIN_DISTINCT = 600

KEY = 'k' * 32
PATH = []

def setup(ctx):
    p = os.path.join(ctx.scratch(), 'secret')
    f = open(p, 'w')
    f.write(base64.b64encode(KEY))
    f.close()
    PATH.append(p)

def server(auth=True):
    f = wire.ServerFactory(PATH[0])
    p = PrivCountServerProtocol(f)
    t = Transport()
    p.makeConnection(t)
    if auth:
        sc = wire.b64d(t.lines()[0].split()[4])
        cc = 'c' * 32
        deliver(p, '%s %s %s\r\n%s SUCCESS\r\n' % (H2, base64.b64encode(cc), wire.hmac64(KEY, H2, sc, cc), H4))
    return f, p, t

def client(f=None, auth=True):
    f = f or wire.ClientFactory(PATH[0])
    p = PrivCountClientProtocol(f)
    t = Transport()
    p.makeConnection(t)
    if auth:
        sc = 's' * 32
        deliver(p, '%s %s\r\n' % (H1, base64.b64encode(sc)))
        cc = wire.b64d(t.lines()[0].split()[4])
        deliver(p, '%s %s\r\n' % (H3, wire.hmac64(KEY, H3, sc, cc)))
    return f, p, t

def unauthenticated(ctx, rng, i):
    side = rng.choice(['server', 'client'])
    f, p, t = server(False) if side == 'server' else client(None, False)
    sent0 = len(t.lines())
    kind = rng.choice(['long', 'long', 'longproof', 'fit', 'nonewline', 'command', 'command', 'garbage', 'many', 'short'])
    follow = ''
    if kind == 'long':
        n = rng.choice([201, 202, 250, 1000, 20000])
        data = 'A' * n + '\r\n'
    elif kind == 'nonewline':
        data = 'HANDSHAKE' + 'x' * rng.choice([300, 5000, 200000])
    elif kind in ('longproof', 'fit'):
        if side == 'server':
            sc = wire.b64d(t.lines()[0].split()[4])
            line = '%s %s %s' % (H2, base64.b64encode('c' * 32), wire.hmac64(KEY, H2, sc, 'c' * 32))
        else:
            line = '%s %s' % (H1, base64.b64encode('s' * 32))
        data = line + ' ' * (rng.choice([201, 201, 260, 3000] if kind == 'longproof' else [199, 200, 200]) - len(line)) + '\r\n'
        follow = H4 + ' SUCCESS\r\n'
    elif kind == 'command':
        data = rng.choice(['STATUS 1 {"name":"x"}', 'START {}', 'STOP {}', 'START SUCCESS {}', 'STOP SUCCESS {}', 'CHECKIN 1',
                           'CHECKIN SUCCESS', 'STATUS', 'STOP FAIL']) + '\r\n'
        follow = data
    elif kind == 'garbage':
        data = ''.join(chr(rng.randrange(256)) for _ in range(rng.randrange(1, 180))).replace('\n', '').replace('\r', '') + '\r\n'
        if data.startswith('HANDSHAKE'):
            data = 'x' + data
    elif kind == 'many':
        data = 'GET / HTTP/1.0\r\nHost: x\r\n\r\n'
    else:
        data = rng.choice(['\r\n', ' \r\n', 'X\r\n'])
    dead = deliver(p, data, rng)
    if kind == 'fit':
        ctx.check(not dead and not t.disconnecting and len(t.lines()) == sent0 + 1, 'a valid line that is not too long is answered',
                  side=side, length=len(data) - 2, sent=t.lines())
        ctx.count('lines of the longest length')
        return
    if not dead:
        ctx.check(t.disconnecting, 'the first line that is not a handshake closes the connection', side=side, data=data[:300], kind=kind)
        dead = deliver(p, follow + 'STATUS 1 {"name":"x"}\r\nSTART {}\r\n')
    ctx.eq(f.calls, [], 'an unauthenticated peer has no effect', side=side, data=data[:300])
    ctx.check(not [l for l in t.lines()[sent0:] if not l.startswith('HANDSHAKE')], 'an unauthenticated peer is told nothing',
              sent=t.lines())
    if kind in ('long', 'longproof', 'nonewline'):
        ctx.eq(len(t.lines()), sent0, 'an over-long line is not answered', side=side, kind=kind, sent=t.lines())
        ctx.count('over-long lines refused')
    ctx.count('unauthenticated lines')
    ctx.nontrivial('unauth', side, kind, len(data))

def server_dialogue(ctx, rng, i):
    f, p, t = server()
    ctx.check(t.lines() and t.lines()[-1].startswith('STATUS'), 'the server greets an authenticated client with its status', sent=t.lines())
    calls, sent = [], len(t.lines())
    uid, last_sent = None, VTime.now
    script, data = [], ''
    valid = True
    batches = []
    for _ in range(rng.randrange(1, 9)):
        kind = rng.choice(['STATUS', 'STATUS', 'STATUS', 'START', 'STARTFAIL', 'STOP', 'STOPFAIL', 'CHECKIN', 'bad', 'long'])
        if uid is None and kind in ('START', 'STARTFAIL', 'STOP', 'STOPFAIL') and rng.random() < 0.7:
            kind = 'STATUS'
        script.append(kind)
    for kind in script:
        VTime.now += rng.choice([0.0, 0.5, 3.25])
        before = len(t.lines())
        f.stop_config = rng.choice([None, None, {'send_counters': True, 'n': i}])
        f.start_config = rng.choice([None, {'counters': {'A': 1}, 'n': i}])
        n0 = len(f.calls)
        if kind == 'STATUS':
            skew = rng.choice([0.0, 12.5, -3.0])
            name = rng.choice(['client1', 'dc-%d' % i])
            st = {'name': name, 'state': rng.choice(['idle', 'active']), 'type': 'DataCollector', 'x': [1, 2.5, None]}
            line = 'STATUS %r %s' % (VTime.now + skew, json.dumps(st))
        elif kind in ('START', 'STOP'):
            res = rng.choice([{}, {'Counts': {'A': [1]}}, [1, 'a b  c'], None, 0])
            line = '%s SUCCESS %s' % (kind, json.dumps(res))
        elif kind in ('STARTFAIL', 'STOPFAIL'):
            line = kind[:-4] + rng.choice([' FAIL', ' FAIL', '', ' WHATEVER'])
        elif kind == 'CHECKIN':
            line = 'CHECKIN SUCCESS'
        elif kind == 'long':
            line = 'STATUS %r %s' % (VTime.now, json.dumps({'name': 'client1', 'pad': 'y' * rng.choice([250, 10 ** 5])}))
        else:
            line = rng.choice(['FOO', 'STATUSX 1 {"name":"x"}', 'STATUS', 'STATUS 12', 'STARTED SUCCESS {}', 'STOPPED {}', '', 'status 1 {"name":"x"}', '  '])
        tail = 'STATUS %r {"name":"late","state":"idle"}\r\n' % VTime.now if kind in ('bad', 'CHECKIN') else ''
        dead = deliver(p, line + '\r\n' + tail, rng)
        ctx.check(not dead, 'a valid peer does not end the server', line=line[:200])
        new, out = f.calls[n0:], t.lines()[before:]
        ctx.count('server messages')
        if kind in ('STATUS', 'long'):
            if kind == 'long':
                name, st = 'client1', {'name': 'client1'}
                skew = 0.0
            uid = name
            ctx.check(new and new[0][0] == 'status' and new[0][1] == name, "a client's status is recorded under its name", calls=new, line=line[:200])
            got = new[0][2]
            for k in st:
                if kind != 'long':
                    ctx.eq(got[k], st[k], "the client's own fields are kept", field=k)
            ctx.eq(got['alive'], VTime.now, 'the time of the status is recorded')
            if last_sent is not None:
                ctx.close(got['rtt'], VTime.now - last_sent, 'the round trip time is that since our last status', abs_=1e-6)
                ctx.close(got['clock_skew'], abs(VTime.now - (VTime.now - last_sent) / 2 - (VTime.now + skew)), 'the clock skew', abs_=1e-5)
            last_sent = None
            ctx.eq(len(out), 1, 'a status is answered with one message', out=out)
            if f.stop_config is not None:
                want = ('STOP', f.stop_config)
            elif f.start_config is not None:
                want = ('START', f.start_config)
            else:
                want = ('CHECKIN', f.period)
            w, _, rest = out[0].partition(' ')
            ctx.eq((w, json.loads(rest)), want, 'the server asks to stop before to start, and to check in otherwise', out=out)
            ctx.check(all(c[1] == uid for c in new), 'the configuration is for this client', calls=new)
        elif kind in ('START', 'STOP', 'STARTFAIL', 'STOPFAIL'):
            what = 'start_result' if kind.startswith('START') else 'stop_result'
            want = None if kind.endswith('FAIL') else res
            ctx.eq(new, [(what, uid, want)], 'a result is recorded once, for this client', line=line)
            ctx.check(len(out) == 1 and out[0].startswith('STATUS '), 'a result is answered with the status', out=out)
            last_sent = VTime.now
        elif kind == 'CHECKIN':
            ctx.eq(new, [], 'nothing is processed after a check-in', calls=new)
            ctx.check(t.disconnecting, 'the connection closes after a check-in')
            break
        else:
            ctx.check(t.disconnecting, 'an invalid line closes the connection', line=line)
            ctx.eq(new, [], 'an invalid line, and what follows it, has no effect', line=line)
            ctx.eq(out, [], 'an invalid line is not answered', line=line)
            ctx.count('connections closed on an invalid line')
            break
    ctx.nontrivial('server', script)
    ctx.sample({'side': 'server', 'script': script, 'calls': f.calls[:4]}, limit=2)

def client_dialogue(ctx, rng, i):
    f = wire.ClientFactory(PATH[0])
    script, period, next_due = [], None, None
    for conn in range(rng.randrange(1, 4)):
        f, p, t = client(f)
        delays = f.reset_delays
        for _ in range(rng.randrange(1, 7)):
            kind = rng.choice(['STATUS', 'START', 'STOP', 'START', 'STOP', 'CHECKIN', 'bad'])
            script.append(kind)
            if next_due is None or rng.random() < 0.5:
                dt = rng.choice([0.0, 0.25])
                if next_due is None or VTime.now + dt < next_due - 1e-6:
                    reactor.advance(dt)
            n0, before = len(f.calls), len(t.lines())
            f.start_result = rng.choice([None, {}, {'dc1': {'secret': 'x'}}, {'status': 'ok'}])
            f.stop_result = rng.choice([None, {}, {'Counts': {'A': {'bins': [[0, 1, 2]]}}, 'Config': {}}])
            cfg = rng.choice([{}, {'counters': {'A': {'bins': [[0.0, float('inf')]]}}}, {'send_counters': False}, {'big': 'z' * 5000}])
            if kind == 'STATUS':
                line = 'STATUS %r %s' % (VTime.now, json.dumps({'state': 'idle', 'n': i}))
                follow = ''
            elif kind in ('START', 'STOP'):
                line = '%s %s' % (kind, json.dumps(cfg))
            elif kind == 'CHECKIN':
                n = rng.choice([1, 5, 60])
                line = 'CHECKIN %d' % n
            else:
                line = rng.choice(['FOO {}', 'STATUS', 'STATUSX 1 {}', 'CHECKIN', 'CHECKIN 1 2', 'CHECKINS 5', '', 'start {}'])
            tail = 'START {"late":1}\r\n' if kind in ('CHECKIN', 'bad') else ''
            dead = deliver(p, line + '\r\n' + tail, rng)
            ctx.check(not dead, 'a valid server does not end the client', line=line[:200])
            new, out = f.calls[n0:], t.lines()[before:]
            ctx.count('client commands')
            if kind == 'STATUS':
                ctx.eq(new, [('server_status', {'state': 'idle', 'n': i})], "the server's status is noted")
                ctx.eq(len(out), 1, 'a status is answered once', out=out)
                w = out[0].split(' ', 2)
                ctx.eq((w[0], json.loads(w[2])), ('STATUS', f.get_status()), 'with the status of the client', out=out)
                ctx.close(float(w[1]), VTime.now, 'and its time', abs_=0.02)
            elif kind in ('START', 'STOP'):
                ctx.eq(len(new), 1, 'a command is carried out once', calls=new, line=line)
                ctx.eq(new[0], (kind.lower(), cfg), 'with its configuration')
                res = f.start_result if kind == 'START' else f.stop_result
                ctx.eq(len(out), 1, 'a command is answered once', out=out)
                if res is None:
                    ctx.eq(out[0].split(), [kind, 'FAIL'], 'a failure is reported', out=out)
                else:
                    w = out[0].split(' ', 2)
                    ctx.eq((w[0], w[1], json.loads(w[2])), (kind, 'SUCCESS', res), 'the result is reported', out=out)
            elif kind == 'CHECKIN':
                ctx.eq(new, [], 'nothing is processed after a check-in', calls=new)
                ctx.eq(out, ['CHECKIN SUCCESS'], 'a check-in is confirmed')
                ctx.check(t.disconnecting and f.stopped_trying > 0, 'and the connection closes for good')
                period, next_due = n, VTime.now + n
                break
            else:
                ctx.check(t.disconnecting, 'an invalid line closes the connection', line=line)
                ctx.eq((new, out), ([], []), 'an invalid line, and what follows it, has no effect', line=line)
                ctx.count('connections closed on an invalid line')
                break
        # time passes: the client checks in on time, once per period
        if next_due is not None:
            dt = rng.choice([0.5, 3.0, 61.0])
            n0, end, want = len(f.calls), VTime.now + dt, 0
            t0 = VTime.now
            reactor.advance(dt)
            while next_due <= end + 1e-9:
                want += 1
                next_due += period
            got = len([c for c in f.calls[n0:] if c == ('checkin',)])
            if abs(next_due - period - end) > 1e-6:
                ctx.eq(got, want, 'the client checks in once per period, on the latest period', period=period, dt=dt, script=script)
            ctx.count('check-ins', got)
    ctx.nontrivial('client', script)
    ctx.sample({'side': 'client', 'script': script, 'calls': f.calls[:4]}, limit=4)

def case(ctx, rng, i):
    if i % 5 < 2:
        unauthenticated(ctx, rng, i)
    elif i % 5 == 2:
        server_dialogue(ctx, rng, i)
    else:
        client_dialogue(ctx, rng, i)
