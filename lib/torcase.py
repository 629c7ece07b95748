'''
One round of a data collector against a simulated relay. What is checked is
split into topics, and each check evaluates the topic it is about:
auth: authentication; events: what is requested and counted; relay: which
relays are used, how they are configured, and what is reported about them.
'''
import hashlib
import json
import os

import evsim
import torsim
from evsim import SINGLE
from gen import *
from simenv import VTime, Rand, net, reactor

HARMLESS = ('SETEVENTS', 'SETCONF EnablePrivCount=0', 'SETCONF PrivCountCircuitSampleRate=1.0',
            'SETCONF PrivCountMaxCellEventsPerCircuit=-1', 'SETCONF __ReloadTorrcOnSIGHUP=1', 'SET_TMODEL FALSE', 'QUIT')
MODEL = {'packet_model': {
    'state_space': ['m1s0', 'm0sEnd'], 'observation_space': ['+', '-', 'F'], 'start_probability': {'m1s0': 1.0},
    'transition_probability': {'m1s0': {'m1s0': 0.25, 'm0sEnd': 0.75}, 'm0sEnd': {}},
    'emission_probability': {'m1s0': {'+': [0.5, 3.0, 0.5, 0.125], '-': [0.5, 3.0, 0.5, 0.25]}, 'm0sEnd': {'F': [1.0]}}}}

def secret(rng, n):
    return ''.join(chr(rng.randrange(256)) for _ in range(n))

def authentication(rng, d):
    'options of the relay and of the event source, and the method that should be used (None: none)'
    o, source = {}, {}
    kind = rng.choice(['null', 'null', 'cookie', 'cookie', 'cookie', 'password', 'password', 'any', 'any', 'any'])
    methods = {'null': ['NULL'], 'cookie': ['COOKIE', 'SAFECOOKIE'], 'password': ['HASHEDPASSWORD']}.get(kind)
    if methods is None:
        methods = rng.sample(['NULL', 'COOKIE', 'SAFECOOKIE', 'HASHEDPASSWORD'], rng.randrange(1, 5))
    o['methods'] = methods
    password_ok = cookie_ok = False
    cookie = secret(rng, 32)
    password = rng.choice(['correct horse', 'a "quoted" \\ secret', '0123456789abcdef', 'x' * 1024, secret(rng, 20)])
    file_state = 'good' if kind != 'any' else rng.choice(['good', 'good', 'other', 'short', 'long', 'missing'])
    if 'SAFECOOKIE' in methods or 'COOKIE' in methods:
        path = os.path.join(d, rng.choice(['cookie', 'control auth cookie', 'a"b\\c']))
        content = {'good': cookie, 'other': secret(rng, 32), 'short': cookie[:rng.randrange(0, 32)],
                   'long': cookie + 'x', 'missing': None}[file_state]
        if file_state in ('short', 'long'):
            # (the relay agrees, so that only the length is wrong)
            cookie = content
        if content is not None:
            f = open(path, 'wb')
            f.write(content)
            f.close()
        o['cookie'] = cookie
        if kind != 'any' or rng.random() < 0.8:
            o['cookie_path'] = path
        cookie_ok = file_state == 'good'
        if kind == 'any' and rng.random() < 0.4:
            other = rng.choice(['hash', 'nonce', 'short', 'client'])
            if other == 'hash':
                o['lie'] = lambda h, n: (h[:-1] + chr(ord(h[-1]) ^ 1), n)
            elif other == 'nonce':
                o['lie'] = lambda h, n: (h, chr(ord(n[0]) ^ 128) + n[1:])
            elif other == 'short':
                o['lie'] = lambda h, n: rng.choice([(h[:31], n), (h, n[:31]), (h, n + 'x'), (h + 'x', n), (h[:0], n)])
            else:
                # a relay that does not have the cookie, and sends something of the right form
                o['lie'] = lambda h, n: (hashlib.sha256(n).digest(), n)
            cookie_ok = False
    state = 'good' if kind != 'any' else rng.choice(['good', 'none', 'short', 'long', 'wrong', 'missing'])
    configured = None
    if state == 'good' or state == 'wrong':
        configured = password
    elif state == 'short':
        configured = password = 'seven77'[:rng.randrange(0, 8)]
    elif state == 'long':
        configured = password = 'x' * 1025
    o['password'] = password if state != 'wrong' else 'something else'
    if configured is not None or state == 'missing':
        source['control_password'] = os.path.join(d, 'password.txt')
        if configured is not None:
            f = open(source['control_password'], 'wb')
            f.write(configured)
            f.close()
    usable = state in ('good', 'wrong')
    if 'SAFECOOKIE' in methods and 'cookie_path' in o:
        want = 'SAFECOOKIE' if cookie_ok else None
    elif 'HASHEDPASSWORD' in methods and usable:
        want = 'HASHEDPASSWORD'
        password_ok = state == 'good'
    elif 'NULL' in methods:
        want = 'NULL'
    else:
        want = None
    # a wrong password is accepted by a relay that accepts anything
    works = want == 'NULL' or want == 'SAFECOOKIE' or (want == 'HASHEDPASSWORD' and (password_ok or 'NULL' in methods))
    return o, source, want, works, cookie, password

class Watch(object):
    'what the data collector sent and received, on its own side of each connection'
    def __init__(self, effects):
        self.effects = effects
        self.active = {}
        self.sent = {}
        self.total = {}
        self.counted = self.ignored = 0
        self.last = None
        net.on_connect = self.connected
        net.tap = self.tap

    def connected(self, conn):
        proto = conn.proto['c']
        old = proto.lineReceived
        self.sent[conn] = ''
        self.active[conn] = set()
        def received(line):
            self.received(conn, line)
            return old(line)
        proto.lineReceived = received

    def tap(self, conn, side, data):
        if side != 'c':
            return
        self.sent[conn] += data
        while '\r\n' in self.sent[conn]:
            line, _, self.sent[conn] = self.sent[conn].partition('\r\n')
            if line.split(' ')[0] == 'SETEVENTS':
                self.active[conn] = set(line.split()[1:])
            elif line == 'QUIT':
                self.active[conn] = set()

    def received(self, conn, line):
        parts = line.strip().split(' ')
        if parts[0] == '650' and len(parts) > 1:
            if parts[1] in self.active[conn] and len(parts) > 2:
                e = self.effects.get(line, {})
                evsim.merge(self.total, e)
                self.last = VTime.now
                self.counted += 1
            else:
                self.ignored += 1

def stream_items(rng, good=True):
    t = 1.5e9 + rng.randrange(1000)
    items = [str(rng.randrange(5)), str(rng.randrange(100)), str(rng.randrange(100)), rng.choice(['80', '443', '22']),
             str(rng.randrange(10 ** 6)), str(rng.randrange(10 ** 6)), '%.6f' % t, '%.6f' % (t + 5), 'example.com', '192.0.2.1', rng.choice('12')]
    return items if good else rng.choice([items[:-1], items + ['1'], items[:-1] + ['x']])

class Off(object):
    def check(self, *a, **k):
        pass
    eq = check

def case(ctx, rng, i, topic):
    import c20
    auth, events_, relay_ = [ctx if topic == t else Off() for t in ('auth', 'events', 'relay')]
    known = evsim.known_names()
    d = ctx.scratch()
    net.isolate = True
    net.rng = rng
    net.max_latency = rng.choice([0.0, 0.05, 0.5])
    net.fragment = rng.random() < 0.6
    plain = rng.random() < {'auth': 0.05, 'events': 0.8, 'relay': 0.7}[topic]
    if plain:
        options, source, want, works, cookie, password = {}, {}, 'NULL', True, None, None
    else:
        options, source, want, works, cookie, password = authentication(rng, d)
    kind = rng.choice(['good'] * {'auth': 40, 'events': 20, 'relay': 6}[topic] + ['unpatched', 'client', 'off', 'denied', 'bad fingerprint'])
    use_setconf = rng.random() < 0.7 and kind != 'off'
    fps = [rand_fp(rng) for _ in range(3)]
    fp = fps[0]
    o = dict(options, fingerprint=fp)
    o['nickname'] = rng.choice(['Relay%d' % rng.randrange(100), 'n' * 19, None, 'n' * 20, 'bad name'])
    o['orports'] = rng.sample(['9001', '[2001:db8::1]:443', '443 NoAdvertise', '0.0.0.0:9001'], rng.randrange(0, 4))
    o['dirports'] = rng.sample(['9030', '80 NoListen'], rng.randrange(0, 3))
    o['geoip'] = rng.choice(['/usr/share/tor/geoip', None])
    o['geoip6'] = rng.choice(['/usr/share/tor/geoip6', None])
    o['address'] = rng.choice(['192.0.2.7', '10.1.2.3', '198.151.100.203', '1.2.3.4', None, '2001:db8::1', '192.0.2.7.192.0.2.7'])
    o['flags'] = rng.choice([['Fast', 'Running'], ['Exit', 'Fast', 'Guard', 'HSDir', 'Running', 'Stable', 'V2Dir', 'Valid'], ['Running'], None])
    o['missing_as_552'] = rng.random() < 0.5
    if kind == 'unpatched':
        o['privcount_version'] = None
    elif kind == 'client':
        o['fingerprint'] = None
    elif kind == 'bad fingerprint':
        o['fingerprint'] = rng.choice([fp[:39], fp + '0', 'G' + fp[1:], ''])
    relay = torsim.Relay(rng, **o)
    def install():
        'another version of tor'
        relay.version = rng.choice(['0.3.0.7', '0.3.1.10', '0.2.9.14', '0.3.2.3-alpha'])
        relay.full_version = rng.choice(['%s (git-abcdef0123456789)', '%s (git-ABCDEF0123456789)', '%s', '%s-dev (git-0)']) % relay.version
        if relay.privcount_version is not None:
            relay.privcount_version = rng.choice(['1.2.0', '2.0.0', '1.2.0-Beta'])
    if rng.random() < 0.7:
        install()
    if not use_setconf and kind != 'off':
        relay.conf['EnablePrivCount'] = '1'
    first_conf = dict(relay.conf)
    relay.listen()

    # what is collected
    bins = {}
    names = [n for n in sorted(known) if n.startswith(('EntryConnection', 'NonEntryConnection')) and 'Match' not in n]
    wanted = set()
    if rng.random() < 0.9:
        wanted.add('PRIVCOUNT_CONNECTION_CLOSE')
        for n in rng.sample(names, rng.choice([1, 4, 12])) + ['EntryConnectionCount', 'NonEntryConnectionCount']:
            bins[n] = evsim.make_bins(rng, n, [0, 1, 5, 514, 10.0, 119.0])
    if rng.random() < 0.4:
        wanted.update(['PRIVCOUNT_STREAM_ENDED'])
        bins['ExitStreamCount'] = [[0.0, INF]]
    bins['ZeroCount'] = [[0.0, INF]]
    extra = {}
    model = rng.random() < 0.2
    if model:
        extra['traffic_model'] = MODEL
    rate, cells = rng.choice([1.0, 1.0, 0.5, 0.125, 0.0]), rng.choice([-1, -1, 0, 7, 10000])
    if rate != 1.0 or rng.random() < 0.3:
        extra['circuit_sample_rate'] = rate
    if cells >= 0 or rng.random() < 0.3:
        extra['max_cell_events_per_circuit'] = cells
    if kind == 'denied':
        extra['noise_weight'] = {fps[1]: 1.0}
    else:
        extra['noise_weight'] = rng.choice([{'*': 1.0}, {fp: 1.0, '*': 0.5, fps[1]: 0.25}])
    if kind != 'good' and kind != 'denied':
        extra['noise_weight'] = {'*': 1.0}
    elif want is None or not works:
        extra['noise_weight'] = {'*': 1.0}

    effects = {}
    watch = Watch(effects)
    history = []

    def make_event(which):
        if which == 'connection' or which == 'malformed':
            f = c20.connection(rng)
            e, _, _ = c20.reference(f, [], None, [])
            items = evsim.tagged(rng, f)
            if which == 'malformed':
                e = {}
                items = [s for s in items if not s.startswith('RemoteIsClientFlag')]
            code = 'PRIVCOUNT_CONNECTION_CLOSE'
        elif which in ('stream', 'bad stream'):
            items = stream_items(rng, which == 'stream')
            code = 'PRIVCOUNT_STREAM_ENDED'
            e = {('ExitStreamCount', SINGLE): 1} if which == 'stream' else {}
        elif which == 'other':
            code, items, e = rng.choice(['PRIVCOUNT_HSDIR_CACHE_STORE', 'PRIVCOUNT_CIRCUIT_CELL', 'PRIVCOUNT_DNS_RESOLVED',
                                         'PRIVCOUNT_CIRCUIT_ENDED']), ['1', '2'], {}
        else:
            code, items, e = 'PRIVCOUNT_CONNECTION_CLOSE', [], {}
        line = ' '.join(['650', code] + items)
        effects[line] = e
        return line

    # events that the relay sends before it is asked to are not counted
    if rng.random() < 0.4:
        relay.early = [make_event('connection') for _ in range(2)]

    col = evsim.Collector(ctx, bins, extra, fingerprint=False, conf={'use_setconf': use_setconf}, source=source, sigma=3.0, z=1.0)
    down = [False]
    net.refuse = lambda connector: down[0]

    def live():
        s = relay.live()
        return s[0] if s else None

    def settle(seconds):
        reactor.advance(seconds)

    settle(5.0)
    if works:
        auth.check(relay.sessions and relay.sessions[0].authenticated, 'the data collector authenticates',
                   methods=relay.methods, method=want)
    lost = 0
    cut = []
    bad_stream = kind == 'good' and 'PRIVCOUNT_STREAM_ENDED' in wanted
    for _ in range(rng.choice([1, 2] if topic == 'auth' else [1, 3, 6, 10])):
        s = live()
        a = rng.choice(['events'] * 6 + ['many'] * 2 + ['lost', 'restart', 'hour', 'hour', 'error', 'wait', 'half'])
        history.append(a)
        if a in ('events', 'many') and s is not None and s.authenticated:
            for _ in range(rng.choice([1, 3, 8])):
                which = rng.choice(['connection'] * 6 + ['malformed', 'stream', 'stream', 'other', 'empty'] + (['bad stream'] if bad_stream and rng.random() < 0.3 else []))
                lines = [make_event(which) for _ in range(1 if a == 'events' else 3)]
                s.send(*lines)
                if rng.random() < 0.3:
                    settle(0.1)
            settle(rng.choice([0.0, 0.2, 3.0]))
        elif a == 'lost' and s is not None:
            s.drop()
            cut.append(s)
            lost += 1
            settle(rng.choice([0.5, 40.0]))
        elif a == 'restart' and s is not None:
            down[0] = True
            s.drop()
            cut.append(s)
            lost += 1
            relay.conf.update(first_conf)
            relay.tmodel = None
            if kind == 'good' and rng.random() < 0.3:
                relay.fingerprint = rng.choice(fps)
            relay.flags = rng.choice([['Running'], ['Guard', 'Fast'], None])
            if rng.random() < 0.5:
                install()
            settle(rng.choice([1.0, 60.0]))
            down[0] = False
            settle(rng.choice([0.5, 100.0]))
        elif a == 'hour':
            relay.flags = rng.choice([['Running', 'Exit'], ['Guard'], ['Stable', 'Running', 'HSDir'], None])
            if s is not None and rng.random() < 0.7:
                s.interleave = lambda sess: sess.send(make_event(rng.choice(['connection', 'malformed', 'other'])))
            settle(3700.0)
        elif a == 'error' and s is not None and s.authenticated:
            s.send(rng.choice(['550 Internal error', '451 Resource exhausted', 'garbage', '650 PRIVCOUNT', '']))
            cut.append(s)
            lost += 1
            settle(rng.choice([1.0, 50.0]))
        elif a == 'half':
            settle(net.max_latency / 2)
        else:
            settle(rng.choice([1.0, 30.0]))

    good = kind == 'good' and works and want is not None
    if good and rng.random() < 0.8:
        down[0] = False
        settle(8000.0)
        s = live()
        events_.check(s is not None and s.events == wanted, 'the data collector is connected again, and gets the events it counts',
                  connected=s is not None, events=s and sorted(s.events), wanted=sorted(wanted), history=history)
        relay_.check(s.ns_requests and s.ns_requests[-1][0] > VTime.now - 3700.0, 'the consensus entry is requested every hour',
                  history=history)
        st = col.dc.get_status()
        want_status = {'fingerprint': fp, 'tor_version': relay.full_version, 'tor_privcount_version': relay.privcount_version,
                       'flag_list': relay.flags or [], 'geoip_file': o['geoip'] or '', 'geoipv6_file': o['geoip6'] or '',
                       'noise_weight_value': 1.0, 'state': 'active',
                       'nickname': '' if o['nickname'] is None else (o['nickname'] if o['nickname'].isalnum() and len(o['nickname']) < 20 else None),
                       'orport': ', '.join(sorted(o['orports'])) or None, 'dirport': ', '.join(sorted(o['dirports'])) or None,
                       'address': o['address'] if o['address'] in ('192.0.2.7', '10.1.2.3', '198.151.100.203', '1.2.3.4') else None, 'last_event_time': watch.last}
        relay_.eq(dict((k, st.get(k)) for k in want_status), want_status, 'the status describes the relay', history=history)
        ctx.count('statuses compared')
        for _ in range(rng.randrange(4)):
            s.send(make_event('connection'))
        settle(rng.choice([0.01, 5.0]))

    # the end of the round
    s = live()
    clean = s is not None and s.authenticated and not s.quit
    events = watch.total.copy()
    stopped = VTime.now
    r = col.dc.do_stop({'send_counters': True}) or {}
    events_.eq(watch.total, events, 'nothing is received while the round stops')
    if s is not None and s.authenticated:
        s.send(make_event('connection'))
    n = len(relay.sessions)
    settle(9000.0)
    relay_.eq(len(relay.live()), 0, 'the control connection is closed at the end of the round', history=history)
    relay_.eq(len(relay.sessions), n, 'the data collector does not connect again after the round', history=history)

    witness = dict(history=history, kind=kind, methods=relay.methods, method=want, use_setconf=use_setconf,
                   sessions=[[l for _, _, l in x.lines][-25:] for x in relay.sessions[-2:]])
    nonces = []
    enabled = 0
    for x in relay.sessions:
        ctx.count('sessions')
        text = '\n'.join(l for _, _, l in x.lines)
        for t, authenticated, line in x.lines:
            word = line.split(' ')[0]
            auth.check(authenticated or word in ('PROTOCOLINFO', 'AUTHCHALLENGE', 'AUTHENTICATE') or line in HARMLESS,
                      'nothing is asked of the relay before authentication', line=line, **witness)
            relay_.check(use_setconf or word != 'SETCONF', 'SETCONF is not used unless configured', line=line, **witness)
        auths = [l for _, _, l in x.lines if l.startswith('AUTHENTICATE')]
        if cookie is not None and len(cookie) >= 16:
            auth.check(cookie.encode('hex') not in text.lower() and cookie not in text, 'the cookie is not sent', **witness)
        if password is not None and len(password) >= 8 and want != 'HASHEDPASSWORD':
            auth.check(password.encode('hex') not in text.lower() and password not in text, 'the password is not sent', **witness)
        if want is None:
            auth.eq(auths, [], 'there is no way to authenticate', **witness)
            ctx.count('authentication avoided')
        elif auths:
            auth.eq(len(auths), 1, 'one attempt to authenticate', **witness)
            arg = auths[0].partition(' ')[2].strip()
            if want == 'NULL':
                auth.eq(arg, '', 'no secret is sent when none is needed', **witness)
            else:
                right = torsim.mac(torsim.C2S, cookie + x.client_nonce + x.server_nonce) if want == 'SAFECOOKIE' else password
                auth.check(torsim.secret(arg) == right, 'the best method is used', sent=arg, **witness)
            ctx.count('authenticated by ' + want)
        if x.client_nonce is not None:
            auth.check(len(x.client_nonce) == 32, 'the client nonce has 32 bytes', **witness)
            nonces.append(x.client_nonce)
        for evs, conf, tmodel in x.enabled:
            enabled += 1
            relay_.check(x.told_fingerprint and kind in ('good', 'off'), 'events are only requested from a PrivCount relay that may count',
                      **witness)
            events_.eq(evs, wanted, 'the events that the counters need are requested, and no others', **witness)
            relay_.check(x.authenticated and (not use_setconf or (
                conf['EnablePrivCount'] == '1' and float(conf['PrivCountCircuitSampleRate']) == rate and
                int(conf['PrivCountMaxCellEventsPerCircuit']) == cells and conf['__ReloadTorrcOnSIGHUP'] == '0')),
                'the relay is configured before events are requested', conf=conf, rate=rate, cells=cells, **witness)
            if not use_setconf:
                relay_.eq(conf, first_conf, 'the relay is not configured', **witness)
            relay_.eq(tmodel is not None, model, 'the relay has the traffic model of the round', **witness)
            if model:
                relay_.eq(json.loads(tmodel.replace(';', ',')), json.loads(json.dumps(MODEL)), 'the traffic model', **witness)
        for t, f in x.ns_requests:
            relay_.check(f == fp, 'the relay asks for its own consensus entry', asked=f, **witness)
    auth.eq(len(set(nonces)), len(nonces), 'every client nonce is fresh', **witness)
    if kind == 'off' and works:
        for x in relay.sessions:
            for k, (t, _, line) in enumerate(x.lines):
                if line.startswith('SETEVENTS P'):
                    later = [u for u, _, l in x.lines[k:] if l == 'QUIT' and u - t < 5.0]
                    relay_.check(later or x in cut or t > stopped - 5.0, 'a relay that does not send events is not used as if it did', **witness)
                    ctx.count('relays refused')
    elif kind != 'good' and works:
        ctx.count('relays refused', len(relay.sessions))
    if clean and (works or want is not None):
        final = dict(relay.conf)
        expected = dict(first_conf)
        if use_setconf:
            expected = {'EnablePrivCount': '0', 'PrivCountCircuitSampleRate': '1.0', 'PrivCountMaxCellEventsPerCircuit': '-1',
                        '__ReloadTorrcOnSIGHUP': '1'}
        relay_.eq(final, expected, 'the configuration of the relay is restored at the end of the round', **witness)
        relay_.check(relay.tmodel is None, 'the relay has no traffic model after the round', **witness)
        ctx.count('configuration restored')

    reached = [x for x in relay.sessions if x.told_fingerprint]
    if kind == 'denied' and (reached or extra['noise_weight'].get('*') is None):
        ctx.check('Counts' not in r or not r['Counts'], 'a relay without a noise weight does not count', **witness)
        if reached:
            ctx.eq(len(relay.sessions), len([x for x in relay.sessions if x is reached[0] or x in relay.sessions[:relay.sessions.index(reached[0])]]),
                   'a relay without a noise weight is left alone', **witness)
        ctx.count('rounds denied')
    else:
        ctx.check('Counts' in r, 'the counts are reported', **witness)
        got = col.unblind(r['Counts'])
        total = dict(watch.total)
        weights = dict(((k, b), 3) for k in bins for b in range(len(bins[k])))
        got = dict((k, (got[k] - weights[k]) % evsim.M) for k in got)
        evsim.compare(ctx, bins, got, total, 'the counts, without the noise', **witness)
        if enabled:
            ctx.count('rounds that count')
    ctx.count('events counted', watch.counted)
    ctx.count('events not counted', watch.ignored)
    ctx.count('connections lost', lost)
    for e in net.errors:
        ctx.count('protocol errors')
    ctx.nontrivial(kind, want, works, use_setconf, sorted(wanted), tuple(sorted(set(history))), watch.counted > 0)
    ctx.sample({'kind': kind, 'history': history, 'methods': relay.methods, 'counted': watch.counted})
