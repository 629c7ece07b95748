'''C09: both ends of a connection prove that they know the shared secret.'''
import base64
import os
import re
import simenv
import wire
from wire import H1, H2, H3, H4, Transport, deliver
from privcount.protocol import PrivCountServerProtocol, PrivCountClientProtocol

ID, LEVEL = 'C09', 'exploration'
RULE = ('sequences of handshake and command lines, valid, replayed, reflected, relayed, reordered, repeated, tampered or made '
        'with another secret, in random fragments, sent to real server and client protocols; distinct by the sequence of line '
        'kinds and the side')
ASSUMPTIONS = ["the attacker can not guess 256-bit values; Python's hmac and hashlib are the reference",
               'TLS is not part of the check: the attacker controls the connection']
QUICK = dict(cases=2600, seconds=30)
THOROUGH = dict(cases=120000, seconds=1200)
REQUIRE = {'honest handshakes': 100, 'attacks on servers': 500, 'attacks on clients': 500, 'authenticated servers': 40,
           'authenticated clients': 40, 'refused by server': 300, 'cookies of the server shown to it': 10, 'refused by client': 300}
MIN_DISTINCT = 300

SECRETS = {}
def secret_file(ctx, n):
    if n not in SECRETS:
        d = ctx.scratch()
        path = os.path.join(d, 'secret%d' % n)
        key = ''.join(chr((i * 7 + n * 31 + 1) % 256) for i in range(32))
        f = open(path, 'w')
        f.write(base64.b64encode(key) + ('\n' if n == 0 else ''))
        f.close()
        SECRETS[n] = (path, key)
    return SECRETS[n]

def start_server(path, f=None):
    # all connections to a server share its factory
    f = f or wire.ServerFactory(path)
    p = PrivCountServerProtocol(f)
    t = Transport()
    p.makeConnection(t)
    return f, p, t

def start_client(path):
    f = wire.ClientFactory(path)
    p = PrivCountClientProtocol(f)
    t = Transport()
    p.makeConnection(t)
    return f, p, t

def cookie_of(t):
    return wire.b64d(t.lines()[0].split()[4])

def wellformed(line):
    'the form of a handshake line, which a node of another network or version may send'
    t = line.split()
    if len(t) < 5 or not t[0].startswith('HANDSHAKE'):
        return not line.startswith('HANDSHAKE')
    return all(x in ('SUCCESS', 'FAIL') or (len(x) == 44 and re.match('^[A-Za-z0-9+/]{43}=$', x)) for x in t[4:])

def honest(ctx, rng, path_s, path_c, same, f=None):
    sf, sp, st = start_server(path_s, f)
    cf, cp, ct = start_client(path_c)
    si = ci = 0
    for _ in range(8):
        moved = False
        d = st.data()[si:]
        if d and not ct.disconnecting:
            si += len(d)
            if deliver(cp, d, rng):
                break
            moved = True
        d = ct.data()[ci:]
        if d and not st.disconnecting:
            ci += len(d)
            if deliver(sp, d, rng):
                break
            moved = True
        if not moved:
            break
    return sf, st, cf, ct

def tamper(rng, line):
    how = rng.choice(['flip', 'cut', 'case', 'token', 'stage', 'role', 'version', 'type', 'extra', 'swap'])
    t = line.split(' ')
    if how == 'flip' and len(t) > 4:
        i = rng.randrange(4, len(t))
        j = rng.randrange(max(1, len(t[i]) - 2))
        c = rng.choice('ABCDEFGHabcdefgh01234567')
        t[i] = t[i][:j] + c + t[i][j + 1:]
    elif how == 'cut':
        t = t[:rng.randrange(1, len(t) + 1)]
        t[-1] = t[-1][:rng.randrange(0, len(t[-1]) + 1)]
    elif how == 'case':
        t[0] = t[0].lower()
    elif how == 'token':
        t.insert(rng.randrange(len(t) + 1), 'X')
    elif how == 'stage':
        t[0] = rng.choice([H1, H2, H3, H4]).split()[0]
    elif how == 'role' and len(t) > 2:
        t[2] = 'SERVER' if t[2] == 'CLIENT' else 'CLIENT'
    elif how == 'version' and len(t) > 1:
        t[1] = 'PRIVCOUNT-101'
    elif how == 'type' and len(t) > 3:
        t[3] = 'HMAC-MD5'
    elif how == 'extra':
        t.append(base64.b64encode('x' * 32))
    elif how == 'swap' and len(t) > 5:
        t[4], t[5] = t[5], t[4]
    return ' '.join(t)

def attack_server(ctx, rng, i):
    'an attacker, who may hold recordings and other connections, but not the secret, or an odd client that does'
    path, key = secret_file(ctx, 0)
    knows = rng.random() < 0.5
    sf, sp, st = start_server(path)
    sc = cookie_of(st)
    other_f, other_p, other_t = start_server(path, sf)
    other_sc = cookie_of(other_t)
    # recordings: a whole honest session with the same server
    _, hst, _, hct = honest(ctx, rng, path, path, True, sf)
    ctx.check(len(sf.calls) > 0, 'an honest client is served')
    ctx.check(cookie_of(hst) not in (sc, other_sc), 'every connection has a fresh cookie')
    del sf.calls[:]
    recorded = hct.lines() + hst.lines()
    # an honest client answers the attacker, who shows it a cookie of its choice
    def relay(cookie):
        cf, cp, ct = start_client(path)
        deliver(cp, '%s %s\r\n' % (H1, base64.b64encode(cookie)))
        return ct.lines()[0] if ct.lines() else ''
    my_key = key if knows else ''.join(chr(rng.randrange(256)) for _ in range(32))
    kinds, valid, authed, closed = [], False, False, False
    used_relay = False
    n = rng.randrange(1, 7)
    script = None if rng.random() < 0.55 else rng.choice([['good2', 'good4', 'STATUS'], ['good4', 'STATUS'], ['bad2', 'good4', 'STATUS'],
                         ['good4', 'good2', 'STATUS'], ['other2', 'good4', 'STATUS'], ['relay2', 'good4'],
                         ['reflect', 'good4'], ['same2', 'good4'], ['good2', 'STATUS', 'good4'], ['fail4', 'good4', 'STATUS'],
                         ['good2', 'fail4', 'good4', 'STATUS'], ['bad2', 'good2', 'good4', 'STATUS']])
    seq = list(script) if script else [rng.choice(['good2', 'good4', 'bad2', 'other2', 'relay2', 'relayother2', 'recorded', 'reflect',
                                                   'same2', 'fail4', 'STATUS', 'START', 'STOP', 'CHECKIN', 'junk', 'tampered2',
                                                   'tampered4', 'echo', 'prefix3']) for _ in range(n)]
    if not script and rng.random() < 0.4:
        seq = ['good2'] + (['good4'] if rng.random() < 0.3 else []) + seq
    cc = ''.join(chr(rng.randrange(256)) for _ in range(32))
    lines = []
    for kind in seq:
        if kind == 'good2':
            line = '%s %s %s' % (H2, base64.b64encode(cc), wire.hmac64(my_key, H2, sc, cc))
        elif kind == 'prefix3':
            # the proof a server would give
            line = '%s %s %s' % (H2, base64.b64encode(cc), wire.hmac64(my_key, H3, sc, cc))
        elif kind == 'same2':
            line = '%s %s %s' % (H2, base64.b64encode(sc), wire.hmac64(my_key, H2, sc, sc))
        elif kind == 'bad2':
            line = '%s %s %s' % (H2, base64.b64encode(cc), base64.b64encode(''.join(chr(rng.randrange(256)) for _ in range(32))))
        elif kind == 'other2':
            # a proof for the cookie of another connection
            line = '%s %s %s' % (H2, base64.b64encode(cc), wire.hmac64(key, H2, other_sc, cc))
        elif kind == 'relay2':
            line = relay(sc)
        elif kind == 'relayother2':
            line = relay(other_sc)
        elif kind == 'recorded':
            line = rng.choice(recorded)
        elif kind == 'reflect':
            # what the server itself says when shown a valid proof on the other connection
            l = other_t.lines()
            line = rng.choice(l)
        elif kind == 'echo':
            line = st.lines()[-1]
        elif kind == 'good4':
            line = H4 + ' SUCCESS'
        elif kind == 'fail4':
            line = H4 + ' FAIL'
        elif kind == 'tampered2':
            line = tamper(rng, '%s %s %s' % (H2, base64.b64encode(cc), wire.hmac64(my_key, H2, sc, cc)))
        elif kind == 'tampered4':
            line = tamper(rng, H4 + ' SUCCESS')
        elif kind == 'STATUS':
            line = 'STATUS 1500000000.0 {"name":"mallory","state":"idle","type":"DataCollector"}'
        elif kind == 'START':
            line = 'START SUCCESS {}'
        elif kind == 'STOP':
            line = 'STOP SUCCESS {}'
        elif kind == 'CHECKIN':
            line = 'CHECKIN SUCCESS'
        else:
            line = ''.join(rng.choice('HANDSKE1234 \tPRIVCOUNT{}"') for _ in range(rng.randrange(0, 60)))
        lines.append((kind, line))
        kinds.append(kind)
        before_calls = len(sf.calls)
        proof = wire.valid2(line, key, sc)
        dead = deliver(sp, line + '\r\n', rng)
        if dead:
            ctx.check(closed or valid or not wellformed(line), 'a well-formed line, even with a wrong proof, does not end the server', lines=lines)
            closed = True
        if proof is not None and not closed:
            valid = True
            if proof != sc:
                ctx.check(any(wire.valid3(l, key, sc, proof) for l in st.lines()),
                          'the server proves its own knowledge of the secret', lines=lines, sent=st.lines())
        if proof is not None and proof == sc and not dead:
            ctx.check(closed or st.disconnecting, "a client that shows the server's own cookie is refused", lines=lines)
            ctx.count('cookies of the server shown to it')
        if proof is None and kind.endswith('2') and not authed:
            ctx.check(closed or st.disconnecting, 'a wrong proof ends the connection', lines=lines)
        sent_status = any(l.startswith('STATUS') for l in st.lines())
        acted = len(sf.calls) > 0
        ctx.check(valid or not (sent_status or acted),
                  'the server serves a client that has not proved to know the secret', lines=lines, sent=st.lines(), calls=sf.calls)
        if closed or st.disconnecting:
            closed = True
        if sent_status:
            authed = True
        if dead:
            break
    if seq[:2] == ['good2', 'good4'] and knows:
        ctx.check(authed, 'a client that proves to know the secret is served', lines=lines, sent=st.lines())
    ctx.check(base64.b64encode(key) not in st.data() and key not in st.data(), 'the secret is never sent')
    ctx.check(sc != other_sc, 'every connection has a fresh cookie')
    ctx.check(sc in simenv.URANDOM and other_sc in simenv.URANDOM, 'the cookie comes from the system CSPRNG')
    ctx.count('attacks on servers')
    ctx.count('authenticated servers' if authed else 'refused by server')
    ctx.nontrivial('server', knows, kinds)
    ctx.sample({'side': 'server', 'knows the secret': knows, 'lines': lines, 'served': authed})

def attack_client(ctx, rng, i):
    path, key = secret_file(ctx, 0)
    knows = rng.random() < 0.5
    my_key = key if knows else ''.join(chr(rng.randrange(256)) for _ in range(32))
    cf, cp, ct = start_client(path)
    sc = ''.join(chr(rng.randrange(256)) for _ in range(32))
    _, hst, _, hct = honest(ctx, rng, path, path, True)
    recorded = hst.lines() + hct.lines()
    script = None if rng.random() < 0.55 else rng.choice([['h1', 'good3', 'STATUS', 'START'], ['h1', 'START'], ['good3', 'START'], ['h1', 'bad3', 'START'],
                         ['h1', 'reflect3', 'START'], ['h1', 'prefix2', 'START'], ['h1', 'recorded3', 'STOP'], ['START'], ['STATUS'],
                         ['h1', 'bad3', 'good3', 'START'], ['h1', 'h1b', 'good3', 'START'], ['h1', 'fail3', 'START']])
    seq = list(script) if script else [rng.choice(['h1', 'h1b', 'good3', 'bad3', 'reflect3', 'prefix2', 'recorded', 'recorded3', 'fail3', 'tampered3',
                                                   'tampered1', 'STATUS', 'START', 'STOP', 'CHECKIN', 'echo', 'junk', 'h4'])
                                       for _ in range(rng.randrange(1, 7))]
    if not script and rng.random() < 0.6:
        seq = ['h1'] + (['good3'] if rng.random() < 0.3 else []) + seq
    shown, valid, lines, closed, authed = None, False, [], False, False
    for kind in seq:
        cookies = [l.split() for l in ct.lines() if l.startswith(H2) and len(l.split()) == 6]
        cc = wire.b64d(cookies[-1][4]) if cookies else None
        c = cc or 'c' * 32
        if kind == 'h1':
            line = '%s %s' % (H1, base64.b64encode(sc))
        elif kind == 'h1b':
            sc = ''.join(chr(rng.randrange(256)) for _ in range(32))
            line = '%s %s' % (H1, base64.b64encode(sc))
        elif kind == 'good3':
            line = '%s %s' % (H3, wire.hmac64(my_key, H3, sc, c))
        elif kind == 'bad3':
            line = '%s %s' % (H3, base64.b64encode(''.join(chr(rng.randrange(256)) for _ in range(32))))
        elif kind == 'reflect3':
            line = '%s %s' % (H3, cookies[-1][5] if cookies else base64.b64encode('z' * 32))
        elif kind == 'prefix2':
            line = '%s %s' % (H3, wire.hmac64(my_key, H2, sc, c))
        elif kind == 'recorded':
            line = rng.choice(recorded)
        elif kind == 'recorded3':
            line = [l for l in recorded if l.startswith(H3)][0]
        elif kind == 'fail3':
            line = H3 + ' FAIL'
        elif kind == 'tampered3':
            line = tamper(rng, '%s %s' % (H3, wire.hmac64(my_key, H3, sc, c)))
        elif kind == 'tampered1':
            line = tamper(rng, '%s %s' % (H1, base64.b64encode(sc)))
        elif kind == 'echo':
            line = ct.lines()[-1] if ct.lines() else 'X'
        elif kind == 'h4':
            line = H4 + ' SUCCESS'
        elif kind == 'STATUS':
            line = 'STATUS 1500000000.0 {"state":"idle"}'
        elif kind == 'START':
            line = 'START {"counters":{}}'
        elif kind == 'STOP':
            line = 'STOP {"send_counters":true}'
        elif kind == 'CHECKIN':
            line = 'CHECKIN 5'
        else:
            line = ''.join(rng.choice('HANDSKE1234 \tPRIVCOUNT{}"') for _ in range(rng.randrange(0, 60)))
        lines.append((kind, line))
        t = line.split()
        if not closed:
            if t[:4] == H1.split() and len(t) == 5 and wire.b64d(t[4]) is not None and len(t[4]) == 44:
                shown = wire.b64d(t[4])
            elif wire.valid3(line, key, shown, cc):
                valid = True
        dead = deliver(cp, line + '\r\n', rng)
        ctx.check(not dead or closed or valid or not wellformed(line) or t[0] == H3.split()[0] and shown is None, 'a well-formed line, even with a wrong proof, does not end the client',
                  lines=lines)
        for l in ct.lines():
            if l.startswith(H2) and len(l.split()) == 6:
                ctx.check(shown is not None, 'a proof is given for the cookie shown')
        new = [l for l in ct.lines() if l.startswith(H2) and len(l.split()) == 6]
        if new and len(new) > len(cookies):
            ctx.check(wire.valid2(new[-1], key, shown) is not None, "the client's proof is correct", line=new[-1])
            ccn = wire.b64d(new[-1].split()[4])
            ctx.check(ccn in simenv.URANDOM, "the client's cookie comes from the system CSPRNG")
            ctx.check(cc is None or ccn != cc, "the client's cookie is fresh for every proof")
        acted = [x for x in cf.calls]
        if acted or any(l == H4 + ' SUCCESS' or l.startswith(('STATUS', 'START', 'STOP', 'CHECKIN')) for l in ct.lines()):
            authed = True
        ctx.check(valid or not authed, 'the client obeys a server that has not proved to know the secret', lines=lines,
                  calls=cf.calls, sent=ct.lines())
        ctx.check(valid or cf.reset_delays == 0, 'the reconnection delay is only reset by a proven server', lines=lines)
        if kind in ('bad3', 'reflect3', 'fail3', 'recorded3') and not valid:
            ctx.check(dead or ct.disconnecting, 'a wrong proof ends the connection', lines=lines)
        if dead or ct.disconnecting:
            closed = True
        if dead:
            break
    if knows and seq[:2] == ['h1', 'good3']:
        ctx.check(H4 + ' SUCCESS' in ct.lines(), 'a server that proves to know the secret is accepted', lines=lines, sent=ct.lines())
    ctx.check(base64.b64encode(key) not in ct.data() and key not in ct.data(), 'the secret is never sent')
    ctx.count('attacks on clients')
    ctx.count('authenticated clients' if authed else 'refused by client')
    ctx.nontrivial('client', knows, seq)
    ctx.sample({'side': 'client', 'knows the secret': knows, 'lines': lines, 'obeyed': authed}, limit=4)

def case(ctx, rng, i):
    if i % 5 == 0:
        same = rng.random() < 0.6
        p0, key = secret_file(ctx, 0)
        p1, _ = secret_file(ctx, 1)
        if same and rng.random() < 0.3:
            # a new secret is generated when there is none
            p0 = p1 = os.path.join(ctx.scratch(), 'new')
        else:
            p1 = p0 if same else p1
        sf, st, cf, ct = honest(ctx, rng, p0, p1, same)
        served = any(c[0] == 'status' for c in sf.calls)
        ctx.eq(served, same, 'the handshake succeeds exactly when both ends have the same secret', server=st.lines(), client=ct.lines())
        ctx.eq(any(c[0] == 'server_status' for c in cf.calls), same, 'so the client learns the status', calls=cf.calls)
        if not same:
            ctx.check(st.disconnecting or ct.disconnecting or simenv.EXITS, 'a failed handshake closes the connection')
        ctx.count('honest handshakes')
        ctx.nontrivial('honest', same, len(st.out), len(ct.out))
    elif i % 5 in (1, 2):
        attack_server(ctx, rng, i)
    else:
        attack_client(ctx, rng, i)
