'''C41: what nodes tell operators about themselves and each other.'''
import os
import re
from datetime import datetime

import evsim
import rounds
import simenv
import torsim
import tsim
from c35 import period, stamp
from gen import *
from simenv import VTime, LOG, reactor
from privcount.data_collector import DataCollector
from privcount.share_keeper import ShareKeeper

ID, LEVEL = 'C41', 'exploration'
RULE = ('random runs of a tally server with clients that join, leave, lose their relays and get no events; random statuses; and random '
        'rounds of a data collector whose relay is away or silent; distinct by history or status')
ASSUMPTIONS = ['messages are found by the words of the present ones; log levels by their numbers']
QUICK = dict(cases=150, seconds=35)
THOROUGH = dict(cases=6000, seconds=1200)
REQUIRE = {'statuses compared': 700, 'warnings: checkin': 80, 'warnings: control': 100, 'warnings: events': 120, 'quiet loops': 400,
           'statuses logged': 120, 'collector warnings': 80, 'collector quiet': 30, 'client statuses': 1800, 'rounds without events': 25,
           'events likely': 30, 'events unlikely': 60, 'loops beside a limit': 40}
MIN_DISTINCT = 60

CONTROL, EVENTS = 10.0, 3600.0          # seconds
PATIENCE = 3
WARN, NOTE = 30, 20
DISPLAY = re.compile(r' ((?:dc|sk)\d)')

def likely(names, flags):
    'are events likely, for these counters and flags?'
    pairs = (('Guard', 'Entry'), ('Exit', 'Exit'), ('HSDir', 'HSDir2'), ('HSDir3', 'HSDir3'))
    names = [n for n in names if n != 'ZeroCount']
    return any(f in flags and n.startswith(p) for f, p in pairs for n in names)

def either(t, desc):
    return '(%s %s %d)' % (desc, stamp(t), int(t))

def status_lines(st, now):
    'what a status should look like in a log'
    since = '%s %s' % (period(now // 1 - int(st['time'])), either(st['time'], 'since'))
    end = ''
    if 'expected_end_time' in st:
        t = st['expected_end_time']
        if t > now:
            end = ', expect collection to end in %s %s' % (period(int(t) - now // 1), either(t, 'at'))
        else:
            end = ', expect collection has ended for %s %s' % (period(now // 1 - int(t)), either(t, 'since'))
    lines = ['--server status: PrivCount is %s for %s%s' % (st['state'], since, end),
             '--server status: PrivCount server version %s' % st['privcount_version']]
    g = lambda k: st[k]
    lines.append('--server status: DataCollectors: have %d, need %d, %d/%d active (%d control, %d event), %d/%d idle' % (
        g('dcs_total'), g('dcs_required'), g('dcs_active'), g('dcs_total'), g('dcs_control'), g('dcs_event'), g('dcs_idle'), g('dcs_total')))
    lines.append('--server status: ShareKeepers: have %d, need %d, %d/%d active, %d/%d idle' % (
        g('sks_total'), g('sks_required'), g('sks_active'), g('sks_total'), g('sks_idle'), g('sks_total')))
    total = None if st['continue'] is True else 1 if st['continue'] is False else int(st['continue'])
    left = None if total is None else max(0, total - st['completed_phases'] - (1 if st['state'] == 'active' else 0))
    if left is None or left > 0:
        more = 'continue collecting indefinitely,' if left is None else 'continue collecting for %d more rounds,' % left
        wait = ''
        if st['delay_until'] > now:
            wait = ' in %s %s' % (period(int(st['delay_until']) - now // 1), either(st['delay_until'], 'at'))
        more += ' next round%s after %s' % (wait, st.get('delay_reason', 'clients are ready'))
    elif st['state'] == 'active':
        more = 'stop collecting after this collection round'
    else:
        more = 'stop collecting until the tally server config is changed'
    lines.append('--server status: Rounds: completed %d%s, configured to %s' % (
        st['completed_phases'], '' if total is None else '/%d' % total, more))
    return lines

def logged(part):
    return [m for (lvl, m) in LOG.keep or [] if part in m]

# ---------------------------------------------------------------- tally server

class Sim(tsim.Sim):
    def __init__(self, ctx, rng, calm):
        self.periods = rng.choice([self.periods, self.periods, [40, 300, 7900.0, 8000.0]])
        tsim.Sim.__init__(self, ctx, rng, (), calm=calm)
        self.idle_since = VTime.now
        self.since = {}
        for c in self.clients:
            c.control = rng.random() < 0.7
            c.flags = rng.choice([[], ['Fast'], ['Guard', 'Fast'], ['Exit'], ['Guard', 'Exit', 'HSDir'], ['HSDir3'], ['HSDir', 'Stable']])
            c.silent = rng.choice([None, 1.0, 1.0, 3500.0, 3700.0, 4000.0])
            c.status = self.status_of(c, c.status)
        self.watch()

    def make_config(self, change=None):
        if change in ('sigma-up', 'sigma-down', 'period') and self.rng.random() < 0.3:
            self.after = int(VTime.now) + self.rng.choice([50, 200, 500])
            self.ts_conf['start_after'] = datetime.utcfromtimestamp(self.after).strftime('%Y-%m-%dT%H:%M:%SZ')
        tsim.Sim.make_config(self, change)

    def status_of(self, c, status):
        def changed(rng):
            s = status(rng)
            if 'flag_list' in s:
                s['flag_list'] = list(c.flags)
                if c.round is None or VTime.now < c.round['t0'] + 3:
                    if rng.random() < 0.5:
                        c.control = not c.control
                if not c.control:
                    for k in ('tor_privcount_version', 'tor_version', 'nickname'):
                        if k == 'tor_privcount_version' or rng.random() < 0.5:
                            s.pop(k, None)
                e = self.ref.table.get(c.uid)
                if c.silent is None or not c.control:
                    s.pop('last_event_time', None)
                else:
                    s['last_event_time'] = VTime.now - c.silent * rng.choice([1, 1, 0.5])
                    if e is not None and rng.random() < 0.3 and self.next_loop > VTime.now:
                        # an event just before or after the time that matters at the next loop
                        s['last_event_time'] = self.next_loop - EVENTS - 2 * self.ref.conf['checkin_period'] - e['rtt'] - 1 + rng.choice([-0.3, 0.3])
            return s
        return changed

    def watch(self):
        real = self.ts.set_client_status
        def seen(uid, s):
            e = self.ref.table.get(uid)
            LOG.keep = []
            real(uid, s)
            if e is None:
                return
            old = self.since.get(uid)
            if old is None or old[0] != e['state']:
                old = self.since[uid] = (e['state'], e['alive'])
            name = uid[:3]
            mine = [m for m in logged('----client status') if DISPLAY.search(m) and DISPLAY.search(m).group(1) == name]
            want = 'is alive and %s for %s %s' % (e['state'], period(VTime.now // 1 - int(old[1])), either(old[1], 'since'))
            self.ctx.check(any(want in m for m in mine), 'the state of a client, and since when', want=want, logged=mine, history=self.log[-20:])
            if e['type'] == 'DataCollector':
                t = s.get('last_event_time')
                want = 'no Tor events received' if t is None else 'last Tor event was %s %s' % (period(VTime.now // 1 - int(t)), either(t, 'at'))
                self.ctx.check(any(want in m for m in mine), 'when a client last had an event', want=want, logged=mine)
            self.ctx.count('client statuses')
        self.ts.set_client_status = seen

    def restart(self):
        before = self.ref
        tsim.Sim.restart(self)
        if self.ref is not before:
            self.idle_since = VTime.now
            self.since = {}
            self.watch()

    def expected(self):
        'the warnings that the next loop should give: {(kind, client): level}'
        out = {}
        conf, r, now = self.next_ref_conf, self.ref.round, VTime.now
        p = conf['checkin_period']
        margin = []
        def over(x, limit):
            margin.append(abs(x - limit))
            return x > limit
        for u, e in self.ref.table.items():
            rtt, name = e['rtt'] + 1.0, u[:3]
            if over(now - e['alive'], PATIENCE * p + rtt):
                out[('checkin', name)] = WARN
            if over(now - e['alive'], 7 * p + rtt):
                out[('dead', name)] = WARN
            if e['type'] != 'DataCollector' or r is None:
                continue
            if 'tor_privcount_version' not in e and over(now - r.t0 - r.padding, CONTROL + p + rtt):
                out[('control', name)] = WARN
            if over(now - e.get('last_event_time', r.t0 + r.padding), EVENTS + 2 * p + rtt):
                good = likely(conf['counters'], e.get('flag_list', []))
                out[('events', name)] = WARN if good else NOTE
                self.ctx.count('events likely' if good else 'events unlikely')
        return out, all(m > 1e-3 for m in margin)

    def limits(self, now):
        'the next times at which something is to be warned about'
        p, r = self.ref.conf['checkin_period'], self.ref.round
        out = []
        for e in self.ref.table.values():
            rtt = e['rtt'] + 1.0
            out += [e['alive'] + 3 * p + rtt, e['alive'] + 7 * p + rtt]
            if r is not None and e['type'] == 'DataCollector':
                t = r.t0 + r.padding
                out += [t + CONTROL + p + rtt, e.get('last_event_time', t) + EVENTS + 2 * p + rtt]
        return [t for t in out if t > now + 0.5]

    def loop(self):
        ctx, ref = self.ctx, self.ref
        want, sure = self.expected()
        LOG.keep = []
        what = tsim.Sim.loop(self)
        near = [t for t in self.limits(VTime.now) if t < self.next_loop]
        if near and self.rng.random() < 0.5:
            # the next loop is just before or after that time
            self.next_loop = self.rng.choice(near) + self.rng.choice([-0.3, 0.3])
            self.ctx.count('loops beside a limit')
        got = {}
        for lvl, m in LOG.keep:
            who = DISPLAY.search(m)
            if who is None:
                continue
            who = who.group(1)
            if 'control connection delayed' in m:
                got[('control', who)] = lvl
            elif 'last checkin was' in m:
                got[('checkin', who)] = lvl
            elif 'marking dead client' in m:
                got[('dead', who)] = lvl
            elif ('last Tor event was' in m or 'no Tor events received' in m) and ' for client ' in m:
                got[('events', who)] = lvl
        if sure:
            ctx.eq(sorted(got.items()), sorted(want.items()), 'the clients that are warned about', history=self.log[-30:])
            for k, n in want:
                ctx.count('warnings: %s' % k)
            if not want:
                ctx.count('quiet loops')
        shown = logged('--server status')
        if what == 'end':
            self.idle_since = VTime.now
            r = self.rounds[-1]
            for u, e in ref.table.items():
                if e['type'] != 'DataCollector':
                    continue
                t = e.get('last_event_time')
                doubt = None if t is not None and t >= r.t0 else 'never received any events' if t is None else 'received an event before collection started'
                said = [m for m in logged('Check the results') if DISPLAY.search(m).group(1) == u[:3]]
                if doubt is None:
                    ctx.eq(said, [], 'results of a client that had events are not in doubt', history=self.log[-20:])
                else:
                    ctx.check(len(said) == 1 and doubt in said[0], 'the results of a client without events are in doubt', want=doubt, logged=said,
                              history=self.log[-20:])
                    ctx.count('rounds without events')
        self.compare(self.ts.get_status(), shown)
        for u in list(self.since):
            if u not in ref.table:
                del self.since[u]
        return what

    def compare(self, st, shown):
        ctx, ref, now = self.ctx, self.ref, VTime.now
        conf, r = ref.conf, ref.round
        dcs = [e for e in ref.table.values() if e['type'] == 'DataCollector']
        sks = [e for e in ref.table.values() if e['type'] == 'ShareKeeper']
        count = lambda es, s: len([e for e in es if e['state'] == s])
        control = [e for e in dcs if e['state'] == 'active' and 'tor_privcount_version' in e]
        limit = lambda e: EVENTS + 2 * conf['checkin_period'] + e['rtt'] + 1.0
        fresh = [e for e in control if r is None or now - e.get('last_event_time', r.t0 + r.padding) <= limit(e)]
        d = ref.delay
        delay = 0
        if d.end is not None:
            delay = d.end
            sg = rounds.sigmas({'counters': conf['sigmas']})
            if conf['always_delay'] or rounds.needs_delay(d.first, sg, conf['sigma_decrease_tolerance']):
                delay = d.end + conf['delay_period'] + ref.max_rtt()
        after = conf['start_after_time']
        until = max(delay, after)
        want = {'state': 'idle' if r is None else 'active', 'time': self.idle_since if r is None else r.t0,
                'dcs_idle': count(dcs, 'idle'), 'dcs_active': count(dcs, 'active'), 'dcs_total': count(dcs, 'idle') + count(dcs, 'active'),
                'sks_idle': count(sks, 'idle'), 'sks_active': count(sks, 'active'), 'sks_total': count(sks, 'idle') + count(sks, 'active'),
                'dcs_required': conf['dc_threshold'], 'sks_required': conf['sk_threshold'], 'dcs_control': len(control),
                'dcs_event': len(fresh), 'completed_phases': ref.done, 'continue': conf['continue'], 'delay_until': until,
                'delay_reason': 'clients are ready' if until <= now else 'noise change delay' if delay > after else 'configured start time'}
        if r is not None:
            want['expected_end_time'] = r.t0 + r.conf['collect_period']
        if after > delay > now:
            ctx.count('two reasons to wait')
        for k in want:
            if isinstance(want[k], float):
                ctx.check(k in st and abs(st[k] - want[k]) < 1e-3, 'the status of the tally server: %s' % k, expected=want[k], status=st.get(k),
                          now=now, history=self.log[-20:])
            else:
                ctx.eq(st.get(k), want[k], 'the status of the tally server: %s' % k, now=now, history=self.log[-20:])
        ctx.check('expected_end_time' in st or r is None, 'when the round should end')
        ctx.check('expected_end_time' not in st or r is not None, 'no end of a round without a round')
        ctx.eq(shown, status_lines(st, now), 'the status in the log')
        ctx.count('statuses compared')

def server(ctx, rng):
    s = Sim(ctx, rng, rng.choice([0.0, 0.5, 1.0]))
    s.run(300)
    ctx.nontrivial(s.log)

# -------------------------------------------------------------------- statuses

def statuses(ctx, rng):
    d = ctx.scratch()
    node = rng.choice([DataCollector, ShareKeeper])(os.path.join(d, 'conf'))
    for _ in range(25):
        VTime.now += rng.choice([0.0, 1.0, 1000.5])
        now = VTime.now
        t = lambda: now + rng.choice([0, 0.5, -0.5, 1, -1, 59, -60, 3600, -86400, 1e6, -1e6, rng.uniform(-1e5, 1e5)])
        a, b, c, e = [rng.randrange(12) for _ in range(4)]
        st = {'state': rng.choice(['idle', 'active']), 'time': now - abs(t() - now), 'dcs_idle': a, 'dcs_active': b, 'dcs_total': a + b,
              'dcs_required': rng.randrange(20), 'dcs_control': rng.randrange(b + 1), 'dcs_event': rng.randrange(b + 1), 'sks_idle': c,
              'sks_active': e, 'sks_total': c + e, 'sks_required': rng.randrange(9), 'completed_phases': rng.randrange(6),
              'continue': rng.choice([True, False, 0, 1, 2, 3, 5, 10 ** 6]), 'delay_until': rng.choice([0, t()]),
              'privcount_version': rng.choice(['2.0.0', '1.1.0 abc'])}
        if st['state'] == 'active':
            st['expected_end_time'] = t()
        if rng.random() < 0.8:
            st['delay_reason'] = rng.choice(['clients are ready', 'noise change delay', 'configured start time'])
        LOG.keep = []
        node.set_server_status(dict(st))
        ctx.eq(logged('--server status'), status_lines(st, now), 'the status in the log', status=st, now=now)
        ctx.count('statuses logged')
        ctx.nontrivial('status', st['state'], st['completed_phases'], st['continue'], st['delay_until'])

# -------------------------------------------------------------- data collector

EVENT = ['ChannelId=1', 'CreatedTimestamp=1500000000.0', 'EventTimestamp=1500000001.0', 'RemoteIPAddress=192.0.2.9', 'RemoteCountryCode=US']

def collector(ctx, rng):
    names = rng.sample(['EntryConnectionCount', 'NonEntryConnectionCount', 'ExitStreamCount', 'HSDir2StoreCount', 'HSDir3FetchCount', 'ZeroCount'],
                       rng.randrange(1, 4))
    if 'ExitStreamCount' in names and rng.random() < 0.5:
        names.remove('ExitStreamCount')
    names = names or ['ZeroCount']
    flags = rng.choice([['Fast'], ['Fast', 'Guard'], ['Exit'], ['HSDir', 'Running'], ['HSDir3'], ['Guard', 'Exit', 'HSDir', 'HSDir3']])
    relay = torsim.Relay(rng, flags=flags)
    up = rng.random() < 0.75
    if up:
        relay.listen()
    wait = rng.choice([0.0, 0.0, 30.0])
    begin = VTime.now + wait
    LOG.keep = []
    col = evsim.Collector(ctx, dict((n, [[0.0, INF]]) for n in names), {'defer_time': wait} if wait else {}, fingerprint=False)
    dc = col.dc
    history = [names, flags, up, wait]
    last = [None]
    expects_events = any(n != 'ZeroCount' for n in names)
    def warned():
        out = []
        for lvl, m in LOG.keep:
            for kind, words in (('control', 'not connected to the control port'), ('none', 'has not seen a tor event'),
                                ('old', 'has not received any events recently')):
                if words in m:
                    out.append((kind, lvl))
        LOG.keep = []
        return out
    if up:
        reactor.advance(wait)
        warned()
    for step in range(rng.randrange(6, 16)):
        if up and rng.random() < 0.4 and VTime.now > begin + 1:
            if relay.emit('PRIVCOUNT_CONNECTION_CLOSE', EVENT):
                last[0] = VTime.now
                history.append(('event', VTime.now))
                reactor.advance(0.0)
        reactor.advance(rng.choice([3.0, 8.0, 100.0, 1800.0, 3500.0, 3700.0]) + rng.random())
        dc.get_status()
        # (the data collector also looks by itself, once, some time after it started)
        warned()
        dc.do_checkin()
        now = VTime.now
        said = warned()
        want = []
        live = now - begin
        level = WARN if likely(names, flags) and up else NOTE
        if not up and live > CONTROL:
            want = [('control', WARN)]
        elif up and last[0] is None and live > EVENTS:
            want = [('none', level)]
        elif up and last[0] is not None and now - last[0] > EVENTS:
            want = [('old', level)]
        history.append((round(live, 2), said))
        ctx.eq(said, want, 'what the data collector warns about', history=history, live=live, last=last[0] and now - last[0])
        ctx.count('collector warnings' if want else 'collector quiet')
    if up or rng.random() < 0.5:
        dc.do_stop({'send_counters': False})
        warned()
        reactor.advance(rng.choice([20.0, 5000.0]))
        dc.do_checkin()
        ctx.eq(warned(), [], 'nothing is expected after the round', history=history)
    ctx.nontrivial(history)

def case(ctx, rng, i):
    simenv.set_logging(True)
    try:
        [server, server, statuses, collector, collector][i % 5](ctx, rng)
    finally:
        simenv.set_logging(False)
        LOG.keep = None
