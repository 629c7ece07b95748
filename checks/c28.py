'''C28: the fields of tagged events, and the strings of the control protocol.'''
import ipaddress
from binascii import hexlify

import simenv
from gen import *
from privcount import tagged_event as T
from privcount.protocol import TorControlProtocol as P

ID, LEVEL = 'C28', 'exploration'
RULE = ('random tagged events, well-formed and broken in eight ways, with values of every type at, inside and outside their limits; random '
        'nonces, passwords and paths in the encodings of the control protocol; distinct by the shape of the fields and what is asked of them')
ASSUMPTIONS = ['fields are checked before they are read, as the documentation of the functions asks']
QUICK = dict(cases=6000, seconds=15)
THOROUGH = dict(cases=300000, seconds=600)
REQUIRE = {'events accepted': 500, 'events refused': 500, 'fields valid': 3000, 'fields refused': 3000, 'fields missing': 500,
           'values read': 1000, 'strings encoded': 1000, 'strings refused': 500, 'nonces of a wrong length': 300}
MIN_DISTINCT = 1000

KEYS = ['EventTimestamp', 'ChannelId', 'Reason', 'IsExitFlag', 'k', 'A' * 60, 'Key-With.Marks:1', 'Host', '0']
VALUES = ['', '0', '1', '-5', '12.5', 'text', '1.2.3.4', '::1', 'a,b,,c', '"quoted"', ',', '\t', 'v' * 200, '\\', '\xe9', '+']

def parse(items):
    'what the fields of the event are: none if any is malformed'
    r = {}
    for f in items:
        if f == '':
            continue
        if [c for c in f if c in ' \r\n\0'] or f.count('=') != 1:
            return {}
        k, v = f.split('=')
        if k == '' or k in r:
            return {}
        r[k] = v
    return r

def event(ctx, rng):
    keys = rng.sample(KEYS, rng.randrange(len(KEYS) + 1))
    items = ['%s=%s' % (k, rng.choice(VALUES)) for k in keys]
    if rng.random() < 0.5:
        for _ in range(rng.choice([1, 1, 2])):
            j = rng.randrange(len(items) + 1)
            kind = rng.choice(['empty', 'twice', 'no separator', 'no key', 'white', 'separators', 'only key', 'separator'])
            if kind == 'twice' and items:
                items.insert(j, rng.choice(items).split('=')[0] + '=' + rng.choice(VALUES))
            elif kind == 'white' and items:
                f = rng.choice(items)
                p = rng.randrange(len(f) + 1)
                items[items.index(f)] = f[:p] + rng.choice(' \r\n\0') + f[p:]
            elif kind == 'separators' and items:
                f = rng.choice(items)
                p = rng.randrange(len(f) + 1)
                items[items.index(f)] = f[:p] + '=' + f[p:]
            elif kind in ('empty', 'twice', 'white', 'separators'):
                items.insert(j, '')
            else:
                items.insert(j, {'no separator': 'text', 'no key': '=5', 'only key': 'Lonely', 'separator': '='}[kind])
    before = list(items)
    want = parse(items)
    got = T.parse_tagged_event(items)
    ctx.eq(got, want, 'the fields of the event', items=before)
    ctx.eq(items, before, 'the event is not changed')
    if want:
        ctx.count('events accepted')
    elif [f for f in items if f]:
        ctx.count('events refused')
    ctx.nontrivial('event', tuple(sorted(before)))

INTS = ['0', '1', '2', '-1', '5', '17', '-0', '+3', '007', '255', '256', '65535', '65536', str(2 ** 64), str(-2 ** 70), '99999999999999999999']
NOT_INTS = ['', 'x', '1.0', '1e3', '0x10', '5L', '--5', '+', '1,0', 'True', 'None', 'nan', '\xb2', '1 2']
FLOATS = ['0', '1', '-1', '0.5', '1e3', '.25', '5.', '-0.0', '1499000000.123456', '1e-300', '1.7e308', '+2.5', '10']
NOT_FLOATS = ['', 'x', '1,5', '1e', 'e5', '0x10', '--1', 'nan', 'NaN', 'inf', '-inf', 'Infinity', '1e999', '-1e999', 'True', '.', '1.5.2']
IPS = ['0.0.0.0', '127.0.0.1', '255.255.255.255', '192.0.2.1', '::', '::1', '2001:db8::17', '2001:DB8:0:0:0:0:0:1', 'fe80::ffff', '::ffff:1.2.3.4']
NOT_IPS = ['', 'x', '1.2.3', '1.2.3.4.5', '256.0.0.1', '1.2.3.4:80', '[::1]', ':::', '1::2::3', 'g::1', '(null)', 'None', '1.2.3.4/8', '-1.2.3.4', '5']
STRS = ['', 'a', 'ab', 'abc', 'x' * 50, 'x' * 51, 'with,commas', '"', '\\', '0', '\xff\xfe']
LISTS = ['', ',', 'a', 'a,b', 'a,,b', ',,', 'a,b,c,d', '1,2,3', 'x' * 300, ','.join(['y'] * 50)]

def limits(rng, near):
    'a minimum and a maximum, or none of them'
    lo = rng.choice([None, None] + near)
    hi = rng.choice([None, None] + near)
    return lo, hi

def within(v, lo, hi):
    return (lo is None or v >= lo) and (hi is None or v <= hi)

def field(ctx, rng):
    kind = rng.choice(['string', 'list', 'int', 'flag', 'float', 'ip'])
    good, bad = {'string': (STRS, []), 'list': (LISTS, []), 'int': (INTS, NOT_INTS), 'flag': (INTS[:3] + ['1', '0', '00', '-1'], NOT_INTS),
                 'float': (FLOATS, NOT_FLOATS), 'ip': (IPS, NOT_IPS)}[kind]
    name = rng.choice(KEYS)
    fields = {'Other': rng.choice(STRS), 'EventTimestampX': '1'}
    present = rng.random() < 0.85
    text = rng.choice(good if not bad or rng.random() < 0.7 else bad)
    if kind in ('int', 'float') and rng.random() < 0.2 and text in good:
        text = str(rng.randrange(-300, 300))
    is_good = text in good or text not in bad
    if present:
        fields[name] = text
    mandatory = rng.choice([None, True, False])
    kw = {} if mandatory is None else {'is_mandatory': mandatory}
    opts = dict(kw)
    lo = hi = None
    if kind == 'string':
        lo, hi = limits(rng, [0, 1, 2, 50, 51])
        size, opt = len(text), ('min_len', 'max_len')
    elif kind == 'list':
        lo, hi = limits(rng, [0, 1, 2, 3, 4, 50])
        size, opt = (len(text.split(',')) if text else 0), ('min_count', 'max_count')
    elif kind == 'int':
        lo, hi = limits(rng, [0, 1, -1, 5, 255, 2 ** 64, -2 ** 70])
        size, opt = (int(text, 10) if is_good else None), ('min_value', 'max_value')
    elif kind == 'float':
        lo, hi = limits(rng, [0.0, 1.0, -1.0, 0.5, 10 ** 9, 0])
        size, opt = (float(text) if is_good else None), ('min_value', 'max_value')
    elif kind == 'flag':
        lo, hi, size, opt = 0, 1, int(text, 10) if is_good else None, None
    else:
        lo = hi = opt = None
        size = 0
    if opt:
        for o, v in zip(opt, (lo, hi)):
            if v is not None or rng.random() < 0.3:
                opts[o] = v
    if present:
        want = is_good and within(size, lo, hi)
    else:
        want = mandatory is not True
    w = dict(kind=kind, name=name, fields=dict(fields), options=opts)
    before = dict(fields)
    fn = getattr(T, {'ip': 'is_ip_address_valid'}.get(kind, 'is_%s_valid' % kind))
    ctx.eq(fn(name, fields, 'in a test event', **opts), want, 'whether the field is valid', **w)
    ctx.eq(T.is_field_valid(name, fields, 'in a test event', **kw), present or mandatory is not True, 'whether the field is there', **w)
    ctx.eq(fields, before, 'the fields are not changed', **w)
    ctx.count('fields valid' if present and want else 'fields refused' if present else 'fields missing')
    ctx.nontrivial('field', kind, text if present else None, tuple(sorted(opts.items())))
    # the value of a valid field
    readable = is_good and (kind != 'flag' or within(size, 0, 1))
    if present and not readable:
        return
    value = {'string': lambda: text, 'list': lambda: text.split(',') if text else [], 'int': lambda: size, 'flag': lambda: size == 1,
             'float': lambda: size, 'ip': lambda: str(ipaddress.ip_address(text.decode('latin-1')))}[kind]
    read = getattr(T, {'ip': 'get_ip_address_value'}.get(kind, 'get_%s_value' % kind))
    default = rng.choice([None, 5, 'default'])
    opts = dict(kw)
    if default is not None or rng.random() < 0.5:
        opts['default'] = default
    w['options'] = opts
    if not present and mandatory:
        try:
            got = read(name, fields, 'in a test event', **opts)
        except AssertionError:
            return
        ctx.check(False, 'a mandatory field that is missing has no value', returned=repr(got), **w)
    got = read(name, fields, 'in a test event', **opts)
    if not present:
        ctx.check(got == default and type(got) == type(default), 'a missing field has the default value', returned=repr(got), **w)
    else:
        want = value()
        ctx.check(got == want and isinstance(got, basestring) == isinstance(want, basestring) and isinstance(got, float) == isinstance(want, float),
                  'the value of the field', returned=repr(got), expected=repr(want), **w)
    if kind == 'ip':
        got = T.get_ip_address_object(name, fields, 'in a test event', **opts)
        ctx.eq(got, ipaddress.ip_address(text.decode('latin-1')) if present else default, 'the address object', **w)
    ctx.count('values read')

def some_bytes(rng, n):
    k = rng.randrange(3)
    if k == 0:
        return ''.join(chr(rng.randrange(256)) for _ in range(n))
    return ''.join(rng.choice('\\"ab \\"=' if k == 1 else 'abcXYZ019/._- ') for _ in range(n))

def quoted(s):
    return '"' + ''.join('\\' + c if c in '\\"' else c for c in s) + '"'

def strings(ctx, rng):
    s = some_bytes(rng, rng.choice([0, 1, 2, 3, 8, 32, 33, 100]))
    w = dict(string=repr(s))
    ctx.eq(P.encodeControllerString(s), hexlify(s), 'the string in hexadecimal', **w)
    ctx.eq(P.encodeControllerString(s, hex_encode=False), quoted(s), 'the quoted string', **w)
    ctx.eq(P.decodeControllerString(quoted(s)), s, 'what the quoted string says', **w)
    for form in (hexlify(s), hexlify(s).upper(), ' ' + hexlify(s) + '\t', ' ' + quoted(s) + ' '):
        ctx.eq(P.decodeControllerString(form), s, 'what the encoded string says', form=form, **w)
    ctx.count('strings encoded')
    if len(s) and rng.random() < 0.5:
        h = hexlify(s)
        bad = rng.choice([h[:-1], h + 'g0', 'x' + h[1:], '0x' + h, '"' + h, h + '"', '"', h[:1] + ' ' + h[1:]])
        try:
            got = P.decodeControllerString(bad)
        except TypeError:
            ctx.count('strings refused')
        else:
            ctx.check(False, 'a malformed string is refused', form=bad, returned=repr(got))
    ctx.nontrivial('string', s)

    # nonces and hashes
    n = rng.choice([0, 1, 31, 32, 33, 64, 1023, 1024, 1025, rng.randrange(2000)])
    s = some_bytes(rng, n)
    ctx.eq(P.encodeNonce(s), hexlify(s), 'the nonce on the wire')
    for what, fn, lo, hi in (('client nonce', P.decodeClientNonce, 0, 1024), ('server nonce', P.decodeServerNonce, 32, 32),
                             ('client hash', P.decodeClientHash, 32, 32), ('server hash', P.decodeServerHash, 32, 32)):
        want = s if lo <= n <= hi else None
        ctx.eq(fn(rng.choice([hexlify(s), quoted(s)])), want, 'the %s from the wire' % what, length=n)
        ctx.count('nonces of a wrong length', want is None)
    lo = rng.randrange(0, 40)
    hi = lo + rng.choice([0, 0, 1, 5, 1000])
    ctx.eq(P.decodeNonce(hexlify(s), lo, hi), s if lo <= n <= hi else None, 'the nonce from the wire', length=n, lo=lo, hi=hi)
    nonces = [P.generateClientNonce(), P.generateServerNonce()]
    ctx.check(nonces[0] != nonces[1] and len(nonces[0]) == 32 and len(nonces[1]) == 32, 'nonces are 32 bytes long, and never the same')

def setup(ctx):
    simenv.set_logging(False)

def case(ctx, rng, i):
    for _ in range(3):
        event(ctx, rng)
    for _ in range(6):
        field(ctx, rng)
    strings(ctx, rng)
