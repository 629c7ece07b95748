'''C34: list files, names in them, and matching against them (the matching code alone).'''
import hashlib
import ipaddress
import os
import re

import simenv
from gen import *
from privcount import config as C
from privcount import match as M

ID, LEVEL = 'C34', 'exploration'
RULE = ('random list files of each kind, with well-formed and malformed lines; random collections of items and suffixes over small alphabets, '
        'so that they often repeat or contain each other, and searches near them; distinct by the collections or files')
ASSUMPTIONS = ['suffixes are not empty, and a collection tag is a number']
QUICK = dict(cases=3000, seconds=15)
THOROUGH = dict(cases=200000, seconds=600)
REQUIRE = {'files accepted': 300, 'files refused': 150, 'exact matches': 1500, 'exact mismatches': 5000, 'md5 matches': 200,
           'suffix matches': 2000, 'suffix mismatches': 2000, 'overlapping collections': 500, 'disjoint collections': 500, 'networks': 500}
MIN_DISTINCT = 1000

def setup(ctx):
    simenv.set_logging(False)

# ------------------------------------------------------------------ files

B32 = 'abcdefghijklmnopqrstuvwxyz234567'
def address(rng):
    return ''.join(rng.choice(B32) for _ in range(16))

def onion(rng):
    'an address in some spelling, and what it stands for'
    if rng.random() < 0.35:
        h = hashlib.md5(address(rng) + '.onion').hexdigest()
        return rng.choice([h, h.upper()]), h
    a = address(rng)
    s = rng.choice([a, a, a.upper(), a.capitalize()])
    s = rng.choice(['', 'www.', 'a.b.', '.']) + s + rng.choice(['', '.onion', '.onion.', '.'])
    if rng.random() < 0.5:
        scheme = rng.choice(['http://', 'https://', 'irc://', '//', ':'])
        paths = ['', '/', '/path', '/path/page.html', '/?q=5', '//']
        if ':' in scheme:
            # what precedes the first colon is the scheme
            paths += ['/wiki:page', '/?u=http://x.onion/', '/x:8/y.html']
        s = scheme + s + rng.choice(paths)
    elif rng.random() < 0.3:
        s += rng.choice(['/', '/path', '/a.b/c.onion'])
    return s, a

GOOD = {
    'domain': ['example.com', 'EXAMPLE.com', 'a', '1.2.3', 'my_site.org', 'x-y.net', '.example.com', 'example.com.', '..a.b..', '0', 'xn--a.net'],
    'country': ['us', 'US', 'Us', '??', '!!', 'a1', '00', '9z'],
    'as': ['1', '64500', '4294967295', '007', '+5'],
    'reason': ['expired', 'EXPIRED', 'x1', '0', 'TIMEOUT'],
}
BAD = {
    'domain': ['exa mple.com', '*.com', 'a/b', 'http://a', 'a,b', 'a:80', '\xe9.com', 'a;b', '"a"', '(none)'],
    'country': ['u', 'usa', 'u?', '?!', 'u-', '?', '!', '???', 'u s', '\xe9\xe9', '!?', '**'],
    'as': ['0', '-1', 'x', '1.5', 'AS5', '5_6', '5,6', '0x5', '1 2', '??'],
    'reason': ['not_found', 'no-match', 'a b', '*', '(null)', '=x', 'x=', 'a.b', '?'],
    'onion': ['short', 'a' * 15, 'a' * 17, 'a' * 56, '0' * 16, 'abcdefghijklmno1', 'abcdefghijklmno8.onion', 'g' * 32, '0' * 31, '0' * 33, '.onion', '/',
              'http://', 'onion', 'a-cdefghijklmnop', 'z' + '0' * 31],
}
VALID = {'domain': C.check_domain_name, 'country': C.check_country_code, 'as': C.check_as_number, 'reason': C.check_reason_str,
         'onion': C.check_onion_string}

def stands_for(kind, s):
    if kind == 'domain':
        return s.lower().strip('.')
    return int(s) if kind == 'as' else s.lower()

def files(ctx, rng):
    kind = rng.choice(['domain', 'country', 'as', 'reason', 'onion', 'plain', 'map'])
    lines, want, bad = [], [], None
    for _ in range(rng.choice([0, 1, 2, 5, 9])):
        k = rng.random()
        if k < 0.2:
            lines.append(rng.choice(['', '# comment', '#us', '//', '// x', ';', '; x', '   ', '\t', '  # indented']))
            continue
        if kind == 'onion':
            text, value = onion(rng)
        elif kind in ('plain', 'map'):
            text = value = rng.choice(['Any Line', 'a # b', 'x;y', '1.2.3.0/24\t64500', '/x', '\xe9', ':', '!', 'a // b'])
        else:
            text = rng.choice(GOOD[kind])
            value = stands_for(kind, text)
        if kind == 'onion':
            ctx.eq(C.strip_onion_str(text), value, 'the onion address in a string', text=text)
            text = text if not M.line_is_comment(text) else value
            ctx.check(C.check_onion_string(value), 'a well-formed onion address', value=value)
            ctx.eq((C.check_onion_address(value), C.check_onion_md5(value)), (len(value) == 16, len(value) == 32), 'the form of an onion address',
                   value=value)
        elif kind in VALID:
            ctx.check(VALID[kind](text), 'a well-formed %s' % kind, text=text)
        if kind == 'as':
            ctx.check(C.check_as_number(value), 'a well-formed as', value=value)
        lines.append(rng.choice(['', '', ' ', '\t']) + text + rng.choice(['', '', ' ', '\r', '\t ']))
        want.append(value)
    if kind in BAD and rng.random() < 0.45:
        bad = rng.choice(BAD[kind])
        if kind == 'onion':
            ctx.check(not C.check_onion_string(C.strip_onion_str(bad)), 'not an onion address', text=bad)
        else:
            ctx.check(not VALID[kind](bad), 'not a %s' % kind, text=bad)
        if kind == 'onion' and bad.startswith('/'):
            bad = 'http:' + bad
        lines.insert(rng.randrange(len(lines) + 1), bad)
    name = 'list%d.txt' % rng.randrange(3)
    f = open(name, 'wb')
    f.write('\n'.join(lines) + rng.choice(['', '\n', '\n\n']))
    f.close()
    path = rng.choice([name, os.path.abspath(name), './' + name, os.path.join('..', os.path.basename(os.getcwd()), name)])
    opts = {} if kind in ('plain', 'map') else {'check_' + kind: True}
    load = M.load_as_prefix_map if kind == 'map' else M.load_match_list
    w = dict(kind=kind, lines=lines)
    try:
        got = load(path, **opts)
    except Exception as e:
        ctx.check(bad is not None, 'a well-formed file is loaded', error=repr(e), **w)
        ctx.count('files refused')
    else:
        ctx.check(bad is None, 'a file with a malformed line is refused', bad=bad, result=got, **w)
        ctx.eq(got[1], want, 'the items of the file', **w)
        ctx.eq(got[0], os.path.abspath(name), 'the path of the file', path=path)
        ctx.count('files accepted')
    os.remove(name)
    ctx.nontrivial('file', kind, tuple(lines))
    if rng.random() < 0.1:
        ctx.must_raise('a missing file is refused', load, path, **opts)

# ------------------------------------------------------------------ exact

def exact(ctx, rng):
    numbers = rng.random() < 0.3
    md5 = not numbers and rng.random() < 0.5
    universe = range(1, 9) if numbers else [a + b for a in 'abC' for b in ('', 'x', 'Y.z')]
    lists, seen, existing = [], set(), []
    several = rng.random() < 0.7
    overlap = False
    for _ in range(rng.choice([1, 2, 3, 4])):
        l = [rng.choice(universe) for _ in range(rng.choice([0, 1, 2, 3, 5]))]
        if not numbers:
            l = [s.upper() if rng.random() < 0.3 else s for s in l]
            if md5:
                l = [hashlib.md5(s.lower() + '.onion').hexdigest() if rng.random() < 0.4 else s for s in l]
        before = list(l)
        form = rng.choice([list, tuple])
        kw = {'existing_exacts': existing} if several else {}
        if md5 or rng.random() < 0.3:
            kw['match_onion_md5'] = md5
        if rng.random() < 0.3:
            kw['validate'] = rng.random() < 0.5
        obj = M.exact_match_prepare_collection(form(l), **kw)
        mine = set(s if numbers else s.lower() for s in l)
        overlap = overlap or bool(mine & seen)
        if several:
            mine -= seen
            seen |= mine
            ctx.check(existing[-1] is obj, 'the collection is appended to the earlier ones')
        ctx.eq(l, before, 'the given items are not changed')
        lists.append((before, mine, obj))
    ctx.count('overlapping collections' if overlap else 'disjoint collections')
    w = dict(lists=[b for b, _, _ in lists], several=several, md5=md5)
    for b, mine, obj in lists:
        ctx.eq(set(obj), mine, 'the items of the collection', items=b, **w)
        for s in universe + ([0, 99] if numbers else ['', 'ab', 'a ', 'onion']):
            t = s if numbers else rng.choice([s, s.upper(), s.lower()])
            plain = (t if numbers else t.lower()) in mine
            h = not numbers and hashlib.md5(t.lower() + '.onion').hexdigest() in mine
            ctx.eq(M.exact_match(obj, t), plain, 'whether the item matches', search=t, **w)
            ctx.eq(M.exact_match_plain(obj, t), plain, 'whether the item matches', search=t, **w)
            if not numbers:
                ctx.eq(M.exact_match(obj, t, match_onion_md5=True), plain or h, 'whether the item or its hash matches', search=t, **w)
                ctx.eq(M.exact_match_onion_md5(obj, t), h, 'whether the hash matches', search=t, **w)
                ctx.count('md5 matches', h)
                p = plain or md5 and h
            else:
                p = plain
            try:
                M.exact_match_validate_item(obj, t, b, match_onion_md5=md5)
            except AssertionError:
                ctx.check(not p, 'an item of the collection is valid', search=t, **w)
            else:
                ctx.check(p, 'an item that does not match is not valid', search=t, **w)
            ctx.count('exact matches' if plain else 'exact mismatches')
    ctx.check(not M.exact_match(None, 'a') and not M.exact_match_plain(None, 'a') and not M.exact_match_onion_md5(None, 'a'),
              'nothing matches when there is no collection')
    ctx.nontrivial('exact', tuple(tuple(b) for b, _, _ in lists), several)

# ----------------------------------------------------------------- suffix

def suffix(ctx, rng):
    sep = rng.choice(['.', '.', '', '-'])
    parts = ['a', 'b', 'C', 'dd'] if sep else ['a', 'b', 'c']
    def word():
        return [rng.choice(parts) for _ in range(rng.choice([1, 1, 2, 3, 4]))]
    def split(s):
        s = s.lower().strip(sep) if sep else s.lower()
        return tuple(s.split(sep)) if sep else tuple(s)
    tree, kept = None, {}
    lists = []
    validate = rng.random() < 0.6
    tags = rng.sample([-1, 0, 1, 2, 7], rng.choice([1, 1, 2, 3, 4]))
    any_overlap = False
    for tag in tags:
        l = [sep.join(word()) for _ in range(rng.choice([0, 1, 2, 3, 6]))]
        if sep:
            l = [rng.choice(['', '', sep]) + s + rng.choice(['', '', sep]) for s in l]
        before = list(l)
        kw = {'separator': sep} if sep or rng.random() < 0.5 else {}
        if tree is not None or rng.random() < 0.5:
            kw['existing_suffixes'] = tree
        if tag != -1 or rng.random() < 0.5:
            kw['collection_tag'] = tag
        tree, duplicates = M.suffix_match_prepare_collection(l, validate=validate, **kw)
        overlap = False
        for s in l:
            k = split(s)
            if any(k[-len(j):] == j for j in kept):
                overlap = True
                continue
            longer = [j for j in kept if j[-len(k):] == k]
            overlap = overlap or bool(longer)
            for j in longer:
                del kept[j]
            kept[k] = tag
        lists.append(before)
        ctx.eq(l, before, 'the given suffixes are not changed')
        ctx.eq(bool(duplicates), overlap, 'whether the suffixes overlap', lists=lists, tags=tags, separator=sep)
        any_overlap = any_overlap or overlap
    ctx.count('overlapping collections' if any_overlap else 'disjoint collections')
    w = dict(lists=lists, tags=tags, separator=sep)
    searches = [word() for _ in range(12)] + [word() + list(rng.choice(list(kept))) for _ in range(4 if kept else 0)]
    for s in [sep.join(x) for x in searches] + ['e', sep.join('ae')] + [s for l in lists for s in l]:
        s = rng.choice([s, s.upper(), s.lower()])
        if sep and rng.random() < 0.2:
            s = rng.choice([s + sep, sep + s])
        k = split(s)
        found = [kept[k[i:]] for i in range(len(k)) if k[i:] in kept]
        want = found[-1] if found else None
        got = M.suffix_match(tree, s, separator=sep)
        ctx.check(got == want and (got is None) == (want is None), 'the collection of the suffix of the string', search=s, got_=got, expected=want, **w)
        ctx.count('suffix matches' if found else 'suffix mismatches')
        for strict in (True, False):
            tag = rng.choice(tags)
            ok = want == tag and want is not None if strict else want is not None
            try:
                M.suffix_match_validate_item(tree, s, [], separator=sep, expected_collection_tag=tag, reject_overlapping_lists=strict)
            except AssertionError:
                ctx.check(not ok, 'a string that matches is valid', search=s, tag=tag, strict=strict, **w)
            else:
                ctx.check(ok, 'a string that does not match is not valid', search=s, tag=tag, strict=strict, **w)
    ctx.check(M.suffix_match(None, 'a', separator=sep) is None and M.suffix_match(tree, None, separator=sep) is None and
              M.suffix_match(tree, 'a', separator=None) is None, 'nothing matches when something is missing', **w)
    if sep:
        ctx.check(M.suffix_match(tree, '', separator=sep) is None, 'the empty string does not match', **w)
        ctx.must_raise('an empty part is refused', M.suffix_match_prepare_collection, ['a' + sep + sep + 'b'], separator=sep)
    ctx.must_raise('a tag that is a tree is refused', M.suffix_match_prepare_collection, ['a'], collection_tag={})
    ctx.must_raise('a missing tag is refused', M.suffix_match_prepare_collection, ['a'], collection_tag=None)
    ctx.nontrivial('suffix', sep, tuple(tuple(l) for l in lists), tuple(tags))

# --------------------------------------------------------------- networks

IPS = ['0.0.0.0', '127.0.0.1', '255.255.255.255', '192.0.2.128', '10.0.0.0', '::', '::1', '2001:db8::', '2001:DB8::8000', 'fe80::ffff', '::ffff:1.2.3.4']
NOT_IPS = ['', 'x', '1.2.3', '1.2.3.4.5', '256.0.0.1', '1.2.3.4:80', '[::1]', ':::', '1::2::3', 'g::1', '(null)', 'None', '1.2.3.4/8']

def network(ctx, rng):
    ip = rng.choice(IPS if rng.random() < 0.8 else NOT_IPS)
    good = ip in IPS
    a = ipaddress.ip_address(unicode(ip)) if good else None
    given = rng.choice([ip, unicode(ip)] + ([a] if good else []))
    ctx.eq(C.validate_ip_address(given), a, 'the address', text=ip)
    width = a.max_prefixlen if good else 32
    prefix = rng.choice([0, 1, 8, 24, 31, 32, 33, 64, 128, 129, -1])
    strict = rng.choice([None, True, False])
    kw = {} if strict is None else {'strict': strict}
    want = None
    if good and 0 <= prefix <= width:
        bits = int(a)
        base = bits >> (width - prefix) << (width - prefix)
        if base == bits or strict is False:
            want = (base, prefix)
    w = dict(ip=ip, prefix=prefix, strict=strict)
    for got in (C.validate_ip_network('%s/%s' % (ip, prefix), **kw), C.validate_ip_network_address_prefix(given, prefix, **kw)):
        if want is None:
            ctx.check(got is None, 'a network that is not valid', network=repr(got), **w)
        else:
            ctx.check(got is not None and (int(got.network_address), got.prefixlen, got.version) == want + (a.version,), 'the network',
                      network=repr(got), **w)
    ctx.count('networks')

def case(ctx, rng, i):
    files(ctx, rng)
    exact(ctx, rng)
    suffix(ctx, rng)
    network(ctx, rng)
