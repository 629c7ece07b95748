'''C11: encryption of the shares, and the message authentication code.'''
import base64
import copy
import hashlib
import hmac as pyhmac
import json
import keys
from gen import *
from cryptography import fernet
from privcount import crypto

ID, LEVEL = 'C11', 'exploration'
RULE = ('random nested structures (longs beyond 2^70, infinities, unicode) encrypted to one of four keys, decrypted with every key and '
        'after every kind of tampering; random HMAC inputs against hmac/hashlib; distinct by (structure shape, tampering, key)')
ASSUMPTIONS = ['the cryptography library is replaced by a stand-in over the Java platform with the same formats (Fernet, RSA-OAEP): '
               'the strength of the primitives is assumed, their use is what is monitored']
QUICK = dict(cases=1200, seconds=30)
THOROUGH = dict(cases=60000, seconds=1200)
REQUIRE = {'round trips': 300, 'tampered ciphertexts refused': 250, 'wrong keys refused': 200, 'HMACs compared': 300,
           'HMACs refused': 500, 'encodings': 200, 'keys described': 8}
MIN_DISTINCT = 400

def structure(rng, depth=0):
    k = rng.randrange(10 if depth < 3 else 6)
    if k == 0:
        return rng.choice([0, 1, -1, 2 ** 31, 2 ** 63, 2 ** 64 + 1, 2 ** 70 - 1, -2 ** 70, rng.getrandbits(70), rng.getrandbits(300)])
    if k == 1:
        return rng.choice([0.0, -0.5, 1e300, INF, -INF, rng.random(), 1.0 / 3, 2090007.68996])
    if k == 2:
        return rng.choice([None, True, False])
    if k in (3, 4):
        return u''.join(unichr(rng.choice([32, 34, 92, 10, 13, 0, 65, 97, 233, 0x4e2d, 0xffff, rng.randrange(1, 0xd7ff)]))
                        for _ in range(rng.randrange(0, 12)))
    if k == 5:
        return ''.join(chr(rng.randrange(32, 127)) for _ in range(rng.randrange(0, 40)))
    if k in (6, 7):
        return [structure(rng, depth + 1) for _ in range(rng.randrange(0, 6))]
    return dict(('k%d' % j if rng.random() < 0.8 else u'\xe9%d' % j, structure(rng, depth + 1)) for j in range(rng.randrange(0, 6)))

def same(a, b):
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None:
        return a is b
    if isinstance(a, dict):
        return isinstance(b, dict) and len(a) == len(b) and all(k in b and same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, basestring):
        return isinstance(b, basestring) and a == b
    return not isinstance(b, (basestring, list, dict)) and a == b and isinstance(a, float) == isinstance(b, float)

def attempt(fn, *args):
    try:
        return ('ok', fn(*args))
    except Exception as e:
        return ('refused', e)

def encryption(ctx, rng, i):
    x = structure(rng)
    if rng.random() < 0.15:
        x = [x] + ['pad' * rng.randrange(2000)]
    if rng.random() < 0.3:
        x = {'secret': dict(('C%d' % n, {'bins': [[0.0, INF, rng.getrandbits(70)]]}) for n in range(rng.randrange(1, 30)))}
    before = copy.deepcopy(x)
    j = rng.randrange(keys.COUNT)
    pub, priv = keys.pair(j)
    used = len(fernet.ENCRYPTIONS)
    c = crypto.encrypt(pub, x)
    ctx.check(same(x, before), 'encryption leaves its input alone')
    enc_keys = fernet.ENCRYPTIONS[used:]
    ctx.check(enc_keys and all(k not in fernet.ENCRYPTIONS[:used] for k in enc_keys), 'the key of a message was never used before')
    wire = jcopy(c)
    got = crypto.decrypt(priv, wire)
    ctx.check(same(x, got), 'what was encrypted is what is decrypted, also after travelling as JSON', x=x, got=got)
    ctx.count('round trips')
    text = json.dumps(c)
    for k in enc_keys:
        ctx.check(base64.urlsafe_b64encode(k) not in text and base64.b64encode(k) not in text, 'the message does not give its key away')
    plain = crypto.encode_data(x)
    if len(plain) > 24:
        ctx.check(plain[:16] not in text and plain[-20:-4] not in text, 'the message does not show its contents')
    used = len(fernet.ENCRYPTIONS)
    c2 = crypto.encrypt(pub, x)
    ctx.check(not set(fernet.ENCRYPTIONS[used:]) & set(fernet.ENCRYPTIONS[:used]), 'the key depends on nothing but chance')
    ctx.check(c2['sym_encrypted_data'] != c['sym_encrypted_data'] and c2['pk_encrypted_secret_key'] != c['pk_encrypted_secret_key'],
              'two encryptions of the same data differ')
    # the wrong key
    o = rng.choice([n for n in range(keys.COUNT) if n != j])
    r = attempt(crypto.decrypt, keys.pair(o)[1], wire)
    ctx.eq(r[0], 'refused', 'only the holder of the private key can decrypt', decrypted=r[1])
    ctx.count('wrong keys refused')
    # tampering
    for _ in range(2):
        t = jcopy(c)
        field = rng.choice(sorted(t))
        raw = base64.urlsafe_b64decode(str(t[field])) if field == 'sym_encrypted_data' else base64.b64decode(t[field])
        kind = rng.choice(['flip', 'flip', 'flip', 'cut', 'append', 'swap', 'empty', 'foreign'])
        p = 0
        if kind == 'flip':
            p = rng.randrange(len(raw))
            bad = raw[:p] + chr(ord(raw[p]) ^ (1 << rng.randrange(8))) + raw[p + 1:]
        elif kind == 'cut':
            bad = raw[:rng.randrange(len(raw))]
        elif kind == 'append':
            bad = raw + chr(rng.randrange(256))
        elif kind == 'swap':
            p = rng.randrange(1, len(raw))
            bad = raw[p:] + raw[:p]
        elif kind == 'empty':
            bad = ''
        else:
            bad = None
        if bad is None:
            t[field] = jcopy(c2)[field]       # half of another message, which has another key
        elif bad == raw:
            continue
        else:
            t[field] = base64.urlsafe_b64encode(bad) if field == 'sym_encrypted_data' else base64.b64encode(bad)
        r = attempt(crypto.decrypt, priv, t)
        ctx.eq(r[0], 'refused', 'a message that was changed on the way is refused', field=field, kind=kind, at=p, decrypted=r[1])
        ctx.count('tampered ciphertexts refused')
        ctx.nontrivial('tamper', field, kind, len(raw), p)
    ctx.nontrivial('shape', repr(x)[:200])

def macs(ctx, rng, i):
    def rb(lo, hi):
        return ''.join(chr(rng.randrange(256)) for _ in range(rng.randrange(lo, hi)))
    key, prefix, data = rb(32, 100), rb(0, 60), rb(0, 200)
    want = pyhmac.new(key, prefix + data, hashlib.sha256).digest()
    ctx.eq(crypto.get_hmac(key, prefix, data), want, 'HMAC-SHA256(key, prefix | data)')
    ctx.check(crypto.verify_hmac(want, key, prefix, data) is True, 'a correct HMAC is accepted')
    ctx.count('HMACs compared')
    p = rng.randrange(32)
    bads = [(want[:p] + chr(ord(want[p]) ^ (1 << rng.randrange(8))) + want[p + 1:], key, prefix, data),
            (want[:p], key, prefix, data), (want + 'x', key, prefix, data), ('', key, prefix, data),
            (want, key[:-1] + chr(ord(key[-1]) ^ 1), prefix, data), (want, key, prefix + 'x', data), (want, key, prefix, data + '\0'),
            (want.upper() if want.upper() != want else 'z' * 32, key, prefix, data)]
    for b in bads:
        ctx.check(not crypto.verify_hmac(*b), 'an incorrect HMAC is refused', mac=repr(b[0]))
        ctx.count('HMACs refused')
    short = rb(0, 32)
    for fn, args in ((crypto.get_hmac, (short, prefix, data)),
                     (crypto.verify_hmac, (pyhmac.new(short, prefix + data, hashlib.sha256).digest(), short, prefix, data))):
        ctx.must_raise('a key shorter than the hash is refused', fn, *args)
    ctx.nontrivial('mac', len(key), len(prefix), len(data))

def encodings(ctx, rng, i):
    x = structure(rng)
    ctx.check(same(crypto.decode_data(crypto.encode_data(x)), x), 'the encoding is reversible', x=x)
    e = crypto.encode_data(x)
    ctx.check(isinstance(e, str) and all(ord(c) < 128 and c > ' ' for c in e), 'the encoding is plain text')
    n = rng.choice([rng.randrange(0, 100), rng.randrange(0, 10 ** 6), rng.randrange(2 ** 40)])
    ctx.eq(crypto.b64_raw_length(n), (8 * n + 5) // 6, 'unpadded length', n=n)
    ctx.eq(crypto.b64_padded_length(n), 4 * ((n + 2) // 3), 'padded length', n=n)
    if n < 2000:
        ctx.eq(crypto.b64_padded_length(n), len(base64.b64encode('x' * n)), 'length of the encoding', n=n)
    ctx.must_raise('negative length', crypto.b64_raw_length, -rng.randrange(1, 9))
    s = crypto.json_serialise(x)
    ctx.check(same(json.loads(s), x), 'the JSON form keeps the data')
    ctx.check('\n' not in s and '\r' not in s, 'the JSON form is one line', s=s)
    ctx.count('encodings')
    ctx.nontrivial('encoding', n)
    # symmetric layer
    k = crypto.generate_symmetric_key()
    msg = ''.join(chr(rng.randrange(256)) for _ in range(rng.randrange(0, 80)))
    ct = crypto.encrypt_symmetric(k, msg)
    ctx.eq(crypto.decrypt_symmetric(k, ct), msg, 'symmetric round trip')
    r = attempt(crypto.decrypt_symmetric, crypto.generate_symmetric_key(), ct)
    ctx.eq(r[0], 'refused', 'another symmetric key is refused')
    if i % 40 < 5:
        j = i % keys.COUNT
        f = open(keys.path(j))
        text = f.read()
        f.close()
        pem = crypto.get_serialized_public_key(keys.path(j))
        ctx.check('PRIVATE' not in pem and 'BEGIN PUBLIC KEY' in pem, 'only the public part of the key is sent')
        want = hashlib.sha256(pem).hexdigest()
        ctx.eq(keys.digest(j), want, 'a key is named by the hash of its public part')
        ctx.eq(crypto.get_public_digest_string(text, True), want, 'the same for the private key as text')
        ctx.eq(crypto.get_public_digest_string(pem, False), want, 'the same for the public key as text')
        c = crypto.encrypt(crypto.load_public_key_string(pem), x)
        ctx.check(same(crypto.decrypt(crypto.load_private_key_string(text), c), x), 'the key that was sent encrypts to its owner')
        ctx.count('keys described')

def case(ctx, rng, i):
    [encryption, macs, encodings][i % 3](ctx, rng, i)
