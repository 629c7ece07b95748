'The RSA test keys of the checks (2048 bits, in fixtures/)'
import os
from privcount import crypto

DIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'fixtures')
COUNT = 4
_cache = {}

def path(i):
    return os.path.join(DIR, 'key%d.pem' % i)

def pair(i):
    'public key, private key'
    if i not in _cache:
        priv = crypto.load_private_key_file(path(i))
        with open(path(i)) as f:
            pub = crypto.load_public_key_string(crypto.get_public_bytes(f.read()))
        _cache[i] = (pub, priv)
    return _cache[i]

def digest(i):
    return crypto.get_public_digest(path(i), True)
