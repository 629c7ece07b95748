import base64, os, struct, time, binascii
from javax.crypto import Cipher, Mac, BadPaddingException, IllegalBlockSizeException
from javax.crypto.spec import SecretKeySpec, IvParameterSpec
from java.security import MessageDigest, SecureRandom
from jarray import zeros
from cryptography._j import jb, pb, check_bytes

class InvalidToken(Exception):
    pass

_MAX_CLOCK_SKEW = 60

# every key made and used is recorded, so that monitors can ask for freshness
KEYS_MADE = []
ENCRYPTIONS = []
_rng = SecureRandom()

def _random(n):
    a = zeros(n, 'b')
    _rng.nextBytes(a)
    return pb(a)

class Fernet(object):
    def __init__(self, key, backend=None):
        key = base64.urlsafe_b64decode(str(key))
        if len(key) != 32:
            raise ValueError("Fernet key must be 32 url-safe base64-encoded bytes.")
        self._sign, self._enc = key[:16], key[16:]

    @classmethod
    def generate_key(cls):
        key = base64.urlsafe_b64encode(_random(32))
        KEYS_MADE.append(key)
        return key

    def _hmac(self, data):
        mac = Mac.getInstance("HmacSHA256")
        mac.init(SecretKeySpec(jb(self._sign), "HmacSHA256"))
        return pb(mac.doFinal(jb(data)))

    def encrypt(self, data):
        data = check_bytes("data", data)
        iv = _random(16)
        ENCRYPTIONS.append(self._sign + self._enc)
        c = Cipher.getInstance("AES/CBC/PKCS5Padding")
        c.init(Cipher.ENCRYPT_MODE, SecretKeySpec(jb(self._enc), "AES"), IvParameterSpec(jb(iv)))
        parts = b"\x80" + struct.pack(">Q", int(time.time())) + iv + pb(c.doFinal(jb(data)))
        return base64.urlsafe_b64encode(parts + self._hmac(parts))

    def decrypt(self, token, ttl=None):
        token = check_bytes("token", token)
        now = int(time.time())
        try:
            data = base64.urlsafe_b64decode(token)
        except (TypeError, binascii.Error, ValueError):
            raise InvalidToken
        if not data or data[0] != b"\x80" or len(data) < 9:
            raise InvalidToken
        ts = struct.unpack(">Q", data[1:9])[0]
        if ttl is not None:
            if ts + ttl < now:
                raise InvalidToken
            if now + _MAX_CLOCK_SKEW < ts:
                raise InvalidToken
        if not MessageDigest.isEqual(jb(self._hmac(data[:-32])), jb(data[-32:])):
            raise InvalidToken
        try:
            c = Cipher.getInstance("AES/CBC/PKCS5Padding")
            c.init(Cipher.DECRYPT_MODE, SecretKeySpec(jb(self._enc), "AES"), IvParameterSpec(jb(data[9:25])))
            return pb(c.doFinal(jb(data[25:-32])))
        except (BadPaddingException, IllegalBlockSizeException):
            raise InvalidToken
