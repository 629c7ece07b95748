from javax.crypto import Mac
from javax.crypto.spec import SecretKeySpec
from java.security import MessageDigest
from cryptography._j import jb, pb, check_bytes
from cryptography.exceptions import InvalidSignature

class HMAC(object):
    def __init__(self, key, algorithm, backend=None):
        key = check_bytes("key", key)
        self._mac = Mac.getInstance(algorithm._hmac)
        # a zero-length JVM key is not allowed; HMAC pads with zeroes anyway
        self._mac.init(SecretKeySpec(jb(key or '\0'), algorithm._hmac))

    def update(self, data):
        self._mac.update(jb(check_bytes("data", data)))

    def finalize(self):
        return pb(self._mac.doFinal())

    def verify(self, signature):
        signature = check_bytes("signature", signature)
        if not MessageDigest.isEqual(jb(self.finalize()), jb(signature)):
            raise InvalidSignature("Signature did not match digest.")
