from javax.crypto import Cipher
from javax.crypto.spec import OAEPParameterSpec, PSource
from java.security import KeyFactory, KeyPairGenerator
from java.security.spec import MGF1ParameterSpec, RSAPublicKeySpec, RSAKeyGenParameterSpec
import java.lang
from java.math import BigInteger
from cryptography._j import jb, pb, check_bytes
from cryptography.hazmat.primitives.asymmetric import padding as _p
from cryptography.hazmat.primitives import serialization as _s

def _cipher(mode, key, pad):
    if isinstance(pad, _p.PKCS1v15):
        c = Cipher.getInstance("RSA/ECB/PKCS1Padding")
        c.init(mode, key)
        return c
    c = Cipher.getInstance("RSA/ECB/OAEPPadding")
    spec = OAEPParameterSpec(pad.algorithm._java, "MGF1", MGF1ParameterSpec(pad.mgf.algorithm._java),
                             PSource.PSpecified.DEFAULT if pad.label is None else PSource.PSpecified(jb(pad.label)))
    c.init(mode, key, spec)
    return c

class PublicKey(object):
    def __init__(self, key):
        self._k = key
    def encrypt(self, plaintext, pad):
        plaintext = check_bytes("plaintext", plaintext)
        try:
            return pb(_cipher(Cipher.ENCRYPT_MODE, self._k, pad).doFinal(jb(plaintext)))
        except (Exception, java.lang.Exception) as e:
            raise ValueError("Encryption failed: %s" % e)
    def public_bytes(self, encoding, format):
        return _s.to_pem(pb(self._k.getEncoded()), "PUBLIC KEY")

class PrivateKey(object):
    def __init__(self, key):
        self._k = key
    def decrypt(self, ciphertext, pad):
        ciphertext = check_bytes("ciphertext", ciphertext)
        try:
            return pb(_cipher(Cipher.DECRYPT_MODE, self._k, pad).doFinal(jb(ciphertext)))
        except (Exception, java.lang.Exception) as e:
            raise ValueError("Decryption failed: %s" % e)
    def public_key(self):
        spec = RSAPublicKeySpec(self._k.getModulus(), self._k.getPublicExponent())
        return PublicKey(KeyFactory.getInstance("RSA").generatePublic(spec))
    def private_bytes(self, encoding, format, encryption_algorithm):
        return _s.to_pem(pb(self._k.getEncoded()), "PRIVATE KEY")

def generate_private_key(public_exponent, key_size, backend=None):
    g = KeyPairGenerator.getInstance("RSA")
    g.initialize(RSAKeyGenParameterSpec(key_size, BigInteger.valueOf(public_exponent)))
    return PrivateKey(g.generateKeyPair().getPrivate())
