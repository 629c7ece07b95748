# Offline stand-in for the parts of pyca/cryptography that privcount uses,
# implemented over the JVM's own providers (real AES-CBC, HMAC-SHA256 and
# RSA-OAEP-SHA256, in the same wire formats as the real library).
__version__ = '1.4-verif'
