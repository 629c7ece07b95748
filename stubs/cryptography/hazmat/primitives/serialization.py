import base64, re
import java.lang
from java.security import KeyFactory
from java.security.spec import PKCS8EncodedKeySpec, X509EncodedKeySpec
from cryptography._j import jb, pb

class Encoding(object):
    PEM = 'PEM'
    DER = 'DER'
class PublicFormat(object):
    SubjectPublicKeyInfo = 'spki'
    PKCS1 = 'pkcs1'
class PrivateFormat(object):
    PKCS8 = 'pkcs8'
    TraditionalOpenSSL = 'traditional'
class NoEncryption(object):
    pass

def _pem_body(data, label):
    m = re.search("-----BEGIN %s-----(.*?)-----END %s-----" % (label, label), str(data), re.S)
    if m is None:
        raise ValueError("Could not unserialize key data.")
    try:
        return base64.b64decode(''.join(m.group(1).split()))
    except TypeError:
        raise ValueError("Could not unserialize key data.")

def to_pem(der, label):
    b = base64.b64encode(der)
    lines = [b[i:i + 64] for i in range(0, len(b), 64)]
    return "-----BEGIN %s-----\n%s\n-----END %s-----\n" % (label, '\n'.join(lines), label)

def load_pem_private_key(data, password=None, backend=None):
    from cryptography.hazmat.primitives.asymmetric.rsa import PrivateKey
    der = _pem_body(data, "PRIVATE KEY")
    try:
        return PrivateKey(KeyFactory.getInstance("RSA").generatePrivate(PKCS8EncodedKeySpec(jb(der))))
    except (Exception, java.lang.Exception) as e:
        raise ValueError("Could not unserialize key data: %s" % e)

def load_pem_public_key(data, backend=None):
    from cryptography.hazmat.primitives.asymmetric.rsa import PublicKey
    der = _pem_body(data, "PUBLIC KEY")
    try:
        return PublicKey(KeyFactory.getInstance("RSA").generatePublic(X509EncodedKeySpec(jb(der))))
    except (Exception, java.lang.Exception) as e:
        raise ValueError("Could not unserialize key data: %s" % e)
