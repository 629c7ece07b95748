# certificates are only made on a node's first start, and nothing is checked
# about them here: generate_cert gets a recognisable placeholder file
OID_COMMON_NAME = 'CN'
class _Any(object):
    def __init__(self, *a, **k):
        pass
class Name(_Any):
    pass
class NameAttribute(_Any):
    pass
class BasicConstraints(_Any):
    pass
class Certificate(object):
    def public_bytes(self, encoding=None):
        return "-----BEGIN CERTIFICATE-----\nplaceholder\n-----END CERTIFICATE-----\n"
class CertificateBuilder(object):
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return lambda *a, **k: self
    def sign(self, *a, **k):
        return Certificate()
