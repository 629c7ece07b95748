class SHA256(object):
    name = "sha256"
    digest_size = 32
    block_size = 64
    _java = "SHA-256"
    _hmac = "HmacSHA256"
class SHA1(object):
    name = "sha1"
    digest_size = 20
    block_size = 64
    _java = "SHA-1"
    _hmac = "HmacSHA1"
class SHA512(object):
    name = "sha512"
    digest_size = 64
    block_size = 128
    _java = "SHA-512"
    _hmac = "HmacSHA512"
