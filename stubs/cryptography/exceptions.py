class UnsupportedAlgorithm(Exception):
    pass
class InvalidSignature(Exception):
    pass
