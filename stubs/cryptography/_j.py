from java.lang import String
from jarray import array, zeros

def jb(s):
    'byte string -> java byte[]'
    return String(s).getBytes('ISO-8859-1')

def pb(a):
    'java byte[] -> byte string'
    return str(String(a, 'ISO-8859-1').toString().encode('latin-1'))

def check_bytes(name, value):
    # the real library wants bytes, and refuses unicode text
    if isinstance(value, unicode) or not isinstance(value, (str, bytearray, buffer)):
        raise TypeError("%s must be bytes" % name)
    return str(value)
