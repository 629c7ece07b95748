# Offline stand-in for pyasn: longest-prefix match over an ipasn string with
# lines "prefix/len<TAB>asn" (IPv4 and IPv6; comments start with ';' or '#')
import ipaddress

class pyasn(object):
    def __init__(self, ipasndb=None, as_names_file=None, ipasn_string=None, mode='raw'):
        self.tables = {4: {}, 6: {}}
        if ipasndb is not None:
            with open(ipasndb) as f:
                ipasn_string = f.read()
        if ipasn_string is None:
            raise ValueError("one of ipasndb or ipasn_string is needed")
        self.n = 0
        for line in ipasn_string.splitlines():
            line = line.strip()
            if not line or line[0] in ';#':
                continue
            prefix, asn = line.split()
            net = ipaddress.ip_network(unicode(prefix), strict=False)
            t = self.tables[net.version].setdefault(net.prefixlen, {})
            t[int(net.network_address)] = (int(asn), prefix)
            self.n += 1

    def lookup(self, ip_address):
        ip = ipaddress.ip_address(unicode(ip_address))
        size = 32 if ip.version == 4 else 128
        value = int(ip)
        for plen in sorted(self.tables[ip.version], reverse=True):
            key = (value >> (size - plen)) << (size - plen)
            found = self.tables[ip.version][plen].get(key)
            if found is not None:
                return found
        return (None, None)
