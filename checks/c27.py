'''C27: how a data collector configures, describes and leaves its relay.'''
import torcase

ID, LEVEL = 'C27', 'exploration'
RULE = ('random rounds against relays of many kinds: with and without the PrivCount patch or a fingerprint, with PrivCount off, without a '
        'noise weight, with all sorts of nicknames, ports and addresses, that restart, lose connections, or send errors; '
        'distinct by what happened')
ASSUMPTIONS = ['the relay is a simulation that answers as the control port specification says']
QUICK = dict(cases=700, seconds=25)
THOROUGH = dict(cases=40000, seconds=1200)
REQUIRE = {'sessions': 300, 'relays refused': 150, 'configuration restored': 100, 'statuses compared': 50, 'rounds denied': 10,
           'connections lost': 60}
MIN_DISTINCT = 40

def case(ctx, rng, i):
    torcase.case(ctx, rng, i, 'relay')
