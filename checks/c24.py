'''C24: how a data collector authenticates to its relay.'''
import torcase

ID, LEVEL = 'C24', 'exploration'
RULE = ('random relays: the methods they offer, their cookie files and passwords, right or wrong in many ways, and relays that lie about '
        'knowing the cookie; distinct by method, outcome and history')
ASSUMPTIONS = ['the relay is a simulation that answers as the control port specification says']
QUICK = dict(cases=700, seconds=20)
THOROUGH = dict(cases=60000, seconds=1200)
REQUIRE = {'sessions': 300, 'authenticated by SAFECOOKIE': 80, 'authenticated by HASHEDPASSWORD': 40, 'authenticated by NULL': 60,
           'authentication avoided': 80}
MIN_DISTINCT = 40

def case(ctx, rng, i):
    torcase.case(ctx, rng, i, 'auth')
