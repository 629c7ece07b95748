'''C15: what the tally server publishes, and when.'''
from gen import *
import tsim

ID, LEVEL = 'C15', 'exploration'
RULE = ('random runs of the real tally server with up to 4 data collectors and 3 share keepers that join, leave, restart, refuse, answer '
        'late or twice, and configuration files that change; every answer is compared with a reference; distinct by history')
ASSUMPTIONS = ['clients talk to the tally server through the calls its protocol makes (C11 covers the protocol)']
QUICK = dict(cases=150, seconds=40)
THOROUGH = dict(cases=6000, seconds=1500)
REQUIRE = {'rounds completed': 7, 'rounds without results': 6, 'tallies compared': 37, 'bad counts sent': 1, 'loops: waiting': 50,
           'loops: stop': 15}
MIN_DISTINCT = 12
TOPICS = ('results',)

def case(ctx, rng, i):
    s = tsim.Sim(ctx, rng, TOPICS, calm=rng.choice([0.0, 0.0, 0.5, 1.0]))
    s.run(400)
    if len(s.rounds) > 0:
        ctx.nontrivial(s.log)
    ctx.sample({'last steps': s.log[-30:]})
