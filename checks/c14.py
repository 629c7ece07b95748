'''C14: which rounds the tally server starts, and what it tells whom.'''
from gen import *
import tsim

ID, LEVEL = 'C14', 'exploration'
RULE = ('random runs of the real tally server with up to 4 data collectors and 3 share keepers that join, leave, restart, refuse, answer '
        'late or twice, and configuration files that change; every answer is compared with a reference; distinct by history')
ASSUMPTIONS = ['clients talk to the tally server through the calls its protocol makes (C11 covers the protocol)']
QUICK = dict(cases=150, seconds=40)
THOROUGH = dict(cases=6000, seconds=1500)
REQUIRE = {'rounds started': 20, 'start commands to data collectors': 50, 'start commands to share keepers': 30, 'loops: delay': 5,
           'loops: clients': 75, 'loops: start_after': 1, 'loops: limit': 50, 'stale clients stopped': 1, 'loops: waiting': 50}
MIN_DISTINCT = 12
TOPICS = ('dialogue',)

def case(ctx, rng, i):
    s = tsim.Sim(ctx, rng, TOPICS, calm=rng.choice([0.0, 0.0, 0.5, 1.0]))
    s.run(400)
    if len(s.rounds) > 0:
        ctx.nontrivial(s.log)
    ctx.sample({'last steps': s.log[-30:]})
