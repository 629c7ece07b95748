'''C25: the events a data collector asks its relay for are counted exactly once.'''
import torcase

ID, LEVEL = 'C25', 'exploration'
RULE = ('random rounds against a relay that sends events of many kinds in one stream with replies and consensus entries, in fragments, '
        'before and after they are asked for, with lost connections, restarts of the relay and errors; distinct by what happened')
ASSUMPTIONS = ['the relay is a simulation that answers as the control port specification says',
               'each bin gets exactly 3 units of noise, so that noise added twice or never shows in the counts']
QUICK = dict(cases=700, seconds=25)
THOROUGH = dict(cases=40000, seconds=1200)
REQUIRE = {'sessions': 200, 'events counted': 800, 'events not counted': 300, 'connections lost': 80, 'rounds that count': 100}
MIN_DISTINCT = 40

def case(ctx, rng, i):
    torcase.case(ctx, rng, i, 'events')
