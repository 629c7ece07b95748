'''What (epsilon, delta) differential privacy needs, computed independently of the code under test.'''
import math

def tail(sensitivity, epsilon, sigma):
    'the probability that the privacy loss is over epsilon'
    x = epsilon * sigma / sensitivity - sensitivity / (2.0 * sigma)
    return 0.5 * math.erfc(x / math.sqrt(2.0))

def least_epsilon(sensitivity, sigma, delta):
    lo, hi = 0.0, 1.0
    while tail(sensitivity, hi, sigma) > delta:
        hi *= 2
    for _ in range(100):
        mid = (lo + hi) / 2
        if tail(sensitivity, mid, sigma) <= delta:
            hi = mid
        else:
            lo = mid
    return hi
