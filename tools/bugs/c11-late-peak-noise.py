PROPERTY = 'C11'
NEEDS = 'a seeded use case initialised twice or more in a program where the peak range is wide'
BREAKS = 'the enlargement of the peak range uses a generator of its own which lives as long as the program'
EDITS = [
    ('ramp/core/core.py',
     '                    - random.gauss(mu=peak_time, sigma=peak_enlarge * peak_time)\n',
     '                    - _peak_rng.gauss(mu=peak_time, sigma=peak_enlarge * peak_time)\n'),
    ('ramp/core/core.py',
     'warnings.simplefilter("always", DeprecationWarning)\n',
     'warnings.simplefilter("always", DeprecationWarning)\n\n# the peak time range does not disturb the sequence of the profiles\n_peak_rng = random.Random(0)\n'),
]
DEMO = '''
import random, warnings, os, sys, io, contextlib
warnings.simplefilter("ignore")
import numpy as np, pandas as pd
from ramp import User, UseCase, Appliance
S = os.environ["SCRATCH"]

def one():
    u = User("u")
    u.add_appliance(number=1, power=100, num_windows=1, func_time=60, window_1=[600, 700])
    return list(UseCase(users=[u], date_start="2023-01-02", date_end="2023-01-02", random_seed=5).peak_time_range)
a, b = one(), one()
print(a[0], b[0], len(a), len(b))
raise SystemExit(0 if a == b else 1)
'''
