PROPERTY = 'C11'
NEEDS = 'an appliance with three duty cycles, whose parts may be swapped, and a seeded use case'
BREAKS = 'the order of the parts of the cycles is drawn from the global numpy generator which the seed does not set'
EDITS = [
    ('ramp/core/utils.py',
     '    return random.choice(\n        [\n            duty_cycle(var, t1=t1',
     '    # pick the normal or the reversed duty cycle\n    cycles = list(\n        [\n            duty_cycle(var, t1=t1'),
    ('ramp/core/utils.py',
     '            duty_cycle(var, t1=t2, p1=p2, t2=t1, p2=p1),\n        ]\n    )\n',
     '            duty_cycle(var, t1=t2, p1=p2, t2=t1, p2=p1),\n        ]\n    )\n    return cycles[np.random.randint(2)]\n'),
]
DEMO = '''
import random, warnings, os, sys, io, contextlib
warnings.simplefilter("ignore")
import numpy as np, pandas as pd
from ramp import User, UseCase, Appliance
S = os.environ["SCRATCH"]

def one(noise):
    np.random.seed(noise)
    u = User("u")
    a = u.add_appliance(number=1, power=100, num_windows=1, func_time=300, func_cycle=20, fixed_cycle=3, window_1=[300, 1200],
        p_11=10, t_11=7, p_12=20, t_12=3, cw11=[0, 500], p_21=30, t_21=6, p_22=40, t_22=5, cw21=[501, 800], p_31=50, t_31=8, p_32=60, t_32=2, cw31=[801, 1439])
    return UseCase(users=[u], date_start="2023-01-02", date_end="2023-01-05", random_seed=5).generate_daily_load_profiles()
p = [one(k) for k in range(6)]
ok = all((p[0] == q).all() for q in p)
print("same results:", ok)
raise SystemExit(0 if ok else 1)
'''
