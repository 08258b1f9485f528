PROPERTY = 'C08'
NEEDS = 'three duty cycles and an event that only falls in the second window of the second cycle'
BREAKS = 'events of the second window of the second cycle replay another cycle or are refused'
EDITS = [
    ('ramp/core/core.py',
     '                ) or range_within_window(indexes_low, indexes_high, self.cw22):\n',
     '                ) or range_within_window(indexes_low, indexes_low, self.cw22):\n'),
]
DEMO = '''
import random, warnings, os, sys, io, contextlib
warnings.simplefilter("ignore")
import numpy as np, pandas as pd
from ramp import User, UseCase, Appliance
S = os.environ["SCRATCH"]

rc = 0
for s in range(200):
    random.seed(s)
    u = User("u")
    a = u.add_appliance(number=1, power=100, num_windows=1, func_time=20, func_cycle=20, fixed_cycle=2, window_1=[300, 340],
        p_11=10, t_11=7, p_12=20, t_12=3, cw11=[0, 100], p_21=30, t_21=6, p_22=40, t_22=5, cw21=[150, 200], cw22=[325, 345])
    p = UseCase(users=[u], date_start="2023-01-02", date_end="2023-01-02").generate_daily_load_profiles(flat=False)[0]
    n = np.flatnonzero(p > 1)
    if len(n) and n[0] < 320: break
else:
    rc = 1
print(rc)
raise SystemExit(rc)
'''
