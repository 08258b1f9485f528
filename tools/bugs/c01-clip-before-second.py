PROPERTY = 'C01'
NEEDS = 'a second window that moves with random variability and lies near the end of the day'
BREAKS = 'the variability of the second window is computed from the first window'
EDITS = [
    ('ramp/core/core.py',
     '        self.random_var_2 = int(\n            random_var_w * np.diff(self.window_2)[0]\n        )',
     '        self.random_var_2 = int(\n            random_var_w * max(np.diff(self.window_1)[0], np.diff(self.window_2)[0])\n        )'),
]
DEMO = '''
import random, warnings, os, sys, io, contextlib
warnings.simplefilter("ignore")
import numpy as np, pandas as pd
from ramp import User, UseCase, Appliance
S = os.environ["SCRATCH"]

lo = 1440
for s in range(60):
    random.seed(s)
    u = User("u")
    a = u.add_appliance(number=1, power=10, num_windows=2, func_time=5, window_1=[0, 600], window_2=[900, 920], random_var_w=0.2)
    p = UseCase(users=[u], date_start="2023-01-02", date_end="2023-01-02").generate_daily_load_profiles(flat=False)[0]
    n = np.flatnonzero(p); n = n[n > 760]
    lo = min(lo, n[0] if len(n) else 1440)
print(lo)
raise SystemExit(0 if lo >= 896 else 1)
'''
