PROPERTY = 'C03'
NEEDS = 'two or more events in one stretch, the first of them in the middle of it'
BREAKS = 'the last minute of an event in the middle of a stretch may start the next event'
EDITS = [
    ('ramp/core/core.py',
     'new_spot2 = slice(indexes[-1] + 1, spot_to_split.stop, None)',
     'new_spot2 = slice(indexes[-1], spot_to_split.stop, None)'),
]
DEMO = '''
import random, warnings, os, sys, io, contextlib
warnings.simplefilter("ignore")
import numpy as np, pandas as pd
from ramp import User, UseCase, Appliance
S = os.environ["SCRATCH"]

bad = 0
for s in range(300):
    random.seed(s)
    u = User("u")
    a = u.add_appliance(number=1, power=10, num_windows=1, func_time=12, func_cycle=4, window_1=[300, 315], fixed="yes")
    p = UseCase(users=[u], date_start="2023-01-02", date_end="2023-01-02").generate_daily_load_profiles(flat=False)[0]
    # events of 4 minutes at least: 12 minutes on are lost only when no stretch of 4 minutes is left
    off = np.diff(np.flatnonzero(np.concatenate(([1], p[300:315] > 1, [1])))) - 1
    if (p > 1).sum() < 12 and off.max() >= 4: bad += 1
    # 12 minutes in total even if the last event is shortened
ok = True
for s in range(300):
    random.seed(s)
    u = User("u")
    a = u.add_appliance(number=1, power=10, num_windows=1, func_time=12, func_cycle=1, window_1=[300, 330], fixed="yes")
    p = UseCase(users=[u], date_start="2023-01-02", date_end="2023-01-02").generate_daily_load_profiles(flat=False)[0]
    if (p > 1).sum() != 12: bad += 1
print(bad)
raise SystemExit(0 if bad == 0 else 1)
'''
