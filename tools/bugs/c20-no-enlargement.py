PROPERTY = 'C20'
NEEDS = 'a peak enlargement of zero (or a draw which rounds to zero) and an appliance which is not flat'
BREAKS = 'the half-width of the peak range may be zero, generation then fails on the empty range'
EDITS = [
    ('ramp/core/core.py',
     '                )\n            ),\n            1,\n        )\n',
     '                )\n            ),\n            0,\n        )\n'),
]
DEMO = '''
import random, warnings, os, sys, io, contextlib
warnings.simplefilter("ignore")
import numpy as np, pandas as pd
from ramp import User, UseCase, Appliance
S = os.environ["SCRATCH"]

u = User("u")
u.add_appliance(number=1, power=10, num_windows=1, func_time=20, window_1=[300, 400])
uc = UseCase(users=[u], date_start="2023-01-02", date_end="2023-01-05", peak_enlarge=0.0)
try:
    p = uc.generate_daily_load_profiles(flat=False); rc = 0
except Exception as e:
    print(repr(e)); rc = 1
raise SystemExit(rc)
'''
