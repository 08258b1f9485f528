PROPERTY = 'C20'
NEEDS = 'a functioning time drawn equal to the minimum cycle in windows which leave exactly this time (99% of their length)'
BREAKS = 'the documented error is raised although the minimum cycle fits exactly'
EDITS = [
    ('ramp/core/core.py',
     '        if rand_time > 0.99 * total_time:\n            rand_time = int(0.99 * total_time)\n\n        if rand_time < self.func_cycle:',
     '        capped = rand_time > 0.99 * total_time\n        if capped:\n            rand_time = int(0.99 * total_time)\n\n        if rand_time < self.func_cycle + capped:'),
]
DEMO = '''
import random, warnings, os, sys, io, contextlib
warnings.simplefilter("ignore")
import numpy as np, pandas as pd
from ramp import User, UseCase, Appliance
S = os.environ["SCRATCH"]

u = User("u")
u.add_appliance(number=1, power=10, num_windows=1, func_time=100, func_cycle=99, window_1=[300, 400])
uc = UseCase(users=[u], date_start="2023-01-02", date_end="2023-01-05")
try:
    p = uc.generate_daily_load_profiles(flat=False); rc = 0
except Exception as e:
    print(repr(e)); rc = 1
raise SystemExit(rc)
'''
