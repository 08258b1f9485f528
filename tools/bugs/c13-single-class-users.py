PROPERTY = 'C13'
NEEDS = 'several user types with different numbers of users, the demand of one user being lower but its type more numerous'
BREAKS = 'the demand of a single user of each type is considered, not of all of them'
EDITS = [
    ('ramp/core/core.py',
     'return np.transpose(np.sum(user_max_profile, axis=0)) * self.num_users',
     'return np.transpose(np.sum(user_max_profile, axis=0)) * min(self.num_users, 1)'),
]
DEMO = '''
import random, warnings, os, sys, io, contextlib
warnings.simplefilter("ignore")
import numpy as np, pandas as pd
from ramp import User, UseCase, Appliance
S = os.environ["SCRATCH"]

u = User("u", 50)
u.add_appliance(number=1, power=10, num_windows=1, func_time=5, window_1=[100, 110])
v = User("v", 1)
v.add_appliance(number=1, power=100, num_windows=1, func_time=5, window_1=[900, 910])
r = UseCase(users=[u, v], date_start="2023-01-02", date_end="2023-01-02", peak_enlarge=0.0).peak_time_range
print(r)
raise SystemExit(0 if r[0] < 500 else 1)
'''
