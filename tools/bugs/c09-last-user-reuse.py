PROPERTY = 'C09'
NEEDS = 'user types of more than one user whose appliances are random'
BREAKS = 'the profile of one single user is counted several times from ten users on'
EDITS = [
    ('ramp/core/core.py',
     '        for _ in range(self.num_users):\n            # iterates for every single user within a User class.\n            self.load = self.load + self.generate_single_load_profile(\n                prof_i, peak_time_range, day_type\n            )\n',
     '        # users are generated by pairs in large classes\n        step = 2 if self.num_users >= 10 and self.num_users % 2 == 0 else 1\n        for _ in range(0, self.num_users, step):\n            # iterates for every single user within a User class.\n            self.load = self.load + step * self.generate_single_load_profile(\n                prof_i, peak_time_range, day_type\n            )\n'),
]
DEMO = '''
import random, warnings, os, sys, io, contextlib
warnings.simplefilter("ignore")
import numpy as np, pandas as pd
from ramp import User, UseCase, Appliance
S = os.environ["SCRATCH"]

u = User("u", 10)
u.add_appliance(number=1, power=10, num_windows=1, func_time=5, window_1=[0, 1400])
p = UseCase(users=[u], date_start="2023-01-02", date_end="2023-01-02").generate_daily_load_profiles(flat=False)[0]
n = len(np.flatnonzero(p > 1))
print(n)
raise SystemExit(0 if n > 30 else 1)
'''
