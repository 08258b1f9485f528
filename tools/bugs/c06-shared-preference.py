PROPERTY = 'C06'
NEEDS = 'several single users of a type with preferences'
BREAKS = 'all single users of a type share the preference of the first of them when generated with their aggregated profile'
EDITS = [
    ('ramp/core/core.py',
     '        for _ in range(self.num_users):\n            # iterates for every single user within a User class.\n            self.load = self.load + self.generate_single_load_profile(\n                prof_i, peak_time_range, day_type\n            )\n',
     '        pick = self.pick_daily_preference\n        for n in range(self.num_users):\n            # iterates for every single user within a User class.\n            self.load = self.load + self.generate_single_load_profile(\n                prof_i, peak_time_range, day_type\n            )\n            if n == 0 and self.user_preference > 2:\n                self.pick_daily_preference = lambda: self.rand_daily_pref\n        self.pick_daily_preference = pick\n'),
]
DEMO = '''
import random, warnings, os, sys, io, contextlib
warnings.simplefilter("ignore")
import numpy as np, pandas as pd
from ramp import User, UseCase, Appliance
S = os.environ["SCRATCH"]

u = User("u", 30, 3)
for k in (1, 2, 3):
    u.add_appliance(number=1, power=10, num_windows=1, func_time=60, window_1=[k * 100, k * 100 + 60], pref_index=k, flat="yes")
p = UseCase(users=[u], date_start="2023-01-02", date_end="2023-01-02").generate_daily_load_profiles(flat=False)[0]
v = [p[k * 100 + 5] for k in (1, 2, 3)]
print(v)
raise SystemExit(0 if max(v) < 300 else 1)
'''
