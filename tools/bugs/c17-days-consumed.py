PROPERTY = 'C17'
NEEDS = 'generation of several cases, with an appliance limited by its cycle window'
BREAKS = 'the empty duty cycle windows of an appliance are filled with its functioning window when it is generated'
EDITS = [
    ('ramp/core/core.py',
     '        # calculates randomised cycles taking the random variability in the duty cycle duration\n        self.assign_random_cycles()\n',
     '        # calculates randomised cycles taking the random variability in the duty cycle duration\n        self.assign_random_cycles()\n        if self.fixed_cycle == 1 and not np.any(self.cw12):\n            self.cw12 = np.array(self.window_2)\n'),
]
DEMO = '''
import random, warnings, os, sys, io, contextlib
warnings.simplefilter("ignore")
import numpy as np, pandas as pd
from ramp import User, UseCase, Appliance
S = os.environ["SCRATCH"]

uc = UseCase(users=[User("zoe", 2)], date_start="2023-01-01", date_end="2023-01-04")
a = uc.users[0].add_appliance(number=1, power=10, num_windows=2, func_time=50, window_1=[0, 600], window_2=[700, 800], fixed_cycle=1, p_11=10, t_11=5, p_12=3, t_12=3, cw11=[0, 300], cw12=[0, 0])
uc.generate_daily_load_profiles()
print(a.cw12)
raise SystemExit(0 if not np.any(a.cw12) else 1)
'''
