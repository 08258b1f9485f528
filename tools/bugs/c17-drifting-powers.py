PROPERTY = 'C17'
NEEDS = 'duty cycles with a variability of the power, generated on several days'
BREAKS = 'the randomised powers of the second cycle replace the declared ones'
EDITS = [
    ('ramp/core/core.py',
     '                p_22 = random_variation(\n                    var=self.thermal_p_var, norm=self.p_22\n                )',
     '                p_22 = self.p_22 = random_variation(\n                    var=self.thermal_p_var, norm=self.p_22\n                )'),
]
DEMO = '''
import random, warnings, os, sys, io, contextlib
warnings.simplefilter("ignore")
import numpy as np, pandas as pd
from ramp import User, UseCase, Appliance
S = os.environ["SCRATCH"]

uc = UseCase(users=[User("zoe", 2)], date_start="2023-01-01", date_end="2023-01-04")
a = uc.users[0].add_appliance(number=1, power=10, num_windows=1, func_time=50, window_1=[0, 600], fixed_cycle=2, thermal_p_var=0.2, p_11=10, t_11=5, p_12=3, t_12=3, cw11=[0, 300], p_21=20, t_21=5, p_22=6, t_22=2, cw21=[301, 600])
uc.generate_daily_load_profiles()
print(a.p_22)
raise SystemExit(0 if a.p_22 == 6 else 1)
'''
