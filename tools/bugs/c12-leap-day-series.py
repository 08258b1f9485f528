PROPERTY = 'C12'
NEEDS = 'a series of 366 powers and a simulation of at least 366 days'
BREAKS = 'day 366 of the simulation uses the first value of every power series'
EDITS = [
    ('ramp/core/core.py',
     '                prof_i, peak_time_range, day_type, power=App.power[prof_i]\n',
     '                prof_i, peak_time_range, day_type, power=App.power[prof_i % 365]\n'),
]
DEMO = '''
import random, warnings, os, sys, io, contextlib
warnings.simplefilter("ignore")
import numpy as np, pandas as pd
from ramp import User, UseCase, Appliance
S = os.environ["SCRATCH"]

u = User("u")
u.add_appliance(number=1, power=pd.DataFrame([float(i + 1) for i in range(366)]), num_windows=1, func_time=5, window_1=[300, 400])
uc = UseCase(users=[u], date_start="2024-01-01", date_end="2024-12-31")
p = uc.generate_daily_load_profiles(flat=False)
print(p[-1].max())
raise SystemExit(0 if np.isclose(p[-1].max(), 366) else 1)
'''
