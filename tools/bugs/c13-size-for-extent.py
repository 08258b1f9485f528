PROPERTY = 'C13'
NEEDS = 'a peak window made of several separate pieces (or any peak window, by one minute)'
BREAKS = 'the deviation of the peak time is a third of the number of minutes of the peak window instead of a third of its extent'
EDITS = [
    ('ramp/core/core.py',
     'sigma=1 / 3 * (peak_window[-1] - peak_window[0]),',
     'sigma=1 / 3 * (len(peak_window) - 1),'),
]
DEMO = '''
import random, warnings, os, sys, io, contextlib
warnings.simplefilter("ignore")
import numpy as np, pandas as pd
from ramp import User, UseCase, Appliance
S = os.environ["SCRATCH"]

import ramp.core.core as c
seen = []
real = random.normalvariate
c.random.normalvariate = lambda mu=0.0, sigma=1.0: (seen.append(sigma), real(mu, sigma))[1]
u = User("u")
u.add_appliance(number=1, power=100, num_windows=2, func_time=60, window_1=[100, 200], window_2=[800, 900])
res = [len(UseCase(users=[u], date_start="2023-01-02", date_end="2023-01-02", peak_enlarge=0.0).peak_time_range) for _ in range(1)]
mid = [UseCase(users=[u], date_start="2023-01-02", date_end="2023-01-02", peak_enlarge=0.0).peak_time_range[1] for _ in range(400)]
sd = np.std(mid)
print(sd)
raise SystemExit(0 if 220 < sd < 320 else 1)
'''
