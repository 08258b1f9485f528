PROPERTY = 'C21'
NEEDS = 'profiles formatted into average and series, with more than one day'
BREAKS = 'the average of the days is computed over one day less when the last one is empty'
EDITS = [
    ('ramp/post_process/post_process.py',
     '    Profile_avg = Profile_avg / len(stoch_profiles)\n',
     '    Profile_avg = Profile_avg / max(1, sum(1 for pr in stoch_profiles if np.any(pr)))\n'),
]
DEMO = '''
import random, warnings, os, sys, io, contextlib
warnings.simplefilter("ignore")
import numpy as np, pandas as pd
from ramp import User, UseCase, Appliance
S = os.environ["SCRATCH"]

from ramp.post_process.post_process import Profile_formatting
a, _, _ = Profile_formatting([np.ones(1440), np.zeros(1440)])
print(a[0])
raise SystemExit(0 if a[0] == 0.5 else 1)
'''
