PROPERTY = 'C16'
NEEDS = 'a flat appliance whose windows are shorter than its functioning time'
BREAKS = 'the windows of flat appliances are not compared with the functioning time'
EDITS = [
    ('ramp/core/core.py',
     '        if window_time < self.func_time:\n',
     '        if window_time < self.func_time and self.flat == "no":\n'),
]
DEMO = '''
import random, warnings, os, sys, io, contextlib
warnings.simplefilter("ignore")
import numpy as np, pandas as pd
from ramp import User, UseCase, Appliance
S = os.environ["SCRATCH"]

u = User("u")
try:
    u.add_appliance(number=1, power=10, num_windows=1, func_time=500, window_1=[100, 110], flat="yes"); print("accepted"); rc = 1
except Exception:
    rc = 0
raise SystemExit(rc)
'''
