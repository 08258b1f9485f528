PROPERTY = 'C14'
NEEDS = 'a model with a duty cycle window that starts at midnight'
BREAKS = 'duty cycle windows which start at minute 0 are taken for empty cells when a model is loaded'
EDITS = [
    ('ramp/core/core.py',
     '                            if not np.isnan(cw_start) and not np.isnan(cw_end):\n',
     '                            if cw_start > 0 and not np.isnan(cw_end):\n'),
]
DEMO = '''
import random, warnings, os, sys, io, contextlib
warnings.simplefilter("ignore")
import numpy as np, pandas as pd
from ramp import User, UseCase, Appliance
S = os.environ["SCRATCH"]

uc = UseCase(users=[User("zoe", 2)])
uc.users[0].add_appliance(number=1, power=10, num_windows=1, func_time=50, window_1=[0, 600], fixed_cycle=2, p_11=10, t_11=5, p_12=3, t_12=3, cw11=[0, 300], p_21=20, t_21=5, p_22=6, t_22=2, cw21=[301, 600])
uc.save(S + "/m")
new = UseCase(); new.load(S + "/m.xlsx")
print(new.users[0].App_list[0].cw11)
raise SystemExit(0 if list(new.users[0].App_list[0].cw11) == [0, 300] else 1)
'''
