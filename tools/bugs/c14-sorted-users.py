PROPERTY = 'C14'
NEEDS = 'users whose names are not in alphabetical order'
BREAKS = 'users are loaded in the alphabetical order of their names'
EDITS = [
    ('ramp/core/core.py',
     '        for user_name in df.user_name.unique():\n            user_df = df.loc[df.user_name == user_name]\n',
     '        for user_name, user_df in df.groupby("user_name"):\n'),
]
DEMO = '''
import random, warnings, os, sys, io, contextlib
warnings.simplefilter("ignore")
import numpy as np, pandas as pd
from ramp import User, UseCase, Appliance
S = os.environ["SCRATCH"]

uc = UseCase(users=[User("zoe", 2), User("ann", 3)])
for u in uc.users:
    u.add_appliance(number=1, power=10, num_windows=1, func_time=5, window_1=[100, 110])
uc.save(S + "/m")
new = UseCase(); new.load(S + "/m.xlsx")
print([u.user_name for u in new.users])
raise SystemExit(0 if [u.user_name for u in new.users] == ["zoe", "ann"] else 1)
'''
