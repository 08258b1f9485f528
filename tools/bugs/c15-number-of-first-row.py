PROPERTY = 'C15'
NEEDS = 'a user type whose rows disagree on the number of users, one of them empty'
BREAKS = 'the number of users is taken from the rows which give one although other rows mean the default'
EDITS = [
    ('ramp/core/core.py',
     '            num_users = user_df.num_users.unique()\n',
     '            num_users = user_df.num_users.ffill().unique()\n'),
]
DEMO = '''
import random, warnings, os, sys, io, contextlib
warnings.simplefilter("ignore")
import numpy as np, pandas as pd
from ramp import User, UseCase, Appliance
S = os.environ["SCRATCH"]

from openpyxl import Workbook
wb = Workbook(); ws = wb.active
ws.append(["user_name", "num_users", "user_preference", "name", "number", "power", "func_time", "window_1_start", "window_1_end"])
ws.append(["u", 7, 0, "a", 1, 10, 10, 0, 1440])
ws.append(["u", None, 0, "b", 1, 10, 10, 0, 1440])
wb.save(S + "/m.xlsx")
try:
    UseCase().load(S + "/m.xlsx"); print("accepted"); rc = 1
except ValueError:
    rc = 0
raise SystemExit(rc)
'''
