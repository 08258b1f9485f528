PROPERTY = 'C15'
NEEDS = 'a power given as a reference to a range of more than 366 rows'
BREAKS = 'longer ranges are accepted and cut silently'
EDITS = [
    ('ramp/core/utils.py',
     'if cr.size["rows"] != 366:',
     'if cr.size["rows"] < 366:'),
]
DEMO = '''
import random, warnings, os, sys, io, contextlib
warnings.simplefilter("ignore")
import numpy as np, pandas as pd
from ramp import User, UseCase, Appliance
S = os.environ["SCRATCH"]

from openpyxl import Workbook
wb = Workbook(); ws = wb.active
ws.append(["user_name", "num_users", "user_preference", "name", "number", "power", "func_time", "window_1_start", "window_1_end"])
ws.append(["u", 1, 0, "a", 1, "=ts!A1:A400", 10, 0, 1440])
ts = wb.create_sheet("ts")
for i in range(400): ts.append([i])
wb.save(S + "/m.xlsx")
try:
    UseCase().load(S + "/m.xlsx"); print("accepted"); rc = 1
except ValueError:
    rc = 0
raise SystemExit(rc)
'''
