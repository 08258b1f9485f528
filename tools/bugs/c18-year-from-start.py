PROPERTY = 'C18'
NEEDS = 'a start date other than the first of January and neither an end date nor a number of days'
BREAKS = 'a missing end date is a year after the start instead of the end of the calendar year'
EDITS = [
    ('ramp/cli.py',
     'date_end = datetime.date(date_start.year, 12, 31)',
     'date_end = date_start + datetime.timedelta(days=365 - 1)'),
]
DEMO = '''
import random, warnings, os, sys, io, contextlib
warnings.simplefilter("ignore")
import numpy as np, pandas as pd
from ramp import User, UseCase, Appliance
S = os.environ["SCRATCH"]

import ramp.cli as cli
calls = []
cli.run_usecase = lambda **k: calls.append(k)
sys.argv = ["ramp", "-i", "a.xlsx", "--start-date", "2023-12-20"]
cli.main()
print(calls)
raise SystemExit(0 if str(calls[0]["date_end"]) == "2023-12-31" else 1)
'''
