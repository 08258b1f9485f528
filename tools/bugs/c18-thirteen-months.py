PROPERTY = 'C18'
NEEDS = 'year mode with a folder of more than twelve files'
BREAKS = 'the files in excess are not noticed before the simulation'
EDITS = [
    ('ramp/cli.py',
     '                if len(fnames) == 12:\n',
     '                fnames = fnames[:12]\n                if len(fnames) == 12:\n'),
]
DEMO = '''
import random, warnings, os, sys, io, contextlib
warnings.simplefilter("ignore")
import numpy as np, pandas as pd
from ramp import User, UseCase, Appliance
S = os.environ["SCRATCH"]

import ramp.cli as cli
calls = []
def run(**k):
    calls.append(k); return np.zeros(((k["date_end"] - k["date_start"]).days + 1, 1440))
cli.run_usecase = run
os.mkdir(S + "/in")
for i in range(13): open(S + "/in/m%d.xlsx" % (i + 1), "w").close()
sys.argv = ["ramp", "-i", S + "/in", "-y", "2023", "-o", S + "/out"]
try:
    cli.main(); rc = 1
except ValueError:
    rc = 0 if not calls else 1
print(rc)
raise SystemExit(rc)
'''
