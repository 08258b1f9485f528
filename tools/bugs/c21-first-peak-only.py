PROPERTY = 'C21'
NEEDS = 'results whose maximum is reached at several minutes'
BREAKS = 'only the first minute of the peak is returned'
EDITS = [
    ('ramp/post_process/post_process.py',
     'max = vals.loc[vals == vals.max()]',
     'max = vals.loc[[vals.idxmax()]]'),
]
DEMO = '''
import random, warnings, os, sys, io, contextlib
warnings.simplefilter("ignore")
import numpy as np, pandas as pd
from ramp import User, UseCase, Appliance
S = os.environ["SCRATCH"]

from ramp.post_process.post_process import Plot
p = Plot(pd.DataFrame({"a": [1.0, 3.0, 3.0, 2.0]}, index=pd.date_range("2023-01-01", periods=4, freq="min")))
print(p.peak)
raise SystemExit(0 if len(p.peak["a"]) == 2 else 1)
'''
