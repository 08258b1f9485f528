PROPERTY = 'C21'
NEEDS = 'a column added to a copy of results'
BREAKS = 'a copy shares its data with the original'
EDITS = [
    ('ramp/post_process/post_process.py',
     'return Plot(self.df.copy())',
     'return Plot(self.df)'),
]
DEMO = '''
import random, warnings, os, sys, io, contextlib
warnings.simplefilter("ignore")
import numpy as np, pandas as pd
from ramp import User, UseCase, Appliance
S = os.environ["SCRATCH"]

from ramp.post_process.post_process import Plot
i = pd.date_range("2023-01-01", periods=4, freq="min")
p = Plot(pd.DataFrame({"a": [1.0, 3.0, 3.0, 2.0]}, index=i))
q = p.copy()
q.add_column(pd.DataFrame({"b": [1.0, 1.0, 1.0, 2.0]}, index=i))
print(p.columns)
raise SystemExit(0 if p.columns == ["a"] else 1)
'''
