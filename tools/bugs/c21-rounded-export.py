PROPERTY = 'C21'
NEEDS = 'results with small values written to csv'
BREAKS = 'values are written with six decimals'
EDITS = [
    ('ramp/post_process/post_process.py',
     'self.DataFrame.to_csv(path, sep=sep)',
     'self.DataFrame.to_csv(path, sep=sep, float_format="%.6f")'),
]
DEMO = '''
import random, warnings, os, sys, io, contextlib
warnings.simplefilter("ignore")
import numpy as np, pandas as pd
from ramp import User, UseCase, Appliance
S = os.environ["SCRATCH"]

from ramp.post_process.post_process import Plot
i = pd.date_range("2023-01-01", periods=4, freq="min")
p = Plot(pd.DataFrame({"a": [1.0 / 3, 3.0e-7, 3.0, 2.0]}, index=i))
p.to_csv(S + "/x.csv")
q = Plot.from_file(S + "/x.csv")
print(q.df)
raise SystemExit(0 if (q.df["a"].values == p.df["a"].values).all() else 1)
'''
