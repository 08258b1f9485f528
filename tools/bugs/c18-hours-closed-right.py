PROPERTY = 'C18'
NEEDS = 'year mode with twelve files; a profile which changes exactly at full hours'
BREAKS = 'the hourly maximum includes the first minute of the next hour'
EDITS = [
    ('ramp/cli.py',
     'resampled["max"] = series_frame.resample("h").max()',
     'resampled["max"] = (\n                series_frame.resample("h").max().combine(\n                    series_frame.shift(-1).resample("h").max(), np.fmax\n                )\n            )'),
]
DEMO = '''
import random, warnings, os, sys, io, contextlib
warnings.simplefilter("ignore")
import numpy as np, pandas as pd
from ramp import User, UseCase, Appliance
S = os.environ["SCRATCH"]

import ramp.cli as cli
cli.run_usecase = lambda **k: np.repeat(np.arange(24.0), 60)[None, :].repeat((k["date_end"] - k["date_start"]).days + 1, axis=0)
os.mkdir(S + "/in")
for i in range(12): open(S + "/in/m%d.xlsx" % (i + 1), "w").close()
sys.argv = ["ramp", "-i", S + "/in", "-y", "2023", "-o", S + "/out"]
cli.main()
d = pd.read_csv(S + "/out/yearly_profile_hourly_resolution.csv")
print(d.head(3))
raise SystemExit(0 if d["max"][1] == 1.0 else 1)
'''
