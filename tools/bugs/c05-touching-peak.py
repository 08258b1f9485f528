PROPERTY = 'C05'
NEEDS = 'an event which starts in the last minute of the peak range'
BREAKS = 'an event that starts exactly in the last minute of the peak time range counts as off peak'
EDITS = [
    ('ramp/core/utils.py',
     'if win_start > peak_win_stop and win_stop > peak_win_stop:',
     'if win_start >= peak_win_stop and win_stop > peak_win_stop:'),
]
DEMO = '''
import random, warnings, os, sys, io, contextlib
warnings.simplefilter("ignore")
import numpy as np, pandas as pd
from ramp import User, UseCase, Appliance
S = os.environ["SCRATCH"]

from ramp.core.utils import within_peak_time_window as w
print(w(20, 25, 10, 20))
raise SystemExit(0 if w(20, 25, 10, 20) is True else 1)
'''
