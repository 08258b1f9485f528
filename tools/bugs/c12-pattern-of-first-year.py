PROPERTY = 'C12'
NEEDS = 'a simulation which runs over New Year, and appliances limited to weekdays or weekends'
BREAKS = 'the weekdays of the days after New Year are looked up in the calendar of the first year'
EDITS = [
    ('ramp/core/core.py',
     '                for day_idx, day in enumerate(self.days):\n                    # initialise an empty daily profile (or profile load)\n',
     '                # the kind of every day is looked up once for all users\n                pattern = yearly_pattern(self.days[0].year)\n                for day_idx, day in enumerate(self.days):\n                    # initialise an empty daily profile (or profile load)\n'),
    ('ramp/core/core.py',
     '                            day_idx, self.peak_time_range, get_day_type(day)\n',
     '                            day_idx,\n                            self.peak_time_range,\n                            pattern[(day.dayofyear - 1) % len(pattern)],\n'),
    ('ramp/core/core.py',
     '    get_day_type,\n    random_variation,',
     '    get_day_type,\n    yearly_pattern,\n    random_variation,'),
]
DEMO = '''
import random, warnings, os, sys, io, contextlib
warnings.simplefilter("ignore")
import numpy as np, pandas as pd
from ramp import User, UseCase, Appliance
S = os.environ["SCRATCH"]

u = User("u")
u.add_appliance(number=1, power=10, num_windows=1, func_time=1440, window_1=[0, 1440], flat="yes", wd_we_type=1)
p = UseCase(users=[u], date_start="2022-12-30", date_end="2023-01-09").generate_daily_load_profiles(flat=False)
on = [int(r.max() > 0) for r in p]
print(on)
raise SystemExit(0 if on == [0, 1, 1, 0, 0, 0, 0, 0, 1, 1, 0] else 1)
'''
