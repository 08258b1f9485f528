PROPERTY = "C05"
NEEDS = "the last event of a day being shortened so that it no longer reaches the peak time range"
BREAKS = "whether the last event of a day is on-peak is decided from minutes during which it does not run"
EDITS = [("ramp/core/core.py", """                    inside_peak_window = within_peak_time_window(
                        indexes_adj[0],
                        indexes_adj[-1],
                        peak_time_range[0],
                        peak_time_range[-1],
                    )
""", """                    inside_peak_window = within_peak_time_window(
                        indexes[0],
                        indexes[-1],
                        peak_time_range[0],
                        peak_time_range[-1],
                    )
""")]
DEMO = '''
import random, warnings
warnings.simplefilter("ignore")
import numpy as np
from ramp import User
random.seed(4)
u = User("u")
a = u.add_appliance(number=10, power=10, num_windows=1, func_time=30, func_cycle=10, window_1=[100, 200])
# all events fully outside of the peak switch on ten units, the others one
real = random.uniform
random.gauss = lambda mu, sigma: -5.0
random.uniform = lambda a, b: 0.949 if (a == 0 and abs(b - 0.95) < 1e-9) else real(a, b)
bad = 0
for _ in range(2000):
    a.generate_load_profile(0, np.arange(150, 160), 0, 10.0)
    d = a.daily_use
    m = 0
    while m < 1440:
        e = m
        while e < 1440 and d[e] == d[m]:
            e += 1
        if d[m] > 1 and (e <= 150 or m >= 160) and d[m] < 99:
            bad += 1
        m = e
print("events outside of the peak computed as on-peak:", bad)
raise SystemExit(1 if bad else 0)
'''
