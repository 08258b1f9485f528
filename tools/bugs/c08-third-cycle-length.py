PROPERTY = "C08"
NEEDS = "a non-continuous appliance with three cycles, the third one of another length than the second, and events within the windows of the third cycle"
BREAKS = "an event of the third cycle is limited to the length of the second"
EDITS = [("ramp/core/core.py", """                    self.current_duty_cycle_id = 3
                    duty_cycle_duration = len(self.random_cycle3)
""", """                    self.current_duty_cycle_id = 3
                    duty_cycle_duration = len(self.random_cycle2)
""")]
DEMO = '''
import random, warnings
warnings.simplefilter("ignore")
import numpy as np
from ramp import User
random.seed(4)
u = User("u")
a = u.add_appliance(number=1, power=10, num_windows=1, func_time=300, func_cycle=60, window_1=[0, 1400], fixed_cycle=3, continuous_duty_cycle=0,
    p_11=5, t_11=5, p_12=6, t_12=5, cw11=[0, 200], p_21=7, t_21=20, p_22=8, t_22=20, cw21=[300, 500], p_31=3, t_31=3, p_32=4, t_32=3, cw31=[600, 1400])
bad = 0
for _ in range(100):
    a.generate_load_profile(0, np.arange(1401, 1410), 0, 10.0)
    d = a.daily_use
    m = 600
    while m < 1440:
        e = m
        while e < 1440 and d[e] > 1:
            e += 1
        # runs of whole cycles which touch each other are possible: every group of six minutes is 333444 or 444333
        if e - m > 6 and (len(d[m:e]) >= 7 and np.array_equal(d[m:m + 6], d[m + 6:m + 12]) and e - m >= 12 and (e - m) % 6 != 0):
            bad += 1
        m = max(e, m + 1)
print("too long events:", bad)
raise SystemExit(1 if bad else 0)
'''
