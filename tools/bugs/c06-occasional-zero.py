PROPERTY = "C06"
NEEDS = "an appliance with an occasional use of exactly 0"
BREAKS = "an appliance which is never used runs every day"
EDITS = [("ramp/core/core.py", """            random.uniform(0, 1) > self.occasional_use
""", """            random.uniform(0, 1) > (self.occasional_use or 1)
""")]
DEMO = '''
import random, warnings
warnings.simplefilter("ignore")
import numpy as np
from ramp import User
random.seed(4)
u = User("u")
a = u.add_appliance(number=1, power=10, num_windows=1, func_time=20, window_1=[300, 400], occasional_use=0)
t = 0
for _ in range(50):
    a.generate_load_profile(0, np.arange(600, 700), 0, 10.0)
    t += (a.daily_use > 0).sum()
print("minutes:", t)
raise SystemExit(1 if t else 0)
'''
