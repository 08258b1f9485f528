PROPERTY = "C02"
NEEDS = "a functioning time between 99% and 100% of the available window time"
BREAKS = "the time budget is no longer capped at 99% of the available window minutes"
EDITS = [("ramp/core/core.py", """        if rand_time > 0.99 * total_time:
            rand_time = int(0.99 * total_time)
""", """        if rand_time > total_time:
            rand_time = int(0.99 * total_time)
""")]
DEMO = '''
import random, warnings
warnings.simplefilter("ignore")
import numpy as np
from ramp import User
random.seed(4)
u = User("u")
a = u.add_appliance(number=1, power=10, num_windows=1, func_time=200, window_1=[300, 500])
on = set()
for _ in range(30):
    a.generate_load_profile(0, np.arange(600, 700), 0, 10.0)
    on.add(int((a.daily_use > 1).sum()))
print("minutes on:", on, "at most 198 allowed")
raise SystemExit(0 if max(on) <= 198 else 1)
'''
