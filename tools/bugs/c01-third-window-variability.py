PROPERTY = "C01"
NEEDS = "an appliance with three windows of different lengths and a window variability"
BREAKS = "the edges of the third window move by the variability of the first window's length"
EDITS = [("ramp/core/core.py", """        self.random_var_3 = int(
            random_var_w * np.diff(self.window_3)[0]
        )  # same as above""", """        self.random_var_3 = int(
            random_var_w * max(np.diff(self.window_1)[0], np.diff(self.window_3)[0])
        )  # same as above""")]
DEMO = '''
import random, warnings
warnings.simplefilter("ignore")
import numpy as np
from ramp import User
random.seed(4)
u = User("u")
a = u.add_appliance(number=1, power=10, num_windows=3, func_time=5, window_1=[0, 600], window_2=[700, 800], window_3=[1000, 1100], random_var_w=0.2)
worst = 0
for _ in range(300):
    a.generate_load_profile(0, np.arange(600, 700), 0, 10.0)
    m = np.flatnonzero(a.daily_use[900:]) + 900
    if len(m):
        worst = max(worst, 1000 - m[0], m[-1] - 1099)
print("third window left by", worst, "minutes, 20 allowed")
raise SystemExit(0 if worst <= 20 else 1)
'''
