PROPERTY = "C03"
NEEDS = "an event which starts exactly at the first free minute of a free stretch, followed by one which starts at its last minute"
BREAKS = "two switch-on events may share a minute"
EDITS = [("ramp/core/core.py", """                self.free_spots.insert(
                    spot_idx, slice(indexes[-1] + 1, spot_to_split.stop, None)
                )
            elif""", """                self.free_spots.insert(
                    spot_idx, slice(indexes[-1], spot_to_split.stop, None)
                )
            elif""")]
DEMO = '''
import random, warnings
warnings.simplefilter("ignore")
import numpy as np
from ramp import User
random.seed(4)
u = User("u")
a = u.add_appliance(number=1, power=10, num_windows=1, func_time=10, window_1=[300, 312])
on = set()
for _ in range(3000):
    a.generate_load_profile(0, np.arange(600, 700), 0, 10.0)
    on.add(int((a.daily_use > 1).sum()))
print("minutes on:", on, "10 expected")
raise SystemExit(0 if on == {10} else 1)
'''
