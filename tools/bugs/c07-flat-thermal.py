PROPERTY = "C07"
NEEDS = "a flat appliance with a power variability"
BREAKS = "flat appliances get a random power"
EDITS = [("ramp/core/core.py", """            total_power_value = self.power[prof_i] * self.number
""", """            total_power_value = random_variation(
                var=self.thermal_p_var, norm=self.power[prof_i] * self.number
            )
""")]
DEMO = '''
import random, warnings
warnings.simplefilter("ignore")
import numpy as np
from ramp import User
random.seed(4)
u = User("u")
a = u.add_appliance(number=2, power=10, num_windows=1, func_time=20, window_1=[300, 400], flat="yes", thermal_p_var=0.1)
a.generate_load_profile(0, np.arange(600, 700), 0, 10.0)
print(set(a.daily_use))
raise SystemExit(0 if set(a.daily_use) == {0.0, 20.0} else 1)
'''
