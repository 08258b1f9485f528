PROPERTY = "C10"
NEEDS = "parallel processing and two tasks of the same appliance in one chunk sent to a worker (one appliance, several single users or days)"
BREAKS = "the results of one chunk share one buffer, so that a worker returns its last profile for all of them"
EDITS = [("ramp/core/core.py", """        # initialises variables for the cycle
        self.daily_use = np.zeros(1440)
""", """        # initialises variables for the cycle
        self.daily_use.fill(0)
""")]
DEMO = '''
import random, warnings
warnings.simplefilter("ignore")
import numpy as np
from ramp import User, UseCase
if __name__ == "__main__":
    u = User("u", 8)
    u.add_appliance(number=1, power=10, num_windows=1, func_time=5, window_1=[0, 1400])
    uc = UseCase(users=[u], date_start="2023-01-02", date_end="2023-01-02", parallel_processing=True)
    p = uc.generate_daily_load_profiles(flat=False)[0]
    n = len(np.flatnonzero(p > 1))
    print("minutes on:", n, "between 25 and 40 expected of 8 independent users on for 5 minutes")
    raise SystemExit(0 if n >= 25 else 1)
'''
