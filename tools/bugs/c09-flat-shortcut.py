PROPERTY = "C09"
NEEDS = "a user type of several single users which owns only flat appliances, one of them with a window variability or an occasional use below 1"
BREAKS = "the profile of one single user is shared between all single users"
EDITS = [("ramp/core/core.py", """        self.load = np.zeros(1440)  # initialise empty load for User instance
        for _ in range(self.num_users):
""", """        self.load = np.zeros(1440)  # initialise empty load for User instance
        if self.user_preference == 0 and all(app.flat == "yes" for app in self.App_list):
            # flat appliances are not random, all single users have the same load
            self.load = self.num_users * self.generate_single_load_profile(
                prof_i, peak_time_range, day_type
            )
            return self.load
        for _ in range(self.num_users):
""")]
DEMO = '''
import random, warnings
warnings.simplefilter("ignore")
import numpy as np
from ramp import User, UseCase
random.seed(4)
u = User("u", 10)
u.add_appliance(number=1, power=10, num_windows=1, func_time=20, window_1=[300, 400], flat="yes", occasional_use=0.5)
uc = UseCase(users=[u], date_start="2023-01-02", date_end="2023-01-08")
p = uc.generate_daily_load_profiles(flat=False)[:, 350]
print(p)
raise SystemExit(1 if set(p) <= {0.0, 100.0} else 0)
'''
