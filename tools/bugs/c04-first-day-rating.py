PROPERTY = "C04"
NEEDS = "an appliance with a different power every day, no duty cycles, any day but the first"
BREAKS = "events are computed with the rating of the first day"
EDITS = [("ramp/core/core.py", """                (random_variation(var=self.thermal_p_var, norm=coincidence * power)),
""", """                (
                    random_variation(
                        var=self.thermal_p_var, norm=coincidence * self.power[0]
                    )
                ),
""")]
DEMO = '''
import random, warnings
warnings.simplefilter("ignore")
import numpy as np, pandas as pd
from ramp import User, UseCase
random.seed(4)
u = User("u")
a = u.add_appliance(number=1, power=pd.DataFrame([float(i + 1) for i in range(366)]), num_windows=1, func_time=20, window_1=[300, 400])
uc = UseCase(users=[u], date_start="2023-01-02", date_end="2023-01-05")
p = uc.generate_daily_load_profiles(flat=False)
print(p.max(axis=1))
raise SystemExit(0 if np.allclose(p.max(axis=1), [1, 2, 3, 4]) else 1)
'''
