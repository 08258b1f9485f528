PROPERTY = 'C16'
NEEDS = 'an appliance declared with the legacy call and a thermal variability or an occasional use'
BREAKS = 'the legacy call gives the occasional use as the thermal variability'
EDITS = [
    ('ramp/core/core.py',
     '            occasional_use=occasional_use,\n            flat=flat,\n            thermal_p_var=thermal_P_var,\n',
     '            occasional_use=occasional_use,\n            flat=flat,\n            thermal_p_var=min(thermal_P_var, occasional_use),\n'),
]
DEMO = '''
import random, warnings, os, sys, io, contextlib
warnings.simplefilter("ignore")
import numpy as np, pandas as pd
from ramp import User, UseCase, Appliance
S = os.environ["SCRATCH"]

u = User("u")
a = u.Appliance(number=1, power=10, func_time=10, thermal_P_var=0.5, occasional_use=0.2)
print(a.thermal_p_var)
raise SystemExit(0 if a.thermal_p_var == 0.5 else 1)
'''
