PROPERTY = 'C19'
NEEDS = 'an input file which mentions the marker of the converter in a comment or docstring of its own'
BREAKS = 'the names of the variables are not given to the appliances'
EDITS = [
    ('ramp/ramp_convert_old_input_files.py',
     '        if "# Code automatically added by ramp_convert_old_input_files.py\\n" in lines:',
     '        if any("ramp_convert_old_input_files.py" in l for l in lines):'),
]
DEMO = '''
import random, warnings, os, sys, io, contextlib
warnings.simplefilter("ignore")
import numpy as np, pandas as pd
from ramp import User, UseCase, Appliance
S = os.environ["SCRATCH"]

from ramp.ramp_convert_old_input_files import convert_old_user_input_file as conv
with open(S + "/inp.py", "w") as f: f.write("# to be converted with ramp_convert_old_input_files.py\\nfrom ramp import User, Appliance\\nUser_list = []\\nu = User('u')\\nUser_list.append(u)\\nlamp = u.add_appliance(number=1, power=1, func_time=5, window_1=[0, 50])\\n")
conv(S + "/inp.py", output_path=S)
uc = UseCase(); uc.load(S + "/inp.xlsx")
print(uc.users[0].App_list[0].name)
raise SystemExit(0 if uc.users[0].App_list[0].name == "lamp" else 1)
'''
