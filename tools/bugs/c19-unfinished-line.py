PROPERTY = 'C19'
NEEDS = 'an input file which does not end with a newline and is converted more than once'
BREAKS = 'the code added by the converter is glued to the last line, is not recognised later and added again by every conversion'
EDITS = [
    ('ramp/ramp_convert_old_input_files.py',
     'convert_names = """\n# Code',
     'convert_names = """# Code'),
]
DEMO = '''
import random, warnings, os, sys, io, contextlib
warnings.simplefilter("ignore")
import numpy as np, pandas as pd
from ramp import User, UseCase, Appliance
S = os.environ["SCRATCH"]

from ramp.ramp_convert_old_input_files import convert_old_user_input_file as conv
with open(S + "/inp.py", "w") as f: f.write("from ramp import User, Appliance\\nUser_list = []\\nu = User('u')\\nUser_list.append(u)\\nlamp = u.add_appliance(number=1, power=1, func_time=5, window_1=[0, 50])")
conv(S + "/inp.py", output_path=S)
with open(S + "/inp.py") as f: a = f.read()
conv(S + "/inp.py", output_path=S)
with open(S + "/inp.py") as f: b = f.read()
print(len(a), len(b))
raise SystemExit(0 if a == b else 1)
'''
