PROPERTY = 'C19'
NEEDS = 'several input files from different folders in one command without an output folder'
BREAKS = 'all the spreadsheets go to the folder of the first input file'
EDITS = [
    ('ramp/ramp_convert_old_input_files.py',
     '            for fname in fnames:\n                convert',
     '            for fname in fnames:\n                output_path = output_path or os.path.dirname(fname)\n                convert'),
]
DEMO = '''
import random, warnings, os, sys, io, contextlib
warnings.simplefilter("ignore")
import numpy as np, pandas as pd
from ramp import User, UseCase, Appliance
S = os.environ["SCRATCH"]

import ramp.ramp_convert_old_input_files as conv
for d in ("a", "b"):
    os.makedirs(S + "/" + d)
    with open(S + "/" + d + "/in_" + d + ".py", "w") as f: f.write("from ramp import User, Appliance\\nUser_list = []\\nu = User('u')\\nUser_list.append(u)\\nlamp = u.add_appliance(number=1, power=1, func_time=5, window_1=[0, 50])\\n")
sys.argv = ["ramp_convert", "-i", S + "/a/in_a.py", S + "/b/in_b.py"]
conv.cli()
print(os.listdir(S + "/a"), os.listdir(S + "/b"))
raise SystemExit(0 if "in_b.xlsx" in os.listdir(S + "/b") else 1)
'''
