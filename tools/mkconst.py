"""mkconst.py SSA.json: rewrites concrete/constants.json, the constants of the unmodified tree (only used to weight the
search for failing inputs)"""
import json
import os
import sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF + '/engine')
import check
ssa = json.load(open(sys.argv[1]))
json.dump({'words': check.words(ssa), 'ints': check.ints(ssa), 'sizes': check.ints(ssa, False)},
          open(VERIF + '/concrete/constants.json', 'w'), indent=0)
