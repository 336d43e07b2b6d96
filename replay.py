#!/opt/venv/bin/python
"""replay.py FILE -- runs the failing input of a violation again"""
import sys, os, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import fals
d = json.load(open(sys.argv[1]))
if 'case' not in d:
    print('no failing input; failed obligation %s' % d.get('obligation')); print(d.get('detail')); print(d.get('solver_output')); sys.exit(2)
r = [m for p, m in fals.run(d['case']) if p in (None, d['property'])]
for m in r: print(m)
sys.exit(1 if r else 0)
