#!/usr/bin/env python3
"""replay.py FILE: run the recorded failing input against the real code"""
import sys, os, json
os.environ['DV_INNER'] = '1'
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import check
d = json.load(open(sys.argv[1]))
if 'inputs' not in d:
    print(json.dumps(d, indent=1)); sys.exit(2)
a = check.Native().ask({'task': d['task'], 'inputs': d['inputs']})
print(json.dumps(a, indent=1))
sys.exit(1 if a.get('failed') else 0)
