#!/opt/venv/bin/python
"""replay.py FILE: run a recorded counterexample against the real code."""
import json
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from engine import runner

with open(sys.argv[1]) as f:
    v = json.load(f)
b = runner.Builder()
try:
    ok, text = runner.replay({k: v[k] for k in ('h', 'cfg', 'inputs', 'slack', 'detail')}, b)
finally:
    b.close()
print('%s: %s' % ('REPRODUCED' if ok else 'not reproduced', text))
sys.exit(1 if ok else 0)
