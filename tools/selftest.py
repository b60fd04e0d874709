#!/opt/venv/bin/python -B
"""Setup: nothing has to be built; makes sure that TLC and the code under test run."""
import sys, os
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import script
r = script.chunk(('setup', 0, 5, [{}], True))
print('setup:', r.get('error') or f"{r['n']} scripts, {r['states']} states")
sys.exit(1 if 'error' in r else 0)
