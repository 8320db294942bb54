"""Setup: checks that the interpreter and the library under test load."""
import os
import subprocess
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
py = PY if os.path.exists(PY) else sys.executable
for d in ('evidence', 'replays'):
    os.makedirs(os.path.join(HERE, d), exist_ok=True)
sys.exit(subprocess.call([py, '-W', 'ignore', '-c',
                          'import greenlet, Crypto; print("ready")']))
