#!/usr/bin/env python3
"""Nothing to build: shows that the interpreter can import the library and the
machinery, and that the reference model agrees with itself."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
py = PY if os.path.exists(PY) else sys.executable
sys.exit(subprocess.call([py, os.path.join(HERE, 'tools', 'selftest.py')],
                         env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1')))
