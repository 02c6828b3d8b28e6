#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE]

Decides one property of properties.jsonl on the fca of /repo (or VERIF_REPO)."""
import os
import sys

PY = '/opt/venv/bin/python'


def pin():
    """same interpreter, pinned hash seed, so that a run can be repeated"""
    seed = os.environ.get('VERIF_SEED', '1')
    if '--replay' in sys.argv:
        import json
        with open(sys.argv[sys.argv.index('--replay') + 1]) as f:
            want = json.load(f).get('python_hash_seed') or seed
    else:
        want = str(int(seed) % 4294967295)
    if (os.environ.get('PYTHONHASHSEED') == want
            and os.environ.get('FCA_MC') == '1'):
        return
    env = dict(os.environ, PYTHONHASHSEED=want, FCA_MC='1',
               PYTHONDONTWRITEBYTECODE='1', PYTHONWARNINGS='ignore',
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
               PYTHONUTF8='1')
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, os.path.abspath(__file__)] + sys.argv[1:], env)


if __name__ == '__main__':
    pin()
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    from mc.engine import main
    sys.exit(main())
