#!/opt/venv/bin/python
"""Entry point: check.py C01 [--replay FILE] (see DESIGN.md)."""
import os
import sys

ENV = {'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1',
       'LC_ALL': 'C.UTF-8', 'TZ': 'UTC', 'HOME': '/sim/home'}
PY = '/opt/venv/bin/python'

if __name__ == '__main__':
    if not os.environ.get('VERIF_CHILD'):
        env = dict(os.environ)
        env.update({k: v for k, v in ENV.items()
                    if k != 'PYTHONHASHSEED' or
                    not env.get('VERIF_HASHSEED')})
        if env.get('VERIF_HASHSEED'):
            env['PYTHONHASHSEED'] = env['VERIF_HASHSEED']
        env['VERIF_CHILD'] = '1'
        py = PY if os.path.exists(PY) else sys.executable
        os.execve(py, [py, '-W', 'ignore', os.path.abspath(__file__)] +
                  sys.argv[1:], env)
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path.insert(0, here)
    os.environ.pop('VERIF_CHILD', None)
    from sim import runner
    sys.exit(runner.main())
