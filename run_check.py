#!/usr/bin/env python3
"""Driver for the property checks.

    run_check.py <ID>                    parallel search (tier and seed from VERIF_TIER / VERIF_SEED)
    run_check.py <ID> --replay FILE      re-run one saved case (no Hypothesis involved)
    run_check.py <ID> --worker K ...     internal

Exit status: 0 held, 1 violated (prints VIOLATION line), 2 error of the check itself.
"""
import os
import sys

PY = '/opt/venv/bin/python'
HERE = os.path.dirname(os.path.abspath(__file__))

ENV = {
    'PYTHONHASHSEED': '0',
    'PYTHONDONTWRITEBYTECODE': '1',
    'PYTHONNOUSERSITE': '1',
    'MPLBACKEND': 'agg',
    'OMP_NUM_THREADS': '1',
    'OPENBLAS_NUM_THREADS': '1',
    'HDF5_USE_FILE_LOCKING': 'FALSE',
    'LANG': 'C.UTF-8',
    'LC_ALL': 'C.UTF-8',
    'TZ': 'UTC',
    'PATH': '/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
    'KDV_ENV': '1',
}

if __name__ == '__main__':
    if os.environ.get('KDV_ENV') != '1':
        env = dict(os.environ)
        env.update(ENV)
        for k in ('PYTHONPATH', 'PYTHONSTARTUP', 'PYTHONOPTIMIZE', 'PYTHONWARNINGS'):
            env.pop(k, None)
        os.execve(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:], env)
    sys.path.insert(0, HERE)
    from kdv import engine
    sys.exit(engine.main(sys.argv[1:]))
