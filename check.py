#!/usr/bin/env python3
"""Entry point of every check:  check.py C05 [--tier quick|thorough] [--replay FILE] [--sub NAME]

Re-executes itself under the project's own interpreter with a clean, pinned environment, then
hands over to vh.core.  Needs nothing but /verif, /repo and the preinstalled tools.
"""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'

def main():
    if os.environ.get('VH_CHILD') != '1':
        env = {k: v for k, v in os.environ.items()
               if k in ('PATH', 'HOME', 'TMPDIR', 'LANG', 'LC_ALL', 'VERIF_SEED', 'VERIF_TIER', 'VH_REPO')}
        repo = env.get('VH_REPO', '/repo')
        env.setdefault('PATH', '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin')
        env.update(VH_CHILD='1', VH_REPO=repo, CONDA_PREFIX='/usr', PYTHONPATH=repo, MPLBACKEND='Agg',
                   PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
                   MKL_NUM_THREADS='1', PYTHONHASHSEED='0', PYTHONUNBUFFERED='1', PYTHONFAULTHANDLER='1')
        os.execve(PY, [PY, '-P', os.path.join(HERE, 'check.py')] + sys.argv[1:], env)
    sys.path.insert(0, HERE)
    from vh import core
    sys.exit(core.main(sys.argv[1:]))

if __name__ == '__main__':
    main()
