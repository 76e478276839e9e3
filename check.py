#!/usr/bin/env python3
"""Decide one property: check.py PROPERTY [--tier quick|thorough] [--seed N].

Exit 0 if the property held on everything explored, 1 with a VIOLATION line
if it did not, 3 if the check itself could not be run.
"""

import argparse
import os
import sys
import tempfile
import shutil

PYTHON = '/opt/venv/bin/python'
HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    a = argparse.ArgumentParser()
    a.add_argument('property')
    a.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'),
                   choices=['quick', 'thorough'])
    a.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    a.add_argument('--only', help='run only the stages whose name contains this')
    args = a.parse_args()

    if os.environ.get('MDTOC_VERIF_CHILD') != '1':
        # A fresh interpreter: UTF-8 everywhere, no bytecode but its own.
        cache = tempfile.mkdtemp(prefix='mdtoc-pyc-')
        env = dict(os.environ, MDTOC_VERIF_CHILD='1', PYTHONUTF8='1',
                   PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX=cache,
                   PYTHONHASHSEED='0', LC_ALL='C.UTF-8')
        import subprocess
        try:
            return subprocess.call([PYTHON, os.path.abspath(__file__)] + sys.argv[1:], env=env)
        finally:
            shutil.rmtree(cache, ignore_errors=True)

    sys.path.insert(0, os.path.join(HERE, 'harness'))
    import core
    import props
    check = core.Check(args.property, args.tier, args.seed)
    try:
        for name, stage in props.stages(args.property, check.quick):
            if args.only and args.only not in name:
                continue
            stage(check, name)
            if check.violations and len(check.violations) > 200:
                break
        return check.finish()
    except BaseException:
        import traceback
        traceback.print_exc()
        check.abort()
        return 3


if __name__ == '__main__':
    sys.exit(main())
