#!/usr/bin/env python3
"""Decide one property of /repo by generated-input search.

  run.py <ID>                    run the check of one property (VERIF_SEED, VERIF_TIER)
  run.py --replay <file>         re-run one saved case, without the search library
  run.py --list                  properties and their sub-checks

Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.  Other: harness error.
"""
import os
import sys

PY = '/opt/venv/bin/python'


def main():
  if os.environ.get('PYTHONHASHSEED') != '0' or os.environ.get('VERIF_REEXEC') != '1':
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', VERIF_REEXEC='1')
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, '-W', 'ignore', os.path.abspath(__file__)] + sys.argv[1:], env)
  sys.dont_write_bytecode = True
  here = os.path.dirname(os.path.abspath(__file__))
  os.chdir(here)
  sys.path.insert(0, here)
  from pbt import core
  return core.main(sys.argv[1:])


if __name__ == '__main__':
  sys.exit(main())
