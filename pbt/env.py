"""Paths, interpreter set-up and isolation shared by every check.

The code under test is imported from $MDPO_REPO/src (default /repo/src), i.e.
from the current working tree; third-party dependencies of mdpo come from
/opt/venv, hypothesis from the interpreter that runs us.
"""
import os
import sys

sys.dont_write_bytecode = True

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MDPO_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
VENV_SITE = '/opt/venv/lib/python3.12/site-packages'

os.environ.setdefault('LANG', 'C.UTF-8')
os.environ.setdefault('LC_ALL', 'C.UTF-8')


def setup():
    sys.path[:] = [p for p in sys.path if p not in (SRC, VENV_SITE)]
    sys.path.insert(0, SRC)
    # after the interpreter's own site-packages: only what is missing there
    sys.path.append(VENV_SITE)
    import mdpo
    where = os.path.abspath(mdpo.__file__)
    if not where.startswith(os.path.abspath(SRC) + os.sep):
        raise RuntimeError(f'mdpo imported from {where}, expected {SRC}')


setup()
