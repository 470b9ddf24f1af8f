"""Import plumbing: the code under test from /repo, Hypothesis from the tool venv.

Only the Hypothesis packages are taken from the tool venv: that venv holds
another numpy than the one the code under test is installed with.
"""
import os
import sys
import importlib.machinery

REPO = os.environ.get('VERIF_REPO', '/repo')      # overridden only in development
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOOLVENV = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
ALLOWED = ('hypothesis', 'sortedcontainers', '_hypothesis_globals',
           '_hypothesis_ftz_detector')


class ToolFinder(object):
    @staticmethod
    def find_spec(name, path=None, target=None):
        if path is None and name in ALLOWED:
            return importlib.machinery.PathFinder.find_spec(name, [TOOLVENV])
        return None


sys.path.insert(0, os.path.join(VERIF, 'lib'))
sys.path.insert(0, os.path.join(VERIF, 'props'))
sys.path.insert(0, REPO)
sys.meta_path.append(ToolFinder)
