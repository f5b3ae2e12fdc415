"""Import projectq from the working tree of /repo, with the native simulator built from the same tree."""
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
NAME = 'projectq.backends._sim._cppsim'


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, so):
        self.so = so
        self.used = False

    def find_spec(self, name, path=None, target=None):
        if name != NAME:
            return None
        self.used = True
        if self.so is None:
            raise ImportError('native simulator disabled by the harness')
        loader = importlib.machinery.ExtensionFileLoader(name, self.so)
        return importlib.util.spec_from_file_location(name, self.so, loader=loader)


def boot(so):
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    f = _Finder(so)
    sys.meta_path.insert(0, f)
    import projectq

    assert os.path.dirname(os.path.dirname(os.path.abspath(projectq.__file__))) == os.path.abspath(REPO), projectq.__file__
    return f
