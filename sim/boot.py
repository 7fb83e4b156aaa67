"""Process set-up: imports the code under test from /repo/src, never from a byte-code cache."""
import os
import sys
import warnings

warnings.filterwarnings("ignore")
os.environ.setdefault("MPLBACKEND", "Agg")
REPO = os.environ.get("GEM_REPO", "/repo")
SRC = os.path.join(REPO, "src")
sys.dont_write_bytecode = True


def _install():
    from importlib.machinery import FileFinder, SourceFileLoader

    class NoCache(SourceFileLoader):
        def get_code(self, fullname):
            path = self.get_filename(fullname)
            return self.source_to_code(self.get_data(path), path)

    hook = FileFinder.path_hook((NoCache, [".py"]))

    def only_src(path):
        if path == SRC or path.startswith(SRC + os.sep):
            return hook(path)
        raise ImportError
    sys.path_hooks.insert(0, only_src)
    sys.path_importer_cache.clear()
    if SRC in sys.path:
        sys.path.remove(SRC)
    sys.path.insert(0, SRC)


_install()

import matplotlib  # noqa

matplotlib.use("Agg")
import gymnasium  # noqa
import gym_electric_motor as gem  # noqa

try:
    gymnasium.logger.min_level = 50
    gymnasium.logger.set_level(50)
except Exception:
    pass
assert os.path.realpath(gem.__file__).startswith(os.path.realpath(SRC)), gem.__file__
warnings.filterwarnings("ignore")
