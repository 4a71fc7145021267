"""Makes hypothesis importable in /repo's interpreter without installing anything:
only the named packages are looked up in the tool environment (or unpacked from the wheelhouse)."""
import glob
import importlib.machinery
import os
import sys
import tempfile
import zipfile

NAMES = ('hypothesis', 'sortedcontainers', '_hypothesis_ftz_detector', '_hypothesis_globals', '_hypothesis_pytestplugin')
PLACE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


class Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if path is None and name in NAMES:
            return importlib.machinery.PathFinder.find_spec(name, [PLACE])
        return None


try:
    import hypothesis  # noqa
except ImportError:
    if not os.path.isdir(os.path.join(PLACE, 'hypothesis')):
        PLACE = tempfile.mkdtemp(prefix='vp-hyp-')
        for pat in ('hypothesis-*.whl', 'sortedcontainers-*.whl'):
            for whl in glob.glob('/opt/veriftools/wheels/' + pat):
                zipfile.ZipFile(whl).extractall(PLACE)
    sys.meta_path.append(Finder)
    import hypothesis  # noqa
