# Puts the freshly compiled extensions in place of whatever .so lies in the working tree, in every child process too.
import os
import sys
_d = os.environ.get("VERIF_EXT_DIR")
if _d:
    import importlib.machinery
    import importlib.util

    class _Finder(object):
        names = ("pystruct.models.utils", "pystruct.inference._viterbi")

        @classmethod
        def find_spec(cls, name, path=None, target=None):
            if name in cls.names:
                p = os.path.join(_d, name + ".so")
                loader = importlib.machinery.ExtensionFileLoader(name, p)
                return importlib.util.spec_from_file_location(name, p, loader=loader)
            return None
    sys.meta_path.insert(0, _Finder)
