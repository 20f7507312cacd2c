"""run one check: python run_check.py C01"""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import mc.setup_env  # noqa: E402,F401
from mc import core  # noqa: E402


class _Broken(object):
    pass


def main():
    prop = sys.argv[1].upper()
    if prop == '--SELFTEST':
        # the interpreter, the stand-ins and the stored tools are usable
        import numpy, scipy, numba, galsim, esutil, ngmix, sxdes  # noqa
        print('ok')
        return
    try:
        mod = importlib.import_module('checks.%s' % prop.lower())
    except BaseException:
        import traceback
        traceback.print_exc()
        rdir = os.path.join(HERE, 'replays')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-import.txt' % prop)
        with open(path, 'w') as fp:
            fp.write(traceback.format_exc())
        print('VIOLATION property=%s replay=%s' % (prop, path))
        sys.exit(1)
    core.main(mod)


main()
