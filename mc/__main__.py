"""python -m mc check C01 quick|thorough ; python -m mc replay FILE ; python -m mc selftest"""
import sys
import warnings

warnings.simplefilter('ignore')
sys.dont_write_bytecode = True
sys.pycache_prefix = '/nonexistent/utg-verif-pycache'   # never read byte code left by earlier versions of /repo

from mc import core   # noqa: E402

sys.path.insert(0, core.REPO)


def main(argv):
    if argv[:1] == ['check'] and len(argv) in (2, 3):
        import os
        return core.main(argv[1].upper(), argv[2] if len(argv) == 3 else os.environ.get('VERIF_TIER', 'quick'))
    if argv[:1] == ['replay'] and len(argv) == 2:
        return core.replay(argv[1])
    print(__doc__)
    return 2


if __name__ == '__main__':
    sys.stdout.reconfigure(errors='backslashreplace')
    sys.stderr.reconfigure(errors='backslashreplace')
    try:
        code = main(sys.argv[1:])
    except Exception:
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)
