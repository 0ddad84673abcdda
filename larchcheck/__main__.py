import importlib
import sys
import warnings

warnings.simplefilter('ignore')
sys.setrecursionlimit(10000)


def main():
    pid = sys.argv[1]
    from .report import run_check
    try:
        mod = importlib.import_module('larchcheck.checks.' + pid.lower())
    except ImportError as e:
        print('no such check', pid, e)
        sys.exit(2)
    run_check(pid, mod, sys.argv[2:])


if __name__ == '__main__':
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        sys.exit(2)
