"""Runs the check of one property:  run.py <ID> | run.py --replay <file>

exit 0  the property held on everything explored
exit 1  a VIOLATION line was printed
other   the machinery failed
"""
import os
import sys

for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[v] = "1"
os.environ["MPLBACKEND"] = "Agg"
os.environ["PYTHONHASHSEED"] = "0"
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness"))
import runner

if __name__ == "__main__":
    try:
        if sys.argv[1] == "--replay":
            sys.exit(runner.replay(sys.argv[2]))
        sys.exit(runner.check(sys.argv[1]))
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        sys.exit(3)
