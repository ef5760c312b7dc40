"""Replay a recorded counterexample on the unmodified code: exit 1 if the property is
really violated, 0 if not, 2 on any other problem."""
import json
import os
import sys

os.environ['SYMX_REPLAY'] = '1'
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.setrecursionlimit(20000)


def main(path):
    from symx import run
    rec = json.load(open(path))
    chk = run.load_check(rec['property'])
    ok, txt = chk.replay(rec['ce'])
    print(txt)
    return 1 if not ok else 0


if __name__ == '__main__':
    try:
        rc = main(sys.argv[1])
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
