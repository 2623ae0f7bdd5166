"""A separate operating system process that executes a list of calls (see props/c11.py)."""
import json
import pickle
import sys
import time


def main(path):
    from . import boot

    before = time.time_ns()
    boot.load_tatc()
    after = time.time_ns()
    from .props import c11

    sc = json.load(open(path))
    try:
        out = ("ok", c11.process(sc, (before, after)))
    except BaseException as e:  # noqa
        import traceback

        out = ("error", "%s\n%s" % (e, traceback.format_exc()))
    with open(path + ".out", "wb") as f:
        pickle.dump(out, f)
    sys.stdout.flush()
    return 0
