#!/usr/bin/env python3
"""check.py <property id>: decide one property on /repo's current tree."""
import os, sys, importlib, traceback
sys.setrecursionlimit(20000)
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "sa"))
import threading


def main(pid):
    import dump
    try:
        mod = importlib.import_module("rules." + pid.lower())
        return mod.main()
    except dump.DumpError as e:
        print("ERROR: " + str(e))
        return 2


if __name__ == "__main__":
    want = os.environ.get("IL_HASHSEED", "0")
    if os.environ.get("PYTHONHASHSEED") != want:
        # the same order of sets, and so the same analysis, on every run
        os.environ["PYTHONHASHSEED"] = want
        os.execv(sys.executable, [sys.executable] + sys.argv)
    threading.stack_size(512 << 20)
    rc = []

    def go():
        try:
            rc.append(main(sys.argv[1]))
        except SystemExit as e:
            rc.append(e.code)
        except BaseException:
            traceback.print_exc()
            rc.append(3)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    sys.exit(rc[0])
