"""Entry point:  python -m mc.run <ID> [--tier quick|thorough] [--jobs N] [--replay FILE]"""
import argparse
import os
import sys


def main():
    p = argparse.ArgumentParser()
    p.add_argument("property")
    p.add_argument("--tier", choices=("quick", "thorough"), default=os.environ.get("VERIF_TIER", "quick"))
    p.add_argument("--jobs", type=int, default=0)
    p.add_argument("--replay")
    a = p.parse_args()
    from mc import core
    try:
        if a.replay:
            rc = core.run_replay(a.property, a.replay)
        else:
            rc = core.run_check(a.property, a.tier, a.jobs)
    except Exception as e:
        # the tree does not even load/run under the harness
        import traceback
        tb = traceback.format_exc()
        print(tb)
        path = core.write_replay(a.property, {"startup": repr(e)}, tb)
        print("VIOLATION property={} replay={}".format(a.property, path))
        rc = 1
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == "__main__":
    main()
