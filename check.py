#!/usr/bin/env python3
"""check.py ID              decide property ID on /repo's working tree
check.py --replay FILE   run one recorded violation again
check.py --setup         build what does not depend on /repo"""
import json, os, sys, traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, os.path.join(HERE, "checks"))
import drive


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        with open(sys.argv[2]) as f:
            v = json.load(f)
        lab = drive.Lab(v["property"])
        try:
            lab.prepare()
            if "custom" in v:
                import checks
                what = checks.REPLAY[v["property"]](lab, v)
            else:
                what = lab.replay(v)
        finally:
            lab.close()
        print(what or "does not fail")
        return 1 if what else 0
    if sys.argv[1:] == ["--setup"]:
        drive.setup()
        return 0
    if len(sys.argv) != 2:
        print(__doc__)
        return 2
    import checks
    prop = sys.argv[1]
    lab = drive.Lab(prop)
    try:
        lab.prepare()
        checks.CHECKS[prop](lab)
        return lab.finish()
    except drive.Broken as e:
        if lab.violations:
            # what was replayed stands, whatever else happened
            return lab.finish()
        print("%s: no answer: %s" % (prop, e))
        return 2
    finally:
        lab.close()


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
