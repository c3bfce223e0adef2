#!/usr/bin/env python3
import os, shutil, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, checks


def main():
    prop = sys.argv[1]
    c = vlib.Check(prop)
    try:
        return checks.REGISTRY[prop](c)
    except vlib.CheckError as e:
        print("CHECK ERROR property=%s: %s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(c.dir, ignore_errors=True)


sys.exit(main())
