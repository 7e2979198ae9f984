#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough] [--only SUBSTR] [-v]
check.py --replay FILE"""
import argparse
import json
import os
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    args = ap.parse_args()
    if args.replay:
        from symex.replay import Client
        with open(args.replay) as fin:
            req = json.load(fin)
        client = Client("harness.%s" % req["property"].lower())
        res = client.run(req["case"], req["params"], req["assignment"])
        client.close()
        print(json.dumps(res, indent=1))
        if res["status"] in ("check", "exception"):
            print("VIOLATION property=%s replay=%s" % (req["property"],
                                                       args.replay))
            return 1
        return 0
    from symex import runner
    return runner.main(args.property, args.tier,
                       int(os.environ.get("VERIF_SEED", "1") or 1),
                       args.only, args.jobs, args.v)


if __name__ == "__main__":
    sys.exit(main())
