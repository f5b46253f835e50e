#!/opt/venv/bin/python
"""check.py <property> [--replay FILE]

Decides one property by running daisy from /repo's working tree under the
monitors of vlib/.  VERIF_SEED and VERIF_TIER (quick, thorough) choose the
workloads."""

import json
import os
import sys
import time

sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from vlib import common  # noqa: E402


def main():
    args = sys.argv[1:]
    prop = args[0]
    t0 = time.monotonic()
    with common.scratch() as where:
        os.chdir(where)
        try:
            common.quiet_daisy(where)
        except Exception as e:
            # daisy can not even be imported: nothing it promises holds
            import traceback

            traceback.print_exc()
            r = common.Result()
            r.take({"import": "daisy"}, "violated", {"detail": f"daisy can not be imported: {e!r}"})
            return common.finish(prop, [r], "import of daisy", t0)
        from checks import CHECKS

        check = CHECKS[prop]
        if "--replay" in args:
            rec = json.load(open(args[args.index("--replay") + 1]))
            return check.replay(rec["case"], t0)
        return check.run(t0)


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
