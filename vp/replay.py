"""Re-judges one recorded case: python3-vt -W ignore -m vp.replay <file>

Exit 1 if it still fails, 0 if it passes.  Needs no Hypothesis unless the file's
mode is "history" (the failure needs the calls of the cases before it).
"""

import json
import sys


def main(argv):
    from vp.core import Recorder, Violation
    from vp.props import PROPS

    with open(argv[1]) as fh:
        body = json.load(fh)
    spec = PROPS[body["property"]]
    judge = spec["judges"][body["judge"]]
    message = None
    if body.get("mode") == "history":
        from vp.run import campaign, rejudge

        bad = rejudge(body["property"], spec["judges"], Recorder())
        if bad is None and body["unit"] != "regressions":
            unit = next(u for u in spec["units"]() if u.name == body["unit"])
            _, bad = campaign(judge, unit.strategy(), body["seed"], body["examples"], body.get("shard", 0))
        message = bad and bad["message"]
    else:
        try:
            judge(body["case"], Recorder())
        except Violation as v:
            message = str(v)
    if message:
        print(message.encode("ascii", "backslashreplace").decode()[:1500])
        print("VIOLATION property=%s replay=%s" % (body["property"], argv[1]))
        return 1
    print("passes")
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv))
