"""Runs jobs (one JSON object per line) on the untouched package.

usage: replay.py FILE           all jobs, one JSON result per line
       replay.py --show FILE    one replay file of a violation, readable; exit 1 if it violates
"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sx import concctx
concctx.setup_path()
sys.dont_write_bytecode = True
LIMIT_S = 45


class TooLong(BaseException):
    pass


def run(job):
    """one job; code that does not come to an end counts as a violation"""
    import signal

    def alarm(*a):
        raise TooLong()
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(LIMIT_S)
    try:
        return concctx.run(job)
    except TooLong:
        return {"violation": "does not finish within %d s" % LIMIT_S, "stopped": False,
                "observed": []}
    finally:
        signal.alarm(0)


def main():
    if sys.argv[1] == "--show":
        with open(sys.argv[2]) as f:
            job = json.load(f)
        r = run(job)
        print("property:", job.get("property"))
        print("harness: ", job["harness"] + "." + job["func"], job["params"])
        print("inputs:  ", json.dumps(job["inputs"]))
        print("result:  ", r["violation"] or "no violation")
        if r.get("trace"):
            print(r["trace"])
        sys.exit(1 if r["violation"] else 0)
    out = sys.stdout
    with open(sys.argv[1]) as f:
        for line in f:
            job = json.loads(line)
            r = run(job)
            r.pop("trace", None)
            out.write(json.dumps(r) + "\n")
            out.flush()


main()
