"""Runs scenarios in another Python process (another hash seed): one JSON line in, one log hash out."""
import json
import os
import sys


def main():
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    from . import core
    for line in sys.stdin:
        try:
            run = core.execute(json.loads(line), max_steps=60000, keep_runner=False, watch=False)
            d = dict(hash=run.log_hash(), exc=run.exc, rows=[r.brief() for r in run.rows[:4000]])
        except BaseException as e:
            d = dict(error=repr(e))
        out.write(json.dumps(d, default=str) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
