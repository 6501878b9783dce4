"""Command line: python -m dst.cli check <PROPERTY> [--tier quick|thorough] [--count N] | replay <file> | list"""
import os
import sys


def main(argv):
    if os.environ.get("PYTHONHASHSEED") != "0" and not os.environ.get("DST_KEEP_HASHSEED"):
        env = dict(os.environ, PYTHONHASHSEED="0")
        os.execve(sys.executable, [sys.executable, "-m", "dst.cli"] + argv, env)
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    count = None
    pos = []
    it = iter(argv)
    for a in it:
        if a == "--tier":
            tier = next(it)
        elif a == "--count":
            count = int(next(it))
        elif a == "--seed":
            seed = int(next(it))
        else:
            pos.append(a)
    if not pos:
        print(__doc__)
        return 2
    from . import harness, props
    if pos[0] == "list":
        for p in props.all_ids():
            print(p)
        return 0
    if pos[0] == "replay":
        return harness.replay(pos[1])
    if pos[0] == "check":
        rc = 0
        for pid in (props.all_ids() if pos[1] == "all" else pos[1:]):
            rc = max(rc, harness.run_check(props.get(pid), tier, seed, count))
        return rc
    print(__doc__)
    return 2


if __name__ == "__main__":
    try:
        code = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        code = 3
    sys.stdout.flush()
    os._exit(code)
