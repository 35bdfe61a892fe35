import os, sys


def entry():
    from . import core
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        return core.replay(a[1])
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    return core.main(a[0], tier, int(os.environ.get("VERIF_SEED", "1") or 1))


if __name__ == "__main__":
    try:
        rc = entry()
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
