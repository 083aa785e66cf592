"""Entry point: python -m mc.run C01 [quick|thorough] [replay.json]"""
import importlib
import json
import os
import sys
import traceback
import warnings


def no_stale_bytecode(root):
    """Never read cached bytecode of the code under test (an edit within the same second)."""
    import importlib._bootstrap_external as be
    orig = be.cache_from_source

    def cache_from_source(path, *a, **k):
        if os.path.realpath(path).startswith(root):
            raise NotImplementedError
        return orig(path, *a, **k)
    be.cache_from_source = cache_from_source


def main():
    no_stale_bytecode(os.path.realpath(os.environ.get("KD_REPO", "/repo")) + "/")
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    replay = None
    if len(sys.argv) > 3:
        replay = json.load(open(sys.argv[3]))
    warnings.filterwarnings("ignore")
    from mc.core import Check, HarnessError
    import kd
    repo = os.environ.get("KD_REPO", "/repo")
    assert os.path.realpath(kd.__file__).startswith(os.path.realpath(repo) + "/"), kd.__file__
    ck = Check(prop, tier, seed, replay)
    try:
        mod = importlib.import_module(f"checks.{prop.lower()}")
        with ck.guard():
            mod.run(ck)
    except HarnessError as e:
        print("HARNESS ERROR:", e, file=sys.stderr)
        # violations already found are still reported
        code = ck.finish() if ck.fails else 2
        sys.exit(code if code == 1 else 2)
    except BaseException:
        traceback.print_exc()
        code = ck.finish() if ck.fails else 2
        sys.exit(code if code == 1 else 2)
    sys.stdout.flush()
    sys.exit(ck.finish())


main()
