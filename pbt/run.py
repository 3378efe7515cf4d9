"""python3-vt pbt/run.py <property> [--tier quick|thorough] [--only SUB] [--replay FILE]"""
import argparse
import importlib
import os
import warnings
import sys
import tempfile
import shutil
import atexit

HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    if os.environ.get("PYTHONHASHSEED") != "0" or os.environ.get("PYTHONUTF8") != "0" or os.environ.get("LC_ALL") != "C.UTF-8":
        env = dict(os.environ, PYTHONHASHSEED="0", PYTHONUTF8="0", LC_ALL="C.UTF-8", PYTHONDONTWRITEBYTECODE="1", TZ="UTC")
        os.execve(sys.executable, [sys.executable] + sys.argv, env)
    # always compile the sources of the working tree, never a stale .pyc
    cache = tempfile.mkdtemp(prefix="pbt_pyc_")
    parent = os.getpid()
    atexit.register(lambda: os.getpid() == parent and shutil.rmtree(cache, ignore_errors=True))
    sys.pycache_prefix = cache
    sys.dont_write_bytecode = True
    repo = os.environ.get("VERIF_REPO", "/repo")
    sys.path.insert(0, os.path.join(repo, "src"))
    sys.path.insert(0, HERE)

    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    parser.add_argument("--only")
    parser.add_argument("--replay")
    args = parser.parse_args()

    import harness
    module = importlib.import_module("checks." + args.property.lower())
    import opyenxes
    assert os.path.realpath(opyenxes.__file__).startswith(os.path.realpath(repo)), opyenxes.__file__
    if args.replay:
        return harness.replay(module, args.replay)
    seed = int(os.environ.get("VERIF_SEED") or "1")
    return harness.main(args.property, module, args.tier, seed, args.only)


if __name__ == "__main__":
    try:
        code = main()
    except Exception:
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)
