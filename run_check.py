#!/opt/venv/bin/python
"""run_check.py Cnn          decide one property on /repo's working tree
   run_check.py Cnn --replay FILE   run one recorded case again"""
import importlib
import json
import os
import sys

sys.dont_write_bytecode = True
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
os.environ.setdefault("PYTHONHASHSEED", "0")
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
sys.path.insert(0, REPO)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")


def main():
    pid = sys.argv[1]
    from vlib import harness

    mod = importlib.import_module("checks." + pid.lower())
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        with open(sys.argv[3]) as f:
            return mod.replay(json.load(f))
    import mappyfile

    assert os.path.realpath(mappyfile.__file__).startswith(os.path.realpath(REPO)), mappyfile.__file__
    ctx = harness.Ctx(pid, getattr(mod, "LEVEL", "exploration"))
    mod.run(ctx)
    return ctx.finish()


if __name__ == "__main__":
    sys.exit(main())
