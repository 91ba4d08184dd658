#!/opt/venv/bin/python
"""check.py ID [quick|thorough] [--replay FILE]"""
import argparse
import importlib
import os
import sys

os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.environ.get("VF_REPO", "/repo"), "src"))
for p in ("/opt/venv/bin",):
    if p not in os.environ.get("PATH", ""):
        os.environ["PATH"] = p + ":" + os.environ.get("PATH", "/usr/bin")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("tier", nargs="?",
                    default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--seed", type=int,
                    default=int(os.environ.get("VERIF_SEED", "1")))
    a = ap.parse_args()
    from vf import common
    try:
        mod = importlib.import_module(f"vf.props.{a.id.lower()}")
    except Exception as e:  # noqa: BLE001
        if common.from_real_code(e):
            path = common.write_replay(a.id, {"property": a.id,
                                              "import": repr(e)})
            print(f"VIOLATION property={a.id} replay={path}")
            print(f"   importing the package failed: {e!r}")
            return 1
        raise
    import oemof.solph
    src = os.path.join(os.environ.get("VF_REPO", "/repo"), "src")
    assert oemof.solph.__file__.startswith(src), oemof.solph.__file__
    if a.replay:
        return common.replay(mod, a.id, a.replay)
    return common.main(mod, a.id, a.tier, a.seed)


if __name__ == "__main__":
    sys.exit(main())
