"""trial.py ID...: apply each seeded change to /repo, run its demonstration,
the test suite and the property's quick check, undo it again."""
import json
import os
import pathlib
import subprocess
import sys

ENV = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick",
           PYTHONHASHSEED="0")


def run(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def demo(d):
    return run(["bash", str(d / "demo.sh")], cwd="/repo", timeout=300)


def tests():
    run(["bash", "/opt/vp/test.sh", "/tmp/trial.json"])
    base = json.load(open("/opt/vp/BASELINE.json"))
    got = json.load(open("/tmp/trial.json"))

    def names(x):
        for k in ("stable", "passed"):
            if k in x:
                return set(x[k])
        raise KeyError(list(x))
    return sorted(names(base) - names(got))


def main(ids):
    opts = {a for a in ids if a.startswith("-")}
    root = pathlib.Path("/verif/seeded")
    ids = [i for i in ids if i not in opts] or sorted(
        p.name for p in root.iterdir())
    for i in ids:
        d = root / i
        prop = json.loads((d / "meta.json").read_text())["property"]
        line = [i, prop]
        if not run(["git", "-C", "/repo", "status", "--porcelain"
                    ]).stdout.strip() == "":
            raise SystemExit("dirty repo")
        c = demo(d)
        line.append(f"clean={c.returncode}")
        if c.returncode:
            print(c.stdout[-500:], c.stderr[-1500:])
        run(["git", "-C", "/repo", "apply", str(d / "patch.diff")],
            check=True)
        try:
            c = demo(d)
            line.append(f"bug={c.returncode}")
            if "-v" in opts:
                print(c.stdout[-300:], c.stderr[-600:])
            if "-t" not in opts:
                lost = tests()
                line.append(f"lost={len(lost)}{lost[:2]}")
            if "-c" not in opts:
                c = run([sys.executable, "check.py", prop, "quick"],
                        cwd="/verif", env=ENV)
                hit = [x for x in c.stdout.splitlines()
                       if x.startswith("VIOLATION")]
                line.append(f"check={c.returncode} {hit[:1]}")
                if c.returncode not in (0, 1):
                    print(c.stdout[-800:], c.stderr[-800:])
        finally:
            run(["git", "-C", "/repo", "checkout", "--", "."])
        print(*line, flush=True)


if __name__ == "__main__":
    main(sys.argv[1:])
