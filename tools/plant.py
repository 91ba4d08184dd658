"""plant.py ID PROPERTY FILE <<< json {"edits": [[file, old, new], ...],
"needs":..., "what":..., "demo": python source}   -> seeded/ID/"""
import json
import pathlib
import subprocess
import sys

SRC = "/repo/src/oemof/solph/"
SH = """#!/bin/bash
# exit 0: behaves as documented; otherwise broken
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
"""


def git(*a):
    return subprocess.run(["git", "-C", "/repo", *a], check=True,
                          capture_output=True, text=True).stdout


def plant(name, prop, edits, needs, what, demo):
    assert not git("status", "--porcelain").strip()
    try:
        for file, old, new in edits:
            p = pathlib.Path(SRC + file)
            s = p.read_text()
            assert s.count(old) == 1, (name, file, s.count(old), old)
            p.write_text(s.replace(old, new))
        diff = git("diff")
    finally:
        git("checkout", "--", ".")
    d = pathlib.Path("/verif/seeded") / name
    d.mkdir(parents=True, exist_ok=True)
    (d / "patch.diff").write_text(diff)
    (d / "demo.sh").write_text(SH)
    (d / "demo.sh").chmod(0o755)
    (d / "demo.py").write_text(demo)
    (d / "meta.json").write_text(json.dumps(
        {"property": prop, "needs": needs, "what_it_breaks": what},
        indent=1) + "\n")
    return d


if __name__ == "__main__":
    for f in sys.argv[1:]:
        ns = {}
        exec(pathlib.Path(f).read_text(), ns)
        for b in ns["BUGS"]:
            plant(*b)
            print("planted", b[0])
