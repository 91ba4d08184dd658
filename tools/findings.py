"""Source of known_findings.json: python3 tools/findings.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = [  # (property, probe, what fails)
]
FIXED = [
    ("C05", "4a1fef5", "offset of the OffsetConverter helpers was wrong for "
     "max_load other than 1"),
    ("C28", "0438051", "sequence lengths compared by identity: wrong lengths "
     "above 256 raised for correct input"),
    ("C13", "2c95a8a", "minimum up-/downtime ignored for a switch at the "
     "first flexible timestep"),
    ("C13", "3023d5d", "initial status not fixed for flows with optimised "
     "capacity; KeyError for horizons shorter than the minimum time"),
    ("C12", "8733523", "gradient limits of nonconvex flows were quadratic / "
     "not enforced"),
    ("C07", "75a7243", "H_L_FG_share_min of GenericCHP ignored"),
    ("C14", "004df75", "existing capacity ignored for nonconvex flows with "
     "investment"),
    ("C10", "1a72216", "minimum profile of investment flows dropped when its "
     "first entry was zero"),
    ("C11", "c6b4726", "minimum storage level given only for the last point "
     "in time ignored for optimised sizes"),
]


def main():
    try:
        from findings_more import FINDINGS as a, FIXED as b
        FINDINGS.extend(a)
        FIXED.extend(b)
    except ImportError:
        pass
    with open(os.path.join(HERE, "known_findings.json"), "w") as f:
        json.dump({
            "findings": [{"property": p, "probe": n, "what": w}
                         for p, n, w in FINDINGS],
            "fixed": [f"fixed: property={p} {c} {w}" for p, c, w in FIXED],
        }, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
