"""Rewrites the fixed: entries of KNOWN_FINDINGS.txt from the fix commits of /repo."""
import os, subprocess
P = dict(c46892c="B03", f2eccec="B05", **{"36110fa": "B05"}, b5b95b8="B07", **{"369183c": "B06", "4f8d421": "B11", "903c1a3": "B11", "06070ce": "B06"},
         dcf35a5="C01", cb46402="C03", b5b2afe="C02", b676d26="C05", **{"5309572": "C04", "165db54": "C02"}, e75ea48="B11", a377b33="C06",
         **{"1dca582": "C06"}, b196f3e="B02", **{"45439a9": "D10"}, b93607e="D05", **{"05b5fbd": "D05"}, b7b52f5="D05", **{"7b53896": "D06", "162b860": "D06"},
         **{"5ee976e": "A01", "471e701": "A01"}, b669c71="A04", **{"50b3d3d": "A04", "602cd64": "A05", "3065186": "A02"}, e31b9a4="A03",
         **{"3224c8a": "A02"}, d032e1a="A12", **{"43cbc47": "A12"}, d98be45="A13", **{"0b04ed4": "D08", "95eca6f": "D09", "588d769": "A14"},
         c4a7cc9="A14", **{"991abca": "A14", "44f7712": "A14", "3eb45f3": "A07"}, b6ab256="B09", **{"2c75edb": "B09", "20ef132": "B09", "17c9abf": "B09",
         "36aa8ff": "B09", "55cbba2": "B09", "3ec8a16": "B09"}, d5fbb31="B08", **{"3d861e4": "B08"}, e9ba47a="D07", **{"4acb94d": "D07", "7939fdd": "A11", "08563ca": "D04",
         "5dbac02": "D02"}, a8ed887="B11", ae630c0="B05")
P.update({k: v for k, v in [l.split()[:2] for l in open(os.path.join(os.path.dirname(__file__), "fixed_more.txt"))]})
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(here, "KNOWN_FINDINGS.txt")
old = [l for l in open(path) if not l.startswith("fixed:")] if os.path.exists(path) else []
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "215bdb7.."]).decode().splitlines()
with open(path, "w") as f:
    f.writelines(old)
    for l in log:
        h, s = l.split(" ", 1)
        if s.startswith("fix: "):
            f.write(f"fixed: property={P[h]} {h} {s[5:]}\n")
