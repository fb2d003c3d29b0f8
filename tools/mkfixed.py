"""Rewrites the "fixed" entries of known_findings.json from the fix commits of /repo: one per commit, with the property that showed it."""
import json
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ACV_REPO", "/repo")
BY = {
    "P02": "22e5529 123de49 51e233a 8a0ab62 1ad70d0 a86a845 c2f247e 35111e7 a1cbd33 47d2618 a3e0888 7fb3f03 f68d8ba a7c4a97 696f9a4 b5be125 ff72f40",
    "P03": "3d040fe 46a17ec 30f8e64 e7f53c1",
    "P04": "5ebd427",
    "P05": "2528fc8 bb10ab5",
    "P06": "fa3c283",
    "P07": "7c58c3f 7ccb7fb",
    "P08": "9a1c838 0bbc67d",
    "P09": "e3d6ffd",
    "P10": "6588be0 8dfd65c",
    "P11": "4a4ef9c",
    "P12": "2ff8479 496b518 133923e 575c10d fb30298 be98c7c c8cf8ca 119e03e d88c362 c0e4b65 e9db6e6 eef57f5 b4404fe 220af03 89f6f16",
    "P13": "10f364a c01ba4a 5ef3e25 dbe2732 85557ad bbc762f 5afa49e 217bbc2 14dcc92",
    "P14": "69995fd",
    "P15": "058277f",
    "P16": "b1e313b babddbb e6984f9 6a71505 7882b2c",
    "P17": "53f0ad4 d185d5d",
    "P18": "9aa5f15 1d647a4",
    "P19": "167ea7f 523b337",
    "P20": "07e197c",
    "P21": "aad84ac",
    "P22": "d0643bd",
}
own = {c: p for p, cs in BY.items() for c in cs.split()}
log = subprocess.run(["git", "-C", REPO, "log", "--reverse", "--abbrev=7", "--format=%h %s", "50a8839..HEAD"], capture_output=True, text=True).stdout
fixed = []
for line in log.splitlines():
    h, s = line.split(" ", 1)
    if not s.startswith("fix: "):
        sys.exit(f"not a fix commit: {line}")
    fixed.append(f"fixed: property={own.get(h[:7], 'P01')} {h} {s[5:]}")
f = os.path.join(V, "known_findings.json")
d = json.load(open(f))
d["fixed"] = fixed
json.dump(d, open(f, "w"), indent=1)
open(f, "a").write("\n")
