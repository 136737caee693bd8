#!/usr/bin/env python3
"""Writes /verif/known-findings.json: the repairs in /repo, and the defects that are recorded, not repaired."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {"1957a31": "C27", "61ef005": "C27", "ec3ffe0": "C27",
        "4e9010b": "C02", "2f974e2": "C03", "f303767": "C04", "ce37ab9": "C02", "4703a33": "C07", "8ee548a": "C07", "4f26eb2": "C05",
        "79b1a29": "C05", "9d08335": "C06", "2945246": "C06", "4efd3be": "C06", "9f4688d": "C25", "412b16a": "C25", "b515091": "C17",
        "a6abb35": "C17", "eda72fb": "C10", "c8b7df6": "C12", "60cd85e": "C13", "969a1fd": "C13", "9404f9d": "C08", "61710e6": "C26",
        "b56013b": "C23", "77d9138": "C23", "e2791ad": "C19", "3cda125": "C18", "b76b6ee": "C23", "7589e2e": "C21", "c14458f": "C22",
        "da45e34": "C21", "81761fe": "C14", "c3e40e9": "C06", "c20ec93": "C05", "83d09ee": "C09", "19724fb": "C10", "edeccf7": "C10", "0569ac3": "C12", "257b334": "C17",
        "988045a": "C25", "f32ec87": "C25",
        "3bd152b": "C20", "b48996d": "C18", "265ae65": "C22", "a96e66c": "C23", "5394f6c": "C23", "d3c7b26": "C23", "757ad50": "C28",
        "70644df": "C12", "4fcbd37": "C17", "5e908c4": "C29"}
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "9030dff..HEAD"], stdout=subprocess.PIPE, text=True, check=True).stdout
fixed = []
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        fixed.append("fixed: property=%s %s %s" % (PROP[h], h, s[5:]))
findings = []
HOLES = ("21 22 23 26 30 37 41 42 43 45 53 58 69 73 74 75 81 82 83 84 85 86 87 88 89 90 91 92 93 94 95 97 101 104 105 106 107 109 117 120 121 "
         "123 125 133 134 135 138 142 146 148 149 150 151 154 158 161 162 163 164 165 166 167 168 169 170 171 172 173 174 175 182 183 186 190 "
         "197 202 210 212 213 215 218 225 229 232 234 235")
def filled(c): return " ".join("g%d" % i for i in range(8) if c >> i & 1)
for c in map(int, HOLES.split()):
    findings.append({"property": "C14", "key": c, "why": "no surface",
                     "what": "ManifoldMesh makes no triangles in a cell of configuration %d (filled: %s): the surface has a hole there" % (c, filled(c))})
for f in "56 x-,60 x-,60 x+,61 x+,62 x-,124 x-,188 x+,203 x+,211 x+,227 x-".split(","):
    c = int(f.split()[0])
    findings.append({"property": "C14", "key": f, "why": "the surface joins the filled corners of a face in another way than the neighboring cells do",
                     "what": "ManifoldMesh: the surface in a cell of configuration %d (filled: %s) does not fit to that of most neighbors on its %s side, where two opposite corners are filled" % (c, filled(c), f.split()[1])})
with open(os.path.join(V, "known-findings.json"), "w") as f:
    json.dump({"findings": findings, "fixed": fixed}, f, indent=1); f.write("\n")
print(len(findings), "findings,", len(fixed), "fixed")
