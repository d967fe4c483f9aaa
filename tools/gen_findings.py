"""Write known_findings.jsonl from the fix: commits of /repo."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = {
    "narrow integer types": "C13", "unsigned integer coordinates": "C27", "narrow integer longitudes": "C23", "unsigned integers": "C15", "vnorm overflow": "C27", "could not be pickled": "C31",
    "released twice when": "C02",
    "not fitting into memory": "C02",
    "no order or unsorted epochs": "C01", "true length of the coefficients": "C01", "rounded to the year 2101": "C01",
 "zero degree Legendre": "C07", "sheval did not check": "C28", "non-contiguous last": "C04",
 "scale_gradient array": "C28", "min_degree2 exceeding": "C12", "crashed on an invalid coefficient set": "C28",
 "memory leak": "C02", "integer overflow": "C01", "invalid coefficient degree and order": "C01",
 "too short time-series": "C01", "shared by multiple": "C11", "eastward field": "C08",
 "unsupported time terminated": "C01", "day of year": "C25", "unreadable QD": "C28",
 "too large degree": "C01", "huge, non-finite and ancient": "C21", "boolean option": "C28",
 "more dimensions than coordinates": "C15", "mixed time scales": "C15", "coefficients indices": "C28",
 "invalid degree and order of the coefficients": "C28", "overlapping and unsorted": "C14",
 "infinite recursion": "C14", "spline order of the SHC": "C17", "minimum degree of the MIO": "C18",
 "rejected valid combinations": "C18", "more dimensions than locations": "C16", "more than 16": "C11",
 "incompatible EMM": "C28", "blank lines": "C17", "Cartesian to spherical": "C05", "NaN solar zenith": "C22", "high degree models in": "C07",
    "reject invalid requests": "C28", "reject unsupported": "C28", "reject invalid coordinates": "C28",
    "SHC file with one time": "C28", "different decimal year conversions": "C15", "MIO coefficients of inconsistent": "C28",
}
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True)
rows = []
for line in log.splitlines():
    commit, subject = line.split(" ", 1)
    if not subject.startswith("fix:"):
        continue
    keys = [k for k in PROPS if k in subject]
    assert len(keys) >= 1, subject
    prop = PROPS[max(keys, key=len)]
    what = subject[5:]
    rows.append({"property": prop, "status": "fixed", "commit": commit, "what": what,
                 "line": f"fixed: property={prop} {commit} {what}"})
extra = os.path.join(HERE, "tools", "known_open.jsonl")
with open(os.path.join(HERE, "known_findings.jsonl"), "w") as out:
    for row in rows:
        out.write(json.dumps(row) + "\n")
    if os.path.exists(extra):
        out.write(open(extra).read())
print(len(rows))
