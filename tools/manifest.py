"""Writes /verif/MANIFEST.json from properties.jsonl and the checks present."""
import ast, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
mods = {}
for f in sorted(os.listdir(V + "/checks")):
    m = re.match(r"(c\d+)_.*\.py$", f)
    if m:
        src = ast.parse(open(V + "/checks/" + f).read())
        d = {}
        for n in src.body:
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
                try:
                    d[n.targets[0].id] = ast.literal_eval(n.value)
                except Exception:
                    pass
        mods[m.group(1).upper()] = d
TECH = "bounded exhaustive exploration of operation sequences on the real code against a reference model"
NOTE = ("Every trace within the bounds written in the evidence file is executed on the real code and compared "
        "with the reference model; nothing is said about inputs outside the enumerated alphabet. "
        "Trusted: numpy, h5py, zarr, dask, the operating system and the harness's model.")
checks, na = [], []
for p in props:
    i = p["id"]
    if i in mods:
        d = mods[i]
        checks.append(dict(property=i, quick_cmd="./check.sh %s --tier quick" % i,
                           thorough_cmd="./check.sh %s --tier thorough" % i,
                           technique=d.get("TECHNIQUE", TECH), level=d.get("LEVEL", "model_checking"),
                           level_note=d.get("LEVEL_NOTE", NOTE)))
    else:
        na.append(dict(property=i, reason=NA[i] if (NA := {}).get(i) else "no check yet"))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
               notes="See DESIGN.md. No hooks are needed: all checks drive the public API of the working tree in /repo."),
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
