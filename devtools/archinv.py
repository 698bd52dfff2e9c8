"""regenerate sa/data/arch_inventory.json from the (reviewed) definitions in the repository"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import archdata
from sa.project import Project

p = Project()
out = {}
for f, path in archdata.files(p):
    d, _, err = archdata.load(path)
    assert err is None
    for a in d["architectures"]:
        out[f"{a}|{d['model_type']}"] = archdata.inventory(d)
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "sa/data/arch_inventory.json"), "w") as fd:
    json.dump(out, fd, indent=0, sort_keys=True)
print(len(out))
