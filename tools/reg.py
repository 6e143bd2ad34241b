"""python3 tools/reg.py ID=driver ...: add to the registry and regenerate MANIFEST.json."""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "registry.json")
r = json.load(open(p))
for a in sys.argv[1:]:
    k, v = a.split("=")
    r[k] = v
json.dump(r, open(p, "w"))
os.system("python3 " + os.path.join(os.path.dirname(os.path.abspath(__file__)), "props.py"))
