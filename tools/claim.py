"""claim.py ID < note : sets the note of a claimed property and regenerates MANIFEST.json"""
import json, sys, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, "claims.json")
d = json.load(open(p))
d[sys.argv[1]] = {"note": " ".join(sys.stdin.read().split())}
json.dump(d, open(p, "w"), indent=1)
subprocess.run(["python3", os.path.join(V, "mkmanifest.py")], check=True)
