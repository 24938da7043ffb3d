#!/opt/vp/venv/bin/python
"""replay.py FILE: runs one replay file (written by a check) against /repo's tree; exit 1 while it still fails."""
import importlib, json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness"))
import vrun, vbuild
r = json.load(open(sys.argv[1]))
mod = importlib.import_module("props." + r["property"].lower())
part = {p.name: p for p in mod.PARTS}[r["part"]]
ctx = vrun.Ctx(vbuild.build(), part)
n = int(sys.argv[2]) if len(sys.argv) > 2 else 1
fails = []
for _ in range(n):
    fails = vrun.guarded(part, r["desc"], ctx)
    if fails:
        break
ctx.close()
for f in fails:
    print(f)
sys.exit(1 if fails else 0)
