"""Confirm a planted bug in a scratch copy and store it under seeded/.

plant.py SPEC.py: SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python source run by demo.sh). With NATIVE = True a copy
of native/ goes to engine/ next to the demo, which can `from engine_demo import ...`.
"""
import json
import os
import shutil
import subprocess
import sys

spec = {}
exec(open(sys.argv[1]).read(), spec)
run_tests = "--notest" not in sys.argv
root = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded", spec["ID"])
R = os.environ.get("PLANT_REPO", "/repo")


def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


assert sh("git", "-C", R, "status", "--porcelain").stdout == "", "/repo is not clean"
os.makedirs(root, exist_ok=True)
with open(os.path.join(root, "demo.py"), "w") as f:
    f.write(spec["DEMO"].lstrip("\n"))
for name, content in spec.get("FILES", {}).items():
    with open(os.path.join(root, name), "w") as f:
        f.write(content)
if spec.get("NATIVE"):
    native = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "native")
    shutil.copytree(native, os.path.join(root, "engine"), ignore=shutil.ignore_patterns("__pycache__"), dirs_exist_ok=True)
    shutil.copy(os.path.join(os.path.dirname(os.path.abspath(__file__)), "engine_demo.py"), root)
with open(os.path.join(root, "demo.sh"), "w") as f:
    f.write(
        spec.get("DEMO_SH")
        or '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src/python"\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
    )
with open(os.path.join(root, "meta.json"), "w") as f:
    json.dump({"property": spec["PROPERTY"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]}, f, indent=1)
    f.write("\n")
ok = True
try:
    r = sh("bash", os.path.join(root, "demo.sh"), cwd=R)
    print("demo unchanged:", r.returncode)
    if r.returncode != 0:
        print(r.stdout[-2000:])
        ok = False
    for path, old, new in spec["EDITS"]:
        p = os.path.join(R, path)
        s = open(p).read()
        assert s.count(old) == 1, (path, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    d = sh("git", "-C", R, "diff").stdout
    with open(os.path.join(root, "patch.diff"), "w") as f:
        f.write(d)
    # removed lines must come from the original tree
    r = sh("bash", "/opt/vp/build.sh")
    print("build:", r.returncode)
    ok &= r.returncode == 0
    r = sh("bash", os.path.join(root, "demo.sh"), cwd=R)
    print("demo with the bug:", r.returncode, r.stdout.strip().splitlines()[-1:] )
    ok &= r.returncode != 0
    if run_tests:
        r = sh("bash", "/opt/vp/test.sh", "/tmp/plant-out.json")
        print("tests:", r.stdout.strip().splitlines()[-1:])
        ok &= "80 passed" in r.stdout
    if "--check" in sys.argv:
        c = os.path.join(os.path.dirname(root), "..", "checks", spec["PROPERTY"].lower() + ".py")
        r = subprocess.run(["/opt/venv/bin/python", c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, VERIF_SEED="1", PYTHONHASHSEED="0"))
        print("check:", r.returncode, *r.stdout.strip().splitlines()[-3:], sep="\n   ")
finally:
    sh("git", "-C", R, "checkout", "--", ".")
print("OK" if ok else "REJECTED")
if not ok and "--keep" not in sys.argv:
    shutil.rmtree(root)
