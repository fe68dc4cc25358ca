"""Developer tool: make and confirm a planted bug.   mkseed.py SPEC.py
SPEC.py defines ID, PROP, FILE, EDITS [(old, new)...], DEMO (python text), NEEDS, BREAKS (FILE may be a dict file -> edits)."""
import json, os, subprocess, sys, tempfile, shutil, runpy
s = runpy.run_path(sys.argv[1])
d = "/verif/seeded/" + s["ID"]
w = tempfile.mkdtemp(prefix="seed")
subprocess.check_call(["cp", "-a", "/repo/.", w + "/"])
files = s["FILE"] if isinstance(s["FILE"], dict) else {s["FILE"]: s["EDITS"]}
for f, eds in files.items():
    p = w + "/framework_python/rei/" + f
    t = open(p).read()
    for a, b in eds:
        assert t.count(a) == 1, (f, a, t.count(a))
        t = t.replace(a, b)
    open(p, "w").write(t)
diff = subprocess.check_output(["git", "-C", w, "diff"], text=True)
# original lines only: every removed line occurs in the base version of the file
os.makedirs(d, exist_ok=True)
open(d + "/patch.diff", "w").write(diff)
open(d + "/demo.py", "w").write("import sys\nsys.dont_write_bytecode = True\nsys.path.insert(0, '/repo/framework_python')\n" + s["DEMO"].lstrip())
open(d + "/demo.sh", "w").write('#!/bin/bash\nd=$(cd "$(dirname "$0")" && pwd)\nexec /opt/venv/bin/python "$d/demo.py"\n')
json.dump({"property": s["PROP"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
bad = [l for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
for f in files:
    base = subprocess.check_output(["git", "-C", "/repo", "show", "1432057:framework_python/rei/" + f], text=True).splitlines()
    for l in bad:
        if l[1:].strip() and not any(l[1:] in subprocess.check_output(["git", "-C", "/repo", "show", "1432057:framework_python/rei/" + g], text=True).splitlines() for g in files):
            print("NOT ORIGINAL:", l)
    break
a = subprocess.call(["bash", d + "/demo.sh"], cwd="/repo", stdout=subprocess.DEVNULL)
subprocess.check_call(["git", "-C", "/repo", "apply", d + "/patch.diff"])
try:
    b = subprocess.call(["bash", d + "/demo.sh"], cwd="/repo", stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    bl = subprocess.call(["bash", "/opt/vp/build.sh"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    subprocess.call(["bash", "/opt/vp/test.sh", "/tmp/seed_o.json"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    r = subprocess.run(["python3", "/tmp/chk.py", "/tmp/seed_o.json"], capture_output=True, text=True).stdout
    c = subprocess.run(["python3-vt", "/verif/check.py", s["PROP"]], capture_output=True, text=True)
finally:
    subprocess.check_call(["git", "-C", "/repo", "checkout", "--", "."])
    shutil.rmtree(w)
print(s["ID"], "demo clean:", a, "demo patched:", b, "build:", bl, "tests:", r.strip()[-200:])
print("check rc", c.returncode, "\n".join(c.stdout.splitlines()[-6:])[:1500])
