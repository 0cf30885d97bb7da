"""build /verif/seeded/<id> from a description file and confirm it in a scratch copy

usage: mkseed.py DESC.py   (ID, FILE, EDITS=[(old,new)], PROPERTY, NEEDS, BREAKS, DEMO)
"""
import json, os, runpy, shutil, subprocess, sys
D = runpy.run_path(sys.argv[1])
tests = "--notests" not in sys.argv
sid = D["ID"]
scratch = f"/tmp/seedrepo_{sid}"
subprocess.run(["rm", "-rf", scratch])
subprocess.run(["cp", "-a", "/repo", scratch], check=True)
files = D["FILES"] if "FILES" in D else {D["FILE"]: D["EDITS"]}
for f, eds in files.items():
    p = os.path.join(scratch, f)
    s = open(p).read()
    for old, new, *nth in eds:
        assert s.count(old) == 1 or nth, (f, s.count(old), old)
        i = -1
        for _ in range(nth[0] if nth else 1):
            i = s.index(old, i + 1)
        s = s[:i] + new + s[i + len(old):]
    open(p, "w").write(s)
out = f"/verif/seeded/{sid}"
os.makedirs(out, exist_ok=True)
diff = subprocess.run(["git", "-C", scratch, "diff"], capture_output=True, text=True).stdout
open(out + "/patch.diff", "w").write(diff)
# only original lines may be changed
base = {l.rstrip("\n") for f in files for l in subprocess.run(["git", "-C", "/repo", "show", f"098b333:{f}"], capture_output=True, text=True).stdout.splitlines()}
rem = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
print("removed lines not in the original:", [l for l in rem if l not in base], "removed:", len(rem))
open(out + "/demo.py", "w").write("import os\nimport sys\n\nsys.path.insert(0, os.getcwd())\nsys.dont_write_bytecode = True\n" + D["DEMO"].lstrip("\n"))
open(out + "/demo.sh", "w").write('#!/bin/bash\nexport HOME=/root MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
os.chmod(out + "/demo.sh", 0o755)
json.dump({"property": D["PROPERTY"], "needs": D["NEEDS"], "what_it_breaks": D["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
for name, cwd in (("clean", "/repo"), ("patched", scratch)):
    r = subprocess.run(["bash", out + "/demo.sh"], cwd=cwd, capture_output=True, text=True)
    print(sid, name, "exit", r.returncode, (r.stdout + r.stderr)[-300:].strip())
if tests:
    env = {**os.environ, "HOME": "/root", "PYTHONPATH": scratch, "MPLBACKEND": "Agg", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "TZ": "UTC", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1"}
    r = subprocess.run(["timeout", "800", "/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--tb=line", "tests"], cwd=scratch, env=env, capture_output=True, text=True)
    print(sid, "\n".join(l[:160] for l in r.stdout.splitlines() if l.startswith(("FAILED", "ERROR")) or " passed" in l))
subprocess.run(["rm", "-rf", scratch])
