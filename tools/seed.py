#!/usr/bin/env python3
"""Makes planted bugs from definitions: seed.py DEFS.py [ID...]
A definition is dict(id, property, needs, breaks, edits=[(file, old, new)...], main=rust).
Kept in /verif/seeded/<id> if the patched tree builds, passes the stable tests, and the demonstration
passes without and fails with the patch."""
import json, os, re, shutil, subprocess, sys
W = "/tmp/seedw"
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def fresh():
    if not os.path.isdir(W):
        sh(f"cp -a /repo {W}")
    sh(f"git -C {W} fetch -q /repo HEAD && git -C {W} reset -q --hard FETCH_HEAD && git -C {W} clean -fdq")
def script(name):
    return open(f"/opt/vp/{name}").read().replace("/repo", W)
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
for b in ns["BUGS"]:
    if only and b["id"] not in only: continue
    if not only and os.path.exists(f"/verif/seeded/{b['id']}/meta.json"): continue
    fresh()
    ok = True
    for f, old, new in b["edits"]:
        p = f"{W}/{f}"; s = open(p).read()
        if s.count(old) != 1:
            print(b["id"], "EDIT does not apply:", f, s.count(old)); ok = False; break
        open(p, "w").write(s.replace(old, new))
    if not ok: continue
    diff = sh(f"git -C {W} diff").stdout
    open("/tmp/seed-build.sh", "w").write(script("build.sh")); open("/tmp/seed-test.sh", "w").write(script("test.sh"))
    r = sh("bash /tmp/seed-build.sh")
    if r.returncode: print(b["id"], "does not build\n", r.stdout[-2500:]); continue
    sh("bash /tmp/seed-test.sh /tmp/seed-o.json")
    passed = set(json.load(open("/tmp/seed-o.json"))["passed"])
    if stable - passed: print(b["id"], "TESTS fail:", sorted(stable - passed)[:5]); continue
    d = f"/tmp/seed-{b['id']}"; os.makedirs(d, exist_ok=True)
    shutil.copy("/verif/tools/demo.sh", d); open(f"{d}/main.rs", "w").write(b["main"])
    r1 = sh(f"bash {d}/demo.sh", cwd=W)
    fresh()
    r0 = sh(f"bash {d}/demo.sh", cwd=W)
    if r0.returncode != 0 or r1.returncode in (0, 3):
        print(b["id"], "DEMO clean:", r0.returncode, r0.stdout[-600:], "patched:", r1.returncode, r1.stdout[-600:]); continue
    o = f"/verif/seeded/{b['id']}"; os.makedirs(o, exist_ok=True)
    for n in ("demo.sh", "main.rs"): shutil.copy(f"{d}/{n}", o)
    open(f"{o}/patch.diff", "w").write(diff)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{o}/meta.json", "w"), indent=1)
    print(b["id"], "kept;", r1.stdout.strip().splitlines()[-1:] )
