#!/usr/bin/env python3
"""seed.py new <id> <property>: makes seeded/<id> from the diff of a scratch copy of /repo (/tmp/sr) and a demo.
   seed.py kit: refreshes the copies of runtime and stand-ins.   seed.py demo <id>: runs the demo both ways in /tmp/sr."""
import json, os, shutil, subprocess, sys
V = "/verif"
def kit(d):
    k = os.path.join(d, "kit")
    shutil.rmtree(k, ignore_errors=True)
    os.makedirs(k)
    for x in ("rt", "standin", "shadow"):
        shutil.copytree(os.path.join(V, x), os.path.join(k, x))
    for x in ("build.sh", "d.h"):
        shutil.copy(os.path.join(V, "tools/kit", x), k)
    shutil.copy(os.path.join(V, "tools/kit/demo.sh"), d)
def sh(c, **kw):
    return subprocess.run(c, shell=True, text=True, **kw)
def fresh():
    shutil.rmtree("/tmp/sr", ignore_errors=True)
    sh("git clone -q /repo /tmp/sr && cp -a /repo/third_party/. /tmp/sr/third_party/", check=True)
def demo(i):
    d = f"{V}/seeded/{i}"
    ok = True
    if not os.path.isdir("/tmp/sr"):
        fresh()
    sh("git -C /tmp/sr checkout -q -- .", check=True)
    a = sh(f"cd /tmp/sr && bash {d}/demo.sh", capture_output=True)
    sh(f"git -C /tmp/sr apply {d}/patch.diff", check=True)
    b = sh(f"cd /tmp/sr && bash {d}/demo.sh", capture_output=True)
    sh("git -C /tmp/sr checkout -q -- .", check=True)
    print(i, "clean:", a.returncode, a.stderr.strip()[-200:], "| patched:", b.returncode, b.stderr.strip()[-300:])
    return a.returncode == 0 and b.returncode not in (0, 3)
if sys.argv[1] == "fresh":
    fresh()
elif sys.argv[1] == "kit":
    for i in sorted(os.listdir(f"{V}/seeded")):
        kit(f"{V}/seeded/{i}")
elif sys.argv[1] == "demo":
    r = [demo(i) for i in (sys.argv[2:] or sorted(os.listdir(f"{V}/seeded")))]
    sys.exit(0 if all(r) else 1)
elif sys.argv[1] == "new":
    i, prop, needs, breaks = sys.argv[2:6]
    d = f"{V}/seeded/{i}"
    os.makedirs(d, exist_ok=True)
    p = sh("git -C /tmp/sr diff", capture_output=True).stdout
    assert p.strip()
    open(f"{d}/patch.diff", "w").write(p)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
    kit(d)
    sh("git -C /tmp/sr checkout -q -- .")
