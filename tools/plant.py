#!/usr/bin/env python3
"""Writes planted bugs into seeded/ from a description file and confirms each one.

usage: plant.py FILE.py [ID...]    FILE.py defines BUGS = [dict(id, prop, needs, breaks, edits, kind, demo, flags)]
       plant.py --check ID...      runs the property's quick check against planted bugs (in scratch copies)
A development tool; no check uses it or reads seeded/.
"""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(V, "seeded")
HDR = '''#!/bin/bash
# exit 0 when the property holds on this demonstration, 1 when it is broken
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O1 -w %s -I"$PWD/include" "$D/demo.cc" -o "$T/demo" || exit 3
cd "$T" && timeout 60 ./demo
'''
FULL = '''#!/bin/bash
# exit 0 when the property holds on this demonstration, 1 when it is broken
# (builds the library over the stand-in for the VAL parser that lies beside this script)
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
ls "$R"/src/*.cc "$R"/src/planning/*.cc "$R"/src/utils/*.cc "$D"/shim/*.cc "$D"/demo.cc |
  xargs -P 8 -I{} sh -c 'g++ -std=c++17 -O0 -w %s -DDOCTEST_CONFIG_DISABLE -I"$1/include" -I"$1/src" -I"$2/shim" -I/usr/include/eigen3 -c "$0" -o "$3/$(basename "$0").o"' {} "$R" "$D" "$T" || exit 3
g++ %s "$T"/*.o -o "$T/demo" || exit 3
cd "$T" && timeout 60 ./demo
'''
PY = '''#!/bin/bash
# exit 0 when the property holds on this demonstration, 1 when it is broken
D=$(cd "$(dirname "$0")" && pwd)
PYTHONDONTWRITEBYTECODE=1 timeout 60 python3 "$D/demo.py" "$PWD/symbolic/problem.py"
'''
PYHEAD = '''import importlib.util
import sys
spec = importlib.util.spec_from_file_location("problem", sys.argv[1])
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)
'''

def sh(cmd, cwd=None, timeout=600, env=None):
    p = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
    return p.returncode, p.stdout.decode(errors="replace")

def tests_pass():
    out = tempfile.mktemp(suffix=".json")
    rc, log = sh("bash /opt/vp/test.sh " + out)
    r = json.load(open(out)); os.unlink(out)
    base = json.load(open("/opt/vp/BASELINE.json"))
    want = base["stable"]
    return len(want) > 0 and set(want) <= set(r["passed"]), log

def plant(b):
    d = os.path.join(SEED, b["id"])
    assert sh("git -C /repo status --porcelain")[1] == "", "repo not clean"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    head = b.get("demo_head", "")
    if b["kind"] == "py":
        open(d + "/demo.py", "w").write(PYHEAD + b["demo"])
        open(d + "/demo.sh", "w").write(PY)
    else:
        open(d + "/demo.cc", "w").write(head + b["demo"])
        f = b.get("flags", "")
        open(d + "/demo.sh", "w").write(HDR % f if b["kind"] == "hdr" else FULL % (f, f))
        if b["kind"] == "full":
            shutil.copytree(os.path.join(V, "shim"), d + "/shim")
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
    rc0, l0 = sh(["bash", d + "/demo.sh"], cwd="/repo")
    try:
        for f, old, new in b["edits"]:
            p = os.path.join("/repo", f); s = open(p).read()
            # Blank lines may be left out of the description.
            rx = re.escape(old).replace("\\\n", r"\n(?:[ \t]*\n)*")
            n = len(re.findall(rx, s))
            if n != 1:
                return "edit matches %d times in %s: %r" % (n, f, old)
            open(p, "w").write(re.sub(rx, lambda m: new, s))
        open(d + "/patch.diff", "w").write(sh("git -C /repo diff")[1])
        ok, log = tests_pass()
        rc1, l1 = sh(["bash", d + "/demo.sh"], cwd="/repo")
    finally:
        sh("git -C /repo checkout -- .")
    if not ok:
        return "tests or build fail\n" + log[-1500:]
    if rc0 != 0:
        return "demo fails on the unchanged tree (%d)\n%s" % (rc0, l0[-1500:])
    if rc1 == 0 or rc1 == 3:
        return "demo rc %d with the bug\n%s" % (rc1, l1[-1500:])
    return None

def check(i):
    d = os.path.join(SEED, i)
    prop = json.load(open(d + "/meta.json"))["property"]
    w = tempfile.mkdtemp(prefix="plant-")
    try:
        sh("git -C /repo archive HEAD | tar -x -C " + w)
        rc, out = sh(["git", "apply", "--unsafe-paths", "--directory=" + w, d + "/patch.diff"], cwd="/")
        if rc:
            rc, out = sh("patch -p1 -d %s < %s/patch.diff" % (w, d))
        assert rc == 0, out
        rc, out = sh(["python3", os.path.join(V, "tools/check.py"), prop], env=dict(os.environ, VERIF_REPO=w), timeout=1200)
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return prop, rc, out

if __name__ == "__main__":
    if sys.argv[1] == "--check":
        for i in sys.argv[2:] or sorted(os.listdir(SEED)):
            prop, rc, out = check(i)
            print("%-40s %s rc=%d  %s" % (i, prop, rc, "" if rc == 1 else "MISSED" if rc == 0 else "NO ANSWER"), flush=True)
            if rc == 2:
                print(out[-1500:])
        sys.exit(0)
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    for b in ns["BUGS"]:
        if sys.argv[2:] and b["id"] not in sys.argv[2:]:
            continue
        e = plant(b)
        print(b["id"], "OK" if e is None else "BAD: " + e, flush=True)
        if e is not None:
            shutil.rmtree(os.path.join(SEED, b["id"]), ignore_errors=True)
