#!/usr/bin/env python3
"""mkseed.py <id> : finishes /verif/seeded/<id> (patch.diff, demo.cpp, meta.json with "nodes" written by hand) with a
self-contained demo.sh + simros.tgz and confirms it: applies, builds, stable tests pass, demo 0 without / nonzero with it,
then runs the property's check with the patch applied and reports whether it is caught."""
import json, os, subprocess, sys, tarfile, time
V = "/verif"
def sh(cmd, cwd="/repo", t=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
DEMO = '''#!/bin/bash
# Builds the changed node of the repository in the current directory against the bundled ROS replacement
# and runs one scripted scenario (demo.cpp). Everything happens in a temporary directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 9
trap 'rm -rf -- "$tmp"' EXIT
tar xzf "$here/simros.tgz" -C "$tmp" || exit 9
mkdir -p "$tmp/harness" "$tmp/build"
cp "$here/demo.cpp" "$tmp/harness/demo.cpp"
cat > "$tmp/tools/harness_table.py" <<'X'
@TABLE@
X
SIMROS_REPO="$repo" SIMROS_BUILD="$tmp/build" python3 "$tmp/tools/build.py" demo > "$tmp/build.log" 2>&1 || { tail -30 "$tmp/build.log"; exit 8; }
cd "$tmp"
"$tmp/build/bin/demo" run --prop DEMO --scenario demo --seed 1 --plain > "$tmp/out.txt" 2>&1
rc=$?
grep -v '^\\[\\|^probe' "$tmp/out.txt" | head -20
exit $rc
'''
def main():
    i = sys.argv[1]
    nocheck = "--nocheck" in sys.argv
    d = V + "/seeded/" + i
    meta = json.load(open(d + "/meta.json"))
    nodes = meta.get("nodes", [])
    if not os.path.exists(d + "/demo.sh") or "--repack" in sys.argv:
        g = {}
        exec(open(V + "/tools/harness_table.py").read(), g)
        table = "LINK_EXTRA = %r\nHARNESS = {\"demo\": ([\"demo.cpp\"], %r, %r)}" % (g["LINK_EXTRA"], nodes, meta.get("extra", ""))
        open(d + "/demo.sh", "w").write(DEMO.replace("@TABLE@", table))
        os.chmod(d + "/demo.sh", 0o755)
        with tarfile.open(d + "/simros.tgz", "w:gz") as t:
            for p in ["simros", "tools/build.py"] + ["harness/" + f for f in os.listdir(V + "/harness") if f.endswith(".h")]:
                t.add(V + "/" + p, arcname=p, filter=lambda x: None if "__pycache__" in x.name else x)
    assert sh("git status --porcelain").stdout.strip() == "", "repo dirty"
    res = {}
    r = sh("bash %s/demo.sh" % d); res["demo_clean"] = r.returncode
    if r.returncode: print(r.stdout[-3000:])
    r = sh("git apply %s/patch.diff" % d)
    if r.returncode: print("PATCH DOES NOT APPLY", r.stdout); return 1
    try:
        r = sh("bash /opt/vp/test.sh /tmp/seedtest.json")
        j = json.load(open("/tmp/seedtest.json")); b = json.load(open("/opt/vp/BASELINE.json"))
        stable = b.get("stable_pass") or b.get("passed") or b.get("stable") or []
        res["tests"] = "%d passed, missing %s" % (len(j["passed"]), [x for x in stable if x not in j["passed"]])
        r = sh("bash %s/demo.sh" % d); res["demo_bug"] = r.returncode; res["demo_says"] = r.stdout[:400]
        if not nocheck:
            for p in [meta["property"]] + meta.get("also", []):
                t = time.time()
                r = sh("VERIF_SEED=1 VERIF_TIER=quick python3 tools/check.py " + p, cwd=V, t=1000)
                res["check_" + p] = (r.returncode, round(time.time() - t), [l for l in r.stdout.splitlines() if l.startswith(("violation", "VIOLATION"))][:3], r.stdout[-800:] if r.returncode not in (0, 1) else "")
    finally:
        sh("git checkout -- .")
    sh("bash /opt/vp/build.sh")
    for k, v in res.items(): print(k, v)
    return 0
sys.exit(main())
