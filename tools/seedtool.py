"""seedtool.py verify [ID...] | table : confirm planted bugs (apply in /repo, build, test, demo, check, undo)"""
import json, os, subprocess, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("VERIF_REPO", "/repo"); S = V + "/seeded"   # another tree: checks only, no build and tests

def sh(cmd, cwd=R, t=900):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, errors="replace", timeout=t)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"

def clean():
    assert sh("git status --porcelain --untracked-files=no")[1].strip() == "", "repo not clean"

def make(id, prop, edits, demo, srcs, needs, breaks, flags="", san=True):
    clean()
    d = os.path.join(S, id); os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in edits:
            p = os.path.join(R, f); t = open(p, encoding="utf8").read()
            assert t.count(old) == 1, (id, f, t.count(old), old)
            open(p, "w", encoding="utf8").write(t.replace(old, new))
        open(d + "/patch.diff", "w").write(sh("git diff")[1])
    finally:
        sh("git checkout -- .")
    open(d + "/demo.cpp", "w").write(demo)
    s = "-fsanitize=address,undefined -fno-sanitize-recover=all " if san else ""
    open(d + "/demo.sh", "w").write("""#!/bin/bash
# exit 0: the property holds for this input; nonzero: broken.  Run with cwd /repo.
set -e
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
g++ -std=c++17 -O1 -g -w %s-Isrc -Isrc/Engine -Isrc/ChineseNumbers %s"$D/demo.cpp" %s -o "$W/demo" %s
cd "$W"
timeout 60 ./demo
""" % (s, "", " ".join(srcs), flags))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1, ensure_ascii=False)

def verify(id, check=True):
    clean()
    d = os.path.join(S, id)
    prop = json.load(open(d + "/meta.json"))["property"]
    r = {"id": id, "property": prop}
    rc, o = sh("bash %s/demo.sh" % d)
    r["demo_clean"] = rc
    if rc:
        r["err"] = o[-1500:]
    rc, o = sh("git apply %s/patch.diff" % d)
    if rc:
        r["err"] = "apply: " + o; return r
    try:
        r["tests_broken"] = []
        if R == "/repo":
            rc, o = sh("bash /opt/vp/test.sh /tmp/seed_o.json")
            base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            got = set(json.load(open("/tmp/seed_o.json"))["passed"])
            r["tests_broken"] = sorted(base - got)[:4]
        rc, o = sh("bash %s/demo.sh" % d)
        r["demo_patched"] = rc; r["demo_out"] = o[-200:]
        if check:
            rc, o = sh("python3 check.py " + prop, cwd=V)
            r["check"] = rc; r["check_out"] = [l for l in o.splitlines() if "VIOLATION" in l or "failing input" in l or "failed obl" in l or "ERROR" in l][:5]
    finally:
        sh("git apply -R %s/patch.diff" % d)
    clean()
    r["good"] = r["demo_clean"] == 0 and not r["tests_broken"] and r["demo_patched"] != 0
    r["caught"] = r.get("check") == 1
    if r["caught"] and r["good"]:
        f = V + "/tools/caught.json"
        c = json.load(open(f)) if os.path.exists(f) else {}
        c[id] = prop + " " + " + ".join([n for n, t in (("proof", "failed obligation"), ("input", "failing input")) if any(t in l for l in r["check_out"])])
        json.dump(c, open(f, "w"), indent=0, sort_keys=True)
    return r

if __name__ == "__main__":
    ids = sys.argv[2:] or sorted(os.path.basename(x) for x in glob.glob(S + "/*"))
    for i in ids:
        r = verify(i)
        print(i, r["property"], "GOOD" if r["good"] else "BAD", "CAUGHT" if r["caught"] else "MISSED", flush=True)
        if not r["good"] or not r["caught"] or "-v" in os.environ.get("V", ""):
            print(json.dumps(r, indent=1, ensure_ascii=False))
        else:
            for l in r["check_out"]: print("    ", l[:160])
    if R == "/repo": sh("bash /opt/vp/build.sh")
