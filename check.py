#!/usr/bin/env python3
"""check.py PROPERTY : decide one property on /repo's current working tree.

1. every function under contract is extracted mechanically from the current source and the
   verifier (Verus/Z3) is asked for every obligation;
2. when an obligation fails, the replay engine looks for a concrete failing input on the
   real, compiled code;
3. functions the extraction or the verifier cannot take are covered by a bounded check of
   the compiled code (labelled bounded, never counted as proved)."""
import concurrent.futures as cf
import glob, hashlib, json, os, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import vrun
from checks import CHECKS
from cxxast import REPO

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1",
           UBSAN_OPTIONS="print_stacktrace=0")
FCITX = ["/usr/include/Fcitx5/Core", "/usr/include/Fcitx5/Config", "/usr/include/Fcitx5/Utils",
         "/usr/include/Fcitx5/Module", "/usr/include/json-c"]


def build(cfg, work):
    """compile the harness and the real sources it exercises"""
    base = ["g++", "-std=c++17", "-O1", "-g1", "-w"] + SAN + cfg.get("cxxflags", [])
    base += ["-I%s/src" % REPO, "-I%s/src/Engine" % REPO, "-I%s/src/ChineseNumbers" % REPO, "-I%s/replay" % ROOT]
    for i in FCITX:
        base += ["-isystem", i]
    jobs = [os.path.join(ROOT, "replay", cfg["replay"])] + [os.path.join(REPO, s) for s in cfg["src"]]

    def one(i_s):
        i, s = i_s
        o = os.path.join(work, "%d.o" % i)
        p = subprocess.run(base + ["-c", s, "-o", o], capture_output=True, text=True)
        return o, p.returncode, p.stderr, s
    objs = []
    with cf.ThreadPoolExecutor(8) as ex:
        for o, rc, err, s in ex.map(one, enumerate(jobs)):
            if rc:
                return None, "compiling %s failed:\n%s" % (s, err[-4000:])
            objs.append(o)
    exe = os.path.join(work, "harness")
    p = subprocess.run(["g++"] + SAN + objs + ["-o", exe] + cfg.get("libs", []), capture_output=True, text=True)
    if p.returncode:
        return None, "linking failed:\n" + p.stderr[-4000:]
    return exe, None


def run_harness(exe, seed, secs, work):
    """returns (status, dict); status ok|fail|error"""
    rep = os.path.join(work, "replay.txt")
    if os.path.exists(rep):
        os.unlink(rep)
    d = os.path.join(work, "scratch")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        p = subprocess.run([exe, str(seed), str(secs), rep, d], capture_output=True, text=True, errors="replace",
                           env=ENV, cwd=d, timeout=secs * 3 + 120)
        rc, out, err = p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return "error", {"err": "harness did not end"}
    finally:
        shutil.rmtree(d, ignore_errors=True)
    info = {}
    for l in out.splitlines():
        if l.startswith("STATS "):
            info = json.loads(l[6:])
    if rc == 0:
        return "ok", info
    txt = open(rep, errors="replace").read() if os.path.exists(rep) else ""
    if rc == 77 or txt:
        return "fail", {"text": txt, "err": err[-6000:]}
    return "error", {"err": "harness ended with %d\n%s\n%s" % (rc, out[-1000:], err[-3000:])}


def known_findings(prop):
    out = []
    f = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith("known: property=%s " % prop):
                out.append(l[len("known: property=%s " % prop):])
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = CHECKS[prop]
    t0 = time.time()
    evdir = os.path.join(ROOT, "evidence")
    os.makedirs(evdir, exist_ok=True)
    work = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    try:
        rc = decide(prop, tier, seed, cfg, t0, evdir, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def decide(prop, tier, seed, cfg, t0, evdir, work):
    units = []

    def close(n):   # a unit and the units whose proved contracts it imports
        if n not in units:
            units.append(n)
            for i in vrun.imports(n):
                close(i)
    for n in cfg.get("units", []):
        close(n)
    with cf.ThreadPoolExecutor(8) as ex:
        th = 6 if len(units) > 1 else 8
        fut = [ex.submit(vrun.run_unit, n, work, th, tier == "thorough") for n in units]
        fb = ex.submit(build, cfg, work) if cfg.get("replay") else None
        res = [f.result() for f in fut]
        exe, berr = fb.result() if fb else (None, None)
    only = cfg.get("fns")
    mine = lambda f: only is None or f in only or f.startswith("lemma ") or f == "?"
    failed = [(r, f) for r in res for f in r.failed if mine(f["fn"])]
    unbound = dict((r.name + ":" + k, v) for r in res for k, v in r.unbound.items() if mine(k))
    broken = [(r.name, r.broken) for r in res if r.broken]
    bounded_fns = cfg.get("bounded", [])
    # --- concrete side: replay of a failed obligation, or the bounded stand-in
    q = tier == "quick"
    if failed:
        secs = 60 if q else 240
    elif unbound or broken:
        secs = 40 if q else 240
    elif bounded_fns:
        secs = cfg.get("secs", 12) if q else 180
    else:
        secs = cfg.get("secs", 5) if q else 90
    hstat, hinfo = ("none", {})
    if exe:
        hstat, hinfo = run_harness(exe, seed, secs, work)
    elif berr:
        hstat, hinfo = "error", {"err": berr}
    replay = os.path.join(evdir, prop + ".replay.txt")
    if os.path.exists(replay):
        os.unlink(replay)
    violation = None
    kn = []
    if hstat == "fail" or failed:
        with open(replay, "w") as f:
            f.write("property %s\n" % prop)
            for r, b in failed:
                f.write("failed obligation: %s\n  function: %s\n  verifier: %s\n%s\n" % (b["label"], b["fn"], b["message"], b["rendered"]))
            if hstat == "fail":
                f.write("failing input on the real code:\n%s\n%s\n" % (hinfo["text"], hinfo["err"]))
                f.write("reproduce: build /verif/replay/%s with /repo's sources (check.py build()) and run it with seed %d\n" % (cfg["replay"], seed))
            elif failed:
                f.write("no failing input found in %d s of search (%s)\n" % (secs, hstat))
        violation = "VIOLATION property=%s replay=%s" % (prop, replay)
        if hstat != "fail":
            violation += " no-failing-input-found"
    obl = sum(r.obligations for r in res)
    dis = obl - len(failed)
    for r in res:
        if r.broken:
            dis -= r.obligations
    trusted = ["Verus 0.2026.09.13 and Z3 (vstd included)", "clang 18 AST of the current source; translation in tools/c2v.py"]
    for r in res:
        trusted += ["%s: external_body %s" % (r.name, x) for x in getattr(r, "ext", [])]
        trusted += ["%s: contract of %s (body outside the verified subset)" % (r.name, x) for x in r.trusted]
    assumptions = sorted(set(a for r in res for a in r.assumptions)) + cfg.get("assume", [])
    cov = {
        "obligations": obl, "discharged": dis,
        "checker_cmd": "verus <unit>.rs --multiple-errors 6   (units regenerated from /repo on every run: %s)" % ", ".join(units),
        "trusted_base": trusted,
        "functions_under_contract": sorted(r.name + ":" + k for r in res for k in r.fns),
        "functions_inlined_into_callers": sorted(set(x for r in res for x in r.inlined)),
        "functions_not_verified_this_run": unbound,
        "units_not_verified_this_run": dict(broken),
        "bounded_stand_ins": bounded_fns,
        "extraction_drops": sorted(set(x for r in res for x in r.dropped)),
        "backend": "Z3 via Verus", "verifier_items": sum(r.verified for r in res),
        "solver_ms": sum(r.smt_ms for r in res),
        "failed_obligations": [b["label"] for r, b in failed],
        "bounded_run_of_compiled_code": dict({k: v for k, v in hinfo.items() if k not in ("text", "err")}, status=hstat, seconds=secs),
    }
    if any(r.vac for r in res):
        cov["vacuity_probes"] = {r.name: r.vac for r in res if r.vac}
    level = cfg.get("level", "proof")
    if level == "proof" and (unbound or broken):
        level = "other"
    if level == "other" or cfg.get("level", "proof") == "other":
        cov["explanation"] = cfg.get("explain", "") + (
            " In this run some functions could not be bound to their contracts (see functions_not_verified_this_run); "
            "they were checked by the bounded run only." if unbound or broken else "")
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assumptions,
          "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0}
    json.dump(ev, open(os.path.join(evdir, prop + ".json"), "w"), indent=1, ensure_ascii=False)
    print("%s: %d functions under contract, %d obligations, %d discharged, solver %d ms, bounded run %s (%s), wall %.1f s" % (
        prop, len(cov["functions_under_contract"]), obl, dis, cov["solver_ms"], hstat,
        {k: v for k, v in hinfo.items() if k == "cases"}, time.time() - t0))
    for k, v in unbound.items():
        print("  not verified this run (bounded check instead): %s: %s" % (k, str(v)[:200]))
    for k, v in broken:
        print("  unit not verified this run (bounded check instead): %s: %s" % (k, str(v)[:600]))
    for l in hinfo.get("known", []):
        print("KNOWN-FINDING: property=%s %s" % (prop, l))
    if violation:
        for r, b in failed:
            print("  failed obligation: %s [%s]" % (b["label"], b["message"]))
        if hstat == "fail":
            print("  failing input: " + hinfo["text"].strip()[:800])
        print(violation)
        return 1
    if hstat == "error":
        print("ERROR: " + hinfo["err"])
        return 2
    if (unbound or broken) and not exe:
        print("ERROR: nothing decided")
        return 2
    return 0


if __name__ == "__main__":
    main()
