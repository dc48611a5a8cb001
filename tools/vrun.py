"""Run the verifier on one unit: translate /repo's current source, discharge, report."""
import json, os, re, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from cxxast import TU, ExtractError
import c2v

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)


def load(name):
    spec = c2v.Spec(os.path.join(ROOT, "specs", name + ".vspec"))
    tus = []
    for f, flt in spec.sources:
        tus.append(TU(f, flt))
    return c2v.Unit(name, tus, spec)


def imports(name):
    """units whose proved contracts this unit imports"""
    return re.findall(r"^@(?:import|use)\s+(\w+)", open(os.path.join(ROOT, "specs", name + ".vspec")).read(), re.M)


def common(unit):
    t = open(os.path.join(ROOT, "specs", "common.rs")).read()
    for inc in unit.spec.includes:
        t += open(os.path.join(ROOT, "specs", inc)).read()
    return t


class Result:
    def __init__(self, name):
        self.name = name
        self.failed = []        # [{fn, label, message, rendered}]
        self.unbound = {}       # fn -> reason : body not verified in this run
        self.fns = []           # functions whose body was verified
        self.trusted = []
        self.imported = []
        self.obligations = 0
        self.verified = 0
        self.smt_ms = 0
        self.wall = 0.0
        self.assumptions = set()
        self.dropped = set()
        self.inlined = set()
        self.rs = None
        self.vac = None
        self.broken = None
        self.lemmas = 0


def run_verus(path, threads, extra=()):
    cmd = ["verus", path, "--output-json", "--time"] + ([] if "--multiple-errors" in extra else ["--multiple-errors", "6"]) + [
           "--num-threads", str(threads)] + list(extra) + ["--", "--error-format=json"]
    p = subprocess.run(cmd, capture_output=True, text=True, cwd=os.path.dirname(path))
    try:
        res = json.loads(p.stdout[p.stdout.index("{"):])
    except ValueError:
        res = {}
    diags = []
    for l in p.stderr.splitlines():
        if l.startswith("{"):
            try:
                diags.append(json.loads(l))
            except ValueError:
                pass
    return cmd, res, diags, p.stderr


VERIF_MSG = re.compile(r"postcondition not satisfied|precondition not satisfied|assertion failed|invariant not satisfied|"
                       r"decreases not satisfied|loop ensures not satisfied|loop must have|possible arithmetic|assertion not|"
                       r"could not|Resource limit|rlimit|not satisfied|failed this|decrease")


def analyse(r, lm, fn_lines, diags, text):
    """split the diagnostics into failed obligations and errors that prevented verification"""
    lines = text.split("\n")
    bad, hard = [], []
    for d in diags:
        if d.get("level") != "error" or not d.get("spans"):
            continue
        prim = [s for s in d["spans"] if s.get("is_primary")] or d["spans"]
        ln = prim[0]["line_start"]
        fn = None
        for k, (a, b) in fn_lines.items():
            if a <= ln <= b:
                fn = k
        lab = None
        for s in prim + [s for s in d["spans"] if not s.get("is_primary")]:
            for x in range(s["line_start"], s["line_start"] - 12, -1):
                if x in lm and (x == s["line_start"] or x > 0 and fn and fn_lines[fn][0] <= x and "assert" not in lines[s["line_start"] - 1]):
                    lab = lm[x]
                    break
            if lab:
                break
        if fn is None:
            for x in range(ln - 1, -1, -1):
                m = re.search(r"\bfn\s+(\w+)", lines[x])
                if m:
                    fn = "lemma " + m.group(1)
                    break
        src = lines[ln - 1].strip()[:200]
        rec = {"fn": fn or "?", "label": lab or "%s: %s" % (fn, src), "message": d["message"], "line": ln,
               "rendered": d.get("rendered", "")[:3000]}
        if VERIF_MSG.search(d["message"]):
            bad.append(rec)
        else:
            hard.append(rec)
    return bad, hard


def run_unit(name, outdir, threads=4, vac=False):
    r = Result(name)
    t0 = time.time()
    try:
        u = load(name)
    except ExtractError as e:
        r.broken = str(e)
        r.wall = time.time() - t0
        return r
    cm = common(u)
    for attempt in range(8):
        u.vac = False
        text, lm = u.generate(cm)
        path = os.path.join(outdir, name + ".rs")
        open(path, "w").write(text)
        r.cmd, res, diags, err = run_verus(path, threads)
        bad, hard = analyse(r, lm, u.fn_lines, diags, text)
        vr = res.get("verification-results") or {}
        if hard and not vr.get("verified") or vr.get("encountered-vir-error") or not vr:
            # an annotation does not fit the source as it is now: keep the contract, drop the body
            fns = set(h["fn"] for h in hard) & set(u.fn_lines)
            fns -= u.distrust
            if not fns:
                r.broken = "the verifier could not process the unit: %s" % (
                    hard[0]["rendered"] if hard else err[-1500:])
                break
            for f in fns:
                u.distrust.add(f)
                u.distrust_why[f] = [h["message"] for h in hard if h["fn"] == f][0]
                if os.environ.get("C2V_DEBUG"):
                    print([h["rendered"] for h in hard if h["fn"] == f][0])
            continue
        r.failed = bad
        r.verified = vr.get("verified", 0)
        r.errors = vr.get("errors", 0)
        if vr.get("errors", 0) and not bad:
            r.broken = "verifier reported errors without position: " + err[-1500:]
        break
    else:
        r.broken = "too many functions could not be bound"
    r.smt_ms = ((res.get("times-ms") or {}).get("smt") or {}).get("smt-run", 0)
    r.unbound = dict(u.failed)
    for k in u.spec.order:
        if u.spec.fns[k].opts.get("imported"):
            r.imported.append(k)
        elif u.spec.fns[k].opts.get("trusted"):
            r.trusted.append(k)
        elif k not in u.failed:
            r.fns.append(k)
    labs = set()
    for k in r.fns:
        a, b = u.fn_main.get(k, (0, -1))
        labs |= set(x for x in range(a, b + 1) if x in lm)
    r.lemmas = len(re.findall(r"\bproof fn\b", u.spec.prelude + u.spec.post))
    r.obligations = len(labs) + r.lemmas
    r.assumptions, r.dropped, r.inlined = u.assumptions, u.dropped, u.inlined
    r.rs = path
    r.labels = lm
    r.ext = sorted(set(re.findall(r"external_body\]\s*pub (?:proof |exec )?fn (\w+)", text)) - set(c2v.key_id(k) for k in r.trusted + r.imported))
    r.axioms = sorted(set(re.findall(r"\bassume\(|\badmit\(", text)))
    if vac and not r.broken:
        u.vac = True
        u.nvac = 0
        text, lm = u.generate(cm)
        path = os.path.join(outdir, name + "_vac.rs")
        open(path, "w").write(text)
        _, res, diags, err = run_verus(path, threads, ("--multiple-errors", "60"))
        hit = set()
        for d in diags:
            for s in d.get("spans", []):
                l = lm.get(s["line_start"], "")
                if l.startswith("VAC:") and d.get("level") == "error":
                    hit.add(l)
        allv = set(l for l in lm.values() if l.startswith("VAC:"))
        slow = set()
        for d in diags:
            if "rlimit" in d.get("message", ""):
                for s in d.get("spans", []):
                    slow.update(re.findall(r"pub fn (\w+)", " ".join(t["text"] for t in s.get("text", []))))
        und = set(v for v in allv - hit if any(v.split(":", 2)[2].startswith(f + " ") for f in slow))
        r.vac = {"probes": len(allv), "reachable": len(hit), "undetermined (solver limit)": sorted(und), "unreachable": sorted(allv - hit - und)}
    r.wall = time.time() - t0
    return r


if __name__ == "__main__":
    os.makedirs("/tmp/vr", exist_ok=True)
    for n in sys.argv[1:]:
        if n.startswith("-"):
            continue
        r = run_unit(n, "/tmp/vr", 8, "--vac" in sys.argv)
        print(n, "verified", r.verified, "obl", r.obligations, "wall %.1f smt %d" % (r.wall, r.smt_ms), "broken", r.broken)
        print(" unbound", r.unbound, "vac", r.vac)
        for f in r.failed:
            print("  FAIL", f["fn"], "|", f["message"], "|", f["label"])
