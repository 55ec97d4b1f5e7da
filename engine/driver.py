"""Runs rules over the analysed programs, compares the reports with the known findings, writes evidence."""
import hashlib, importlib, json, multiprocessing, os, re, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build_ir
import core, models, contracts
from core import Program, Analysis, Budget

_progs = {}


class NoAnswer(Exception):
    """The rule cannot decide: something it is anchored to is gone."""


def program(name):
    if name not in _progs:
        _progs[name] = Program(build_ir.build(name))
    return _progs[name]


def need(cond, msg):
    """An anchor a rule cannot do without."""
    if not cond and not os.environ.get("VERIF_ONLY"): raise NoAnswer(msg)


class Job:
    """One entry analysed with one set of monitors."""
    def __init__(self, prog, entry, monitors, models=None, opaque=(), args=None, pre=None, budget=6000000, K=None, tag=None, optional=False):
        self.prog = prog; self.entry = entry; self.monitors = monitors; self.models = models if models is not None else contracts.ALL
        self.opaque = opaque; self.args = args; self.pre = pre; self.budget = budget; self.K = K; self.tag = tag; self.optional = optional


_jobs = []


def _one(i):
    j = _jobs[i]
    t = time.time()
    if getattr(j, "skip", False): return i, {"reports": [], "wall": 0}
    P = program(j.prog)
    try:
        if j.entry not in P.fns or P.fns[j.entry].blocks is None:
            return i, {"missing": True, "reports": [], "wall": 0}
        ms = j.monitors() if callable(j.monitors) else j.monitors
        while True:
            A = Analysis(P, monitors=ms, models=j.models, opaque=j.opaque, budget=j.budget)
            if j.K: A.K = j.K
            outs = A.run(j.entry, args=j.args(A) if callable(j.args) else None, pre=j.pre)
            # a monitor may have learnt what to look for
            if not any([m.again() for m in ms if hasattr(m, "again")]): break
        cov = {}
        for m in ms:
            if hasattr(m, "coverage"):
                for k, v in m.coverage().items(): cov.setdefault(k, []).extend(sorted(v) if not isinstance(v, list) else v)
        return i, {"reports": list(A.reports.values()), "exits": len(outs), "steps": A.steps, "calls": A.stats["calls"], "joins": A.stats["joins"], "lossy": A.stats["lossy"],
                   "functions": sorted(A.stats["functions"]), "externals": sorted(A.stats["externals"]), "cov": cov, "blocks": A.stats["blocks"], "wall": time.time() - t}
    except Budget as e:
        return i, {"budget": str(e), "reports": [], "wall": time.time() - t}
    except Exception:
        return i, {"error": traceback.format_exc(), "reports": [], "wall": time.time() - t}


# entries that take longest first
SLOW = ["ta_sa_process_common_encryption", "ta_sa_key_derive", "ta_sa_key_import", "ta_sa_key_unwrap", "ta_sa_crypto_cipher_process_last", "ta_sa_crypto_cipher_process"]


def run_jobs(jobs):
    """Results in the order of the jobs."""
    global _jobs
    if os.environ.get("VERIF_ONLY"):  # development: only the entries that match
        for j in jobs: j.skip = not re.search(os.environ["VERIF_ONLY"], j.entry)
    for p in {j.prog for j in jobs}: program(p)
    _jobs = jobs
    order = sorted(range(len(jobs)), key=lambda i: (SLOW.index(jobs[i].entry) if jobs[i].entry in SLOW else 99, i))
    res = {}
    n = min(8, os.cpu_count() or 1)
    with multiprocessing.get_context("fork").Pool(n, maxtasksperchild=6) as pool:
        for i, r in pool.imap_unordered(_one, order, chunksize=1):
            res[i] = r
    for i, j in enumerate(jobs):
        r = res[i]
        if r.get("missing"):
            if not j.optional: raise NoAnswer("function %s is not in the analysed sources" % j.entry)
        if "budget" in r: raise NoAnswer("analysis of %s did not finish within its step budget (in %s)" % (j.entry, r["budget"]))
        if os.environ.get("VERIF_TIMES") and r["wall"] > float(os.environ["VERIF_TIMES"]): print("# %s/%s %.1fs steps %s" % (j.entry, j.tag, r["wall"], r.get("steps")), file=sys.stderr)
        if "error" in r: raise NoAnswer("analysis of %s failed:\n%s" % (j.entry, r["error"]))
    return [res[i] for i in range(len(jobs))]


def ta_entries(P):
    """The commands of the trusted application, the functions its dispatcher calls."""
    e = sorted(n for n, f in P.fns.items() if f.blocks is not None and n.startswith("ta_sa_") and re.search(r"/taimpl/src/ta_sa_[a-z_]+\.c$", f.file) and not is_static(f))
    if len(e) < 30: raise NoAnswer("only %d ta_sa_* entry points found" % len(e))
    return e


def is_static(f):
    return f.d.get("internal", False)


# ---------------------------------------------------------------- known findings
def known():
    p = os.path.join(VERIF, "KNOWN_FINDINGS")
    out = []
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("known: "):
                out.append(json.loads(line[7:]))
    return out


def norm(s):
    return re.sub(r":\d+", "", s)


def matches(k, prop, r):
    return k["property"] == prop and k["rule"] == r["rule"] and k["file"] == r["file"] and (k["function"] == r["function"] or any(str(p).split(":")[0] == k["function"] for p in r.get("path", ()))) and norm(k["what"]) == norm(r["what"])


def merge(results, jobs=None):
    """All reports, once each."""
    seen = {}
    for r in results:
        for x in r["reports"]:
            k = (x["rule"], x["file"], x["function"], x["line"], x["what"])
            seen.setdefault(k, x)
    return list(seen.values())


def summarise(results, jobs):
    fns = set(); ext = set(); cov = {}
    for r in results:
        fns |= set(r.get("functions", ())); ext |= set(r.get("externals", ()))
        for k, v in r.get("cov", {}).items():
            cov.setdefault(k, set()).update(v if isinstance(v, list) else [v])
    d = {"entries_analysed": [j.entry + ("/" + j.tag if j.tag else "") for j in jobs], "exit_states": sum(r.get("exits", 0) for r in results), "abstract_steps": sum(r.get("steps", 0) for r in results),
         "call_sites_interpreted": sum(r.get("calls", 0) for r in results), "functions_analysed": len(fns), "unmodelled_externals": sorted(ext)}
    for k, v in sorted(cov.items()):
        d[k] = len(v)
        d[k + "_samples"] = sorted(v)[:int(os.environ.get("VERIF_SAMPLES", "12"))]
    return d


# ---------------------------------------------------------------- main
def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv: tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    sys.path.insert(0, VERIF)
    try:
        mod = importlib.import_module("rules." + prop.lower().replace("-", "_"))
        res = mod.run(tier)
    except build_ir.BuildError as e:
        print("ERROR: %s" % e); return 3
    except NoAnswer as e:
        print("ERROR: no answer: %s" % e); return 2
    except Exception:
        traceback.print_exc(); return 2
    reports = res["reports"]; cov = res["coverage"]
    kn = known()
    viol = []; used = set()
    for r in sorted(reports, key=lambda x: (x["file"], x["line"], x["rule"], x["what"])):
        hit = None
        for i, k in enumerate(kn):
            if matches(k, prop, r): hit = i; break
        if hit is not None:
            if hit not in used:
                print("KNOWN-FINDING: property=%s %s: %s in %s (%s)" % (prop, r["rule"], kn[hit]["what"], kn[hit]["function"], kn[hit]["file"]))
            used.add(hit)
        else:
            viol.append(r)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    for i, r in enumerate(viol):
        rp = os.path.join(VERIF, "evidence", "replay-%s-%d.json" % (prop, i))
        json.dump(r, open(rp, "w"), indent=1, default=str)
        print("%s:%s: in %s: [%s] %s" % (r["file"], r["line"], r["function"], r["rule"], r["what"]))
        if r.get("path"): print("    via " + " > ".join(str(x) for x in r["path"]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
    cov["known_findings_matched"] = len(used)
    cov.setdefault("explanation", res.get("explanation", mod.__doc__ or ""))
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "other", "coverage": cov, "assumptions": res.get("assumptions", []) + ASSUME,
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1, default=str)
    print("%s: %d reports, %d known, %d violations, %.1fs" % (prop, len(reports), len(reports) - len(viol), len(viol), time.time() - t0))
    return 1 if viol else 0


ASSUME = [
    "external functions (OpenSSL, libc, pthread, yajl) behave as the models in engine/models.py state; an external without a model may write anything its pointer arguments reach",
    "pointers that come from different sources (parameters, loads of different fields) do not alias unless their value is the same expression",
    "joins keep a bounded number of states per program point; the facts of joined states are intersected, so a join can only make a rule report more",
]
