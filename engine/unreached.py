"""Development aid: lines of the analysed functions no abstract state reaches (python3 engine/unreached.py C07)."""
import sys, os, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import driver
got = set()
orig = driver.run_jobs
def rj(jobs):
    r = orig(jobs)
    for x in r: got.update(x.get("blocks", ()))
    return r
driver.run_jobs = rj
mod = importlib.import_module("rules." + sys.argv[1].lower())
mod.run_jobs = rj
if "rules.c07" in sys.modules: sys.modules["rules.c07"].run_jobs = rj
mod.run("quick")
for pn, P in driver._progs.items():
    for n, f in sorted(P.fns.items(), key=lambda x: x[1].file):
        if f.blocks is None: continue
        if not any((n, b) in got for b in range(len(f.blocks))):
            print(pn, "UNREACHED FUNCTION", f.file.split("/src/")[-1], n); continue
        P.prep(f)
        miss = [b for b in range(len(f.blocks)) if (n, b) not in got and b in f.rpo]
        if miss: print(pn, f.file.split("/src/")[-1], n, "lines", sorted({i[0] for b in miss for i in f.blocks[b] if i[0]}))
