"""Ownership typestate: path-sensitive abstract interpretation of every command of the trusted application with all callees inlined and every
library failure explored.  Each heap object or library handle is live until released, handed to a store or returned; a second release, a use after
release, a null dereference, a loss on any exit, and a released object left reachable are reported.  The store layer stands in the commands by
contracts and is analysed itself; the destructors registered with the stores must release everything the stored objects were seen to own."""
import driver
from driver import Job, run_jobs, program, merge, summarise, ta_entries, NoAnswer
from core import *
import contracts, models, monitors
from rules import dispatch


class Owned:
    """What objects handed to a store own, as access paths; which destructor each store has."""
    def __init__(self):
        self.adds = set(); self.fns = set()

    def coverage(self):
        return {"owned_paths": [repr(x) for x in self.adds], "destructors": [repr(x) for x in self.fns]}

    def on_stored(self, A, st, o, store, uuid, site):
        if store.op != "ld" or not isinstance(store.a[1], int): return
        def walk(v, path, d):
            r = st.mon.get(("res", v))
            if r is None or d > 3: return
            for off, (x, w) in (st.mem.get(deref(v)) or {}).items():
                if w != 8 or isinstance(off, V): continue
                rx = st.mon.get(("res", x))
                if rx is not None and rx[1] == "live":
                    self.adds.add((store.a[1], path + (off,)))
                    walk(x, path + (off,), d + 1)
        walk(o, (), 0)

    def on_exit(self, A, st, site, ret):
        for o, cells in st.mem.items():
            for off, (v, w) in cells.items():
                if w == 8 and ("freefn", v) in st.mon and not isinstance(off, V): self.fns.add((off, st.mon[("freefn", v)]))


class Destructor:
    def __init__(self, paths):
        self.paths = paths; self.checked = set()

    def coverage(self):
        return {"owned_paths_released": self.checked}

    def on_exit(self, A, st, site, ret):
        a = A.args[0]
        if truth(st, mkicmp("eq", a, NULL)): return
        for p in self.paths:
            v = a; skip = False
            for i, off in enumerate(p):
                # the field as it was on entry
                v = mk("ld", deref(v), off, None, w=64)
                if truth(st, mkicmp("eq", v, NULL)): skip = True; break
            if skip: continue
            r = st.mon.get(("res", v))
            self.checked.add("%s%r" % (A.entry.name, p))
            if r is None or r[1] != "freed":
                A.report("destructor-leak", Site(A, A.entry, A.entry.d.get("line", 0), site.ctx, None), "an object owned by the stored object (field path %s) is not released by its destructor" % fieldnames(A, p))


def fieldnames(A, p):
    return ".".join(str(x) for x in p)


def jobs_entries(P, mon):
    js = [Job("ta", e, mon) for e in ta_entries(P)]
    base = dict(models.MODELS)
    js.append(Job("ta", "load_pkcs12_secret_key", mon, models=base, tag="body"))
    base = dict(base); base.update(contracts.UTIL)
    st = dict(base); st.update(contracts.STORE); st.update(contracts.OTP)
    for f in sorted(contracts.STORE):
        m = dict(base)
        if f == "client_store_global": m.update(contracts.STORE); m.pop(f)
        js.append(Job("ta", f, mon, models=m, tag="body"))
    for f in sorted(contracts.KEYS): js.append(Job("ta", f, mon, models=st, tag="body"))
    for f in sorted(contracts.OTP): js.append(Job("ta", f, mon, models=base, tag="body"))
    for f in sorted(contracts.JSON):
        m = dict(base); m.update(contracts.JSON); m.pop(f)
        js.append(Job("ta", f, mon, models=m, tag="body"))
    return js


def run(tier):
    P = program("ta")
    jobs = jobs_entries(P, lambda: [monitors.Resources(), Owned()])
    jobs += dispatch.jobs(P, lambda: [monitors.Resources(), Owned()])
    res = run_jobs(jobs)
    adds = set(); fns = set()
    for r in res:
        adds |= set(r.get("cov", {}).get("owned_paths", ())); fns |= set(r.get("cov", {}).get("destructors", ()))
    adds = {eval(x) for x in adds}; fns = dict(eval(x) for x in fns)
    d = []
    for off, fn in sorted(fns.items()):
        ps = sorted(p for o, p in adds if o == off)
        if ps: d.append(Job("ta", fn, lambda ps=ps: [monitors.Resources(leaks=False), Destructor(ps)], tag="destructor"))
    if len(d) < 3: raise NoAnswer("only %d store destructors with owned objects found" % len(d))
    dres = run_jobs(d)
    return {"reports": merge(res + dres), "coverage": summarise(res + dres, jobs + d)}
