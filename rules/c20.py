"""A failed command leaves nothing behind.  A command that adds an object to a store hands the caller its handle and succeeds, or removes the object again."""
import re
from driver import Job, run_jobs, program, merge, summarise, need
from core import *
import contracts, models
from rules import c07

ADD = {"object_store_add", "key_store_import_stored_key", "key_store_import_exported"}  # (handle, ...)
REMOVE = {"object_store_remove"}  # (store, handle, ...)
RELEASE = re.compile(r"^ta_sa_.*_release$|^ta_sa_close$")


class Left:
    def __init__(self):
        self.adds = set(); self.removes = set(); self.ok = set(); self.bad = set(); self.handed = set(); self.released = set()

    def coverage(self):
        return {"additions": self.adds, "removals": self.removes, "successful_ends_checked": self.ok, "failing_ends_checked": self.bad, "handles_given_to_the_caller": self.handed, "ends_of_releasing_commands": self.released}

    def key(self, st):
        return frozenset(k for k in st.mon if isinstance(k, tuple) and k[0] in ("added", "removed"))

    hardkey = key

    def on_ext(self, A, st, name, args, ret, site):
        if ret is None or not isc(ret) or ret.a[0] != 0: 
            if name in REMOVE: self.gone(st, args[1])  # nothing more can be done
            return
        if name in ADD:
            h = A.load(st, args[0], contracts.slotw(A))
            self.adds.add(site.loc())
            st.mon[("added", h)] = models.climb(A, site)
        elif name in REMOVE:
            self.removes.add(site.loc())
            if ("added", args[1]) in st.mon: self.gone(st, args[1])
            elif RELEASE.search(A.entry.name): st.mon[("removed", args[1])] = site
            else: A.report("object-removed", models.climb(A, site), "%s removes an object (%s) that it has not added itself" % (A.entry.name, show(args[1])))

    def gone(self, st, h):
        st.mon.pop(("added", h), None)

    def mine(self, A, o, d=0):
        if o.kind != "deref" or o.base is None or d > 5: return False
        b = o.base
        if b.op == "sym": return any(a is b for a in A.args)
        return self.mine(A, b.a[0], d + 1) if b.op == "ld" else False

    def on_exit(self, A, st, site, ret):
        ks = [k for k in st.mon if isinstance(k, tuple) and k[0] == "added"]
        t = truth(st, mkicmp("eq", ret, C(0, ret.w))) if ret is not None else None
        if t is not True: self.bad.add(site.loc())
        if t is not False: self.ok.add(site.loc())
        rs = [k for k in st.mon if isinstance(k, tuple) and k[0] == "removed"]
        if RELEASE.search(A.entry.name):
            self.released.add(site.loc())
            if t is not False and not any(any(k[1] is a for a in A.args) for k in rs):
                A.report("release-without-removal", Site(A, A.entry, A.entry.d.get("line", 0), site.ctx, None), "%s may end with success (%s) although the object of the handle it was given is not removed" % (A.entry.name, show(ret)))
            for k in rs:
                if t is not True: A.report("removed-but-failed", models.climb(A, st.mon[k]), "%s removes an object here and may end with a failure (%s)" % (A.entry.name, show(ret)))
                elif not any(k[1] is a for a in A.args): A.report("object-removed", models.climb(A, st.mon[k]), "%s removes an object (%s) that is not the one of the handle it was given" % (A.entry.name, show(k[1])))
        for k in ks:
            if t is not True:
                A.report("object-left-behind", st.mon[k], "%s may end with a failure (%s) while the object added to a store here is still in it" % (A.entry.name, show(ret)))
                continue
            h = k[1]
            if any(self.mine(A, o) and any(v is h for v, w in c.values()) for o, c in st.mem.items()): self.handed.add(st.mon[k].loc()); continue
            A.report("handle-lost", st.mon[k], "%s ends with success but gives nobody the handle of the object that is added to a store here" % A.entry.name)


def run(tier):
    P = program("ta")
    js = [j for j in c07.jobs_entries(P, lambda: [Left()]) if j.tag != "body" or j.entry in contracts.KEYS]
    res = run_jobs(js)
    cov = summarise(res, js)
    need(cov.get("additions", 0) >= 1 and cov.get("handles_given_to_the_caller", 0) >= 4, "objects are not added to the stores where the rule looks for it")
    return {"reports": merge(res), "coverage": cov}
