"""No failure is reported as success.  Every command (and every function of the stores) is interpreted with its callees and every failure of a library
call, allocation, lock or internal operation; a path on which something failed must not end with SA_STATUS_OK."""
import re
from driver import Job, NoAnswer, run_jobs, program, merge, summarise, ta_entries, need
from core import *
import contracts, models
from rules import c07, dispatch

# a failure of these says something about their argument and is an answer, not an error
DOCUMENTED = {"ta_sa_get_device_id"}  # loads the root key for its side effect and says that it ignores the result
ANSWERS = {"EVP_PKEY_get_int_param", "memchr", "strtol", "EVP_MD_is_a", "EVP_PKEY_is_a"}


class Failures:
    def __init__(self, fine=False):
        self.fine = fine  # keep apart the paths on which different calls failed
        self.sites = set(); self.exits = 0; self.rets = set()

    def coverage(self):
        return {"failing_calls_followed": self.sites, "failing_functions_followed": self.rets}

    def key(self, st):
        return ("failed",) in st.mon, self.fine and next((k[1:] for k in st.mon if isinstance(k, tuple) and k[0] == "failsite"), None), frozenset(k for k in st.mon if isinstance(k, tuple) and k[0] == "pending")
    hardkey = key

    def mark(self, A, st, name, site):
        F = site.F
        st.mon[("failed",)] = True
        if not any(isinstance(k, tuple) and k[0] == "failsite" for k in st.mon): st.mon[("failsite", name, site)] = True

    def on_extfail(self, A, st, name, r, site):
        if name in ANSWERS or name is not None and re.search(r"_release(_exclusive)?$", name): return
        self.sites.add(site.loc() + " " + name)
        self.mark(A, st, name, site)

    def on_ext(self, A, st, name, args, ret, site):
        if name == "log_entry":
            if isc(args[0]) and args[0].a[0] >= 4 and site.F.ditypes and site.F.ditypes[0] in ("sa_status", "_Bool") and ("nolock",) not in st.mon:  # (a lock that is what it should be does not fail)
                self.sites.add(site.loc() + " reported as an error")
                self.mark(A, st, "what is reported as an error", site)
            return
        if name in models.ONE and name not in ANSWERS and ret is not None and not isc(ret):
            self.sites.add(site.loc() + " " + name)
            if not self.settle(A, st, ret, name, site): st.mon[("pending", ret)] = (name, site, site.ctx)
        if ret is NULL and name in models.ALLOC:
            self.sites.add(site.loc() + " " + name)
            self.mark(A, st, name, site)

    def settle(self, A, st, v, name, site):
        """True when the result is known"""
        t = truth(st, mkicmp("sgt", v, C(0, v.w)))
        if t is False: self.mark(A, st, name, site)
        return t is not None

    def on_assume(self, A, st, v, t, site):
        for k in [k for k in st.mon if isinstance(k, tuple) and k[0] == "pending" and k[1] in v.syms]:
            if self.settle(A, st, k[1], *st.mon[k][:2]): del st.mon[k]

    def on_leave(self, A, st, name, site, outer):
        # results nobody looked at
        for k in [k for k in st.mon if isinstance(k, tuple) and k[0] == "pending"]:
            n, s, c = st.mon[k]
            if c != site.ctx: continue
            if st.ret is not None and k[1] in st.ret.syms | {st.ret}:
                st.mon[k] = (n, s, outer.ctx); continue
            del st.mon[k]
            if truth(st, mkicmp("sgt", k[1], C(0, k[1].w))) is not True:
                self.mark(A, st, n, s)

    def on_ret(self, A, st, name, args, ret, site):
        F = A.p.fns.get(name)
        # what a failing release means for the operation that is over
        if name is not None and re.search(r"_release(_exclusive)?$", name): return
        if F is None or ret is None or not F.ditypes or F.ditypes[0] != "sa_status": return
        if truth(st, mkicmp("eq", ret, C(0, ret.w))) is False and ("failed",) not in st.mon:
            self.rets.add(name)
            self.mark(A, st, name, site)

    def on_exit(self, A, st, site, ret):
        if ("failed",) not in st.mon or ret is None: return
        self.exits += 1
        ok = mkicmp("eq" if A.entry.ditypes[0] == "sa_status" else "ne", ret, C(0, ret.w))
        if truth(st, ok) is not False:
            for k in st.mon:
                if isinstance(k, tuple) and k[0] == "failsite":
                    A.report("failure-reported-as-success", k[2], "%s fails here and the operation can still report success" % k[1]); return
            A.report("failure-reported-as-success", site, "something fails on the way here and the operation can still report success")


def run(tier):
    P = program("ta")
    jobs = [Job("ta", e, lambda: [Failures()]) for e in ta_entries(P) if P.fns[e].ditypes[0] == "sa_status" and e not in DOCUMENTED]
    # what stands in the commands by contracts
    jobs += [j for j in c07.jobs_entries(P, lambda: [Failures()]) if j.tag == "body" and P.fns[j.entry].ditypes[0] in ("sa_status", "_Bool", "object_store_t*", "json_value_t*", "client_store_t*")]
    jobs += dispatch.jobs(P, lambda: [Failures()])
    res = run_jobs(jobs)
    again = [j for j, r in zip(jobs, res) if r.get("reports")]
    if again:
        # say which call it is
        for j in again: j.monitors = lambda: [Failures(True)]
        try: fine = dict(zip([j.entry for j in again], run_jobs(again)))
        except NoAnswer: fine = {}
        res = [fine[j.entry] if j.entry in fine and fine[j.entry].get("reports") else r for j, r in zip(jobs, res)]
    cov = summarise(res, jobs)
    need(cov.get("failing_calls_followed", 0) >= 100, "the failing calls are not where the rule looks for them")
    return {"reports": merge(res), "coverage": cov}
