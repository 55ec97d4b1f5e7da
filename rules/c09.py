"""Null pointers from the caller.  Every command is interpreted with its callees; a pointer the caller passes, itself or in a structure it points to, is
dereferenced, copied from or to, or given to a library function that needs it only on paths that have found that it is not null (or, for a copy, that
the length is zero)."""
from driver import Job, run_jobs, program, merge, summarise, ta_entries, need
from core import *
import models, monitors, contracts

NN = ((1, (1 << 64) - 1),)
FULL = (1 << 64) - 1


# (pointer, length) arguments of library functions that read
PAIRS = {"EVP_DigestUpdate": (1, 2), "EVP_DigestSignUpdate": (1, 2), "EVP_DigestSign": (3, 4), "EVP_MAC_update": (1, 2), "EVP_EncryptUpdate": (3, 4), "EVP_DecryptUpdate": (3, 4), "EVP_PKEY_sign": (3, 4),
         "EVP_PKEY_decrypt": (3, 4), "EVP_MAC_init": (1, 2), "BIO_new_mem_buf": (0, 1), "RAND_bytes": (0, 1)}


class Given:
    """Dereferences of pointers given by the caller."""
    def __init__(self):
        self.sites = set(); self.ptrs = set(); self.pairs = set(); self.want = set()

    def coverage(self):
        return {"pointer_uses_checked": self.sites, "caller_pointers": self.ptrs}

    def again(self):
        """Run again when it matters that a pointer is not null or else a length is zero: a fact about two values, kept for the pairs that need it."""
        n = len(self.pairs); self.pairs |= self.want; self.want = set()
        return len(self.pairs) > n

    def holds(self, st, b, n):
        return ("zn", b, n) in st.mon or truth(st, mkicmp("eq", b, NULL)) is False or truth(st, mkicmp("eq", n, C(0, n.w))) is True

    def on_join(self, A, a, b, r):
        for p, n in self.pairs:
            if self.holds(a, p, n) and self.holds(b, p, n): r.mon[("zn", p, n)] = True

    def rooted(self, A, v, d=0):
        if d > 5: return None
        if v.op == "sym":
            for i, a in enumerate(A.args):
                if a is v: return A.entry.argnames[i] if i < len(A.entry.argnames) else "argument %d" % i
            return None
        if v.op == "ld":
            o = v.a[0]
            if o.kind != "deref" or o.base is None: return None
            r = self.rooted(A, o.base, d + 1)
            return None if r is None else "%s->[%s]" % (r, v.a[1] if isinstance(v.a[1], int) else "..")
        return None

    def chk(self, A, st, b, site, what, n=None):
        if b is None or isc(b): return
        r = self.rooted(A, b)
        if r is None: return
        self.sites.add(site.loc()); self.ptrs.add(r)
        if truth(st, mkicmp("eq", b, NULL)) is False: return
        if n is not None:
            if self.holds(st, b, n): return
            self.want.add((b, n))
        A.report("null-from-caller", models.climb(A, site), "%s through %s on a path that has not found that the caller did not pass a null pointer" % (what, r))
        constrain(st, b, NN)

    def on_deref(self, A, st, p, w, site, what):
        if not isc(p): self.chk(A, st, as_ptr(p)[0].base, site, what)

    def on_memcpy(self, A, st, d, s, n, site):
        for p, w in ((d, "write"), (s, "read")):
            if not isc(p): self.chk(A, st, as_ptr(p)[0].base, site, w, n)

    def on_memset(self, A, st, p, c, n, site, name):
        if not isc(p): self.chk(A, st, as_ptr(p)[0].base, site, "write", n)

    def on_call(self, A, st, name, args, site):
        F = A.p.fns.get(name)
        if F is None or F.blocks is not None: return
        q = PAIRS.get(name)
        if q and not isc(args[q[0]]): self.chk(A, st, as_ptr(args[q[0]])[0].base, site, name, args[q[1]])
        for i in monitors.nonnull(name):
            if i < len(args) and not isc(args[i]): self.chk(A, st, as_ptr(args[i])[0].base, site, "%s" % name)


def two(A, st):
    """An array of two: the first pass over it treats each, the loops of a command all run over the same elements."""
    st.regs[0] = A.args[0] = C(2, A.args[0].w)


def given(A, st):
    """What the dispatcher itself passes is there; what the parameters refer to may not be."""
    for a in A.args:
        if a.w == 64: constrain(st, a, NN)


def m_import(A, st, name, args, site, w):
    """ta_sa_key_import on behalf of key provisioning: it looks at its parameters itself."""
    A.havoc_range(st, args[0], C(8), (site, "key", 0))
    return [(st, A.fresh(st, "status", name, site, w=w))]


def run(tier):
    from rules.dispatch import handlers
    P = program("ta")
    jobs = [Job("ta", e, lambda: [Given()], pre=two if P.fns[e].ditypes[1:3] == ["size_t", "sa_sample*"] else None) for e in ta_entries(P)]
    for n in handlers(P):
        m = dict(contracts.ALL)
        if n == "ta_invoke_key_provision": m["ta_sa_key_import"] = m_import
        jobs.append(Job("ta", n, lambda: [Given()], models=m, pre=given, tag="handler"))
    res = run_jobs(jobs)
    cov = summarise(res, jobs)
    need(cov.get("caller_pointers", 0) >= 25, "the pointers of the callers are not where the rule looks for them")
    return {"reports": merge(res), "coverage": cov}
