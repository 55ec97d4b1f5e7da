"""Rights of child keys.  Every command is interpreted with its callees; where a key derived, exchanged or unwrapped with another key enters the key store,
its output protection flags must be a subset of those of that key on every path, and where the other key may only unwrap and has child usage flags, its
key usage flags a subset of these.  The subset is decided bit by bit from the expression stored as the usage flags."""
import itertools
from driver import Job, run_jobs, program, merge, summarise, ta_entries, need
from core import *
import contracts

CONSUME = {"ta_sa_key_derive": ("parent",), "ta_sa_key_exchange": (), "ta_sa_key_unwrap": (), "ta_sa_key_import": ()}


def leaves(v, out, memo=None):
    if v.op == "c": return
    if v.op == "bin" and v.a[0] in ("and", "or", "xor"):
        leaves(v.a[1], out); leaves(v.a[2], out)
    else: out.add(v)


def bit(v, b, env):
    if v.op == "c": return v.a[0] >> b & 1
    if v in env: return env[v]
    x, y = bit(v.a[1], b, env), bit(v.a[2], b, env)
    k = v.a[0]
    return x & y if k == "and" else x | y if k == "or" else x ^ y


def subset(v, L, mask):
    """v & ~L & mask == 0, whatever the values they are made of"""
    vs = set(); leaves(v, vs); leaves(L, vs)
    if len(vs) > 8: return False
    vs = sorted(vs, key=id)
    for b in range(64):
        if not mask >> b & 1: continue
        for t in itertools.product((0, 1), repeat=len(vs)):
            env = dict(zip(vs, t))
            if bit(v, b, env) and not bit(L, b, env): return False
    return True


class Atten:
    def __init__(self):
        self.sites = set()

    def coverage(self):
        return {"child_keys_checked": self.sites}

    def lay(self, A):
        if not hasattr(self, "u"):
            r = A.p.field("stored_key_s", "header") + A.p.field("sa_header", "rights")
            self.u = r + A.p.field("sa_rights", "usage_flags"); self.c = r + A.p.field("sa_rights", "child_usage_flags")
            e = A.p.enums; B = lambda *n: sum(1 << e["SA_USAGE_FLAG_" + x] for x in n)
            self.out = B("ALLOWED_ANALOG_UNPROTECTED", "ALLOWED_ANALOG_CGMSA", "ALLOWED_DIGITAL_UNPROTECTED", "ALLOWED_DIGITAL_HDCP14", "ALLOWED_DIGITAL_HDCP22", "ALLOWED_DIGITAL_DTCP", "SVP_OPTIONAL")
            self.use = B("KEY_EXCHANGE", "DERIVE", "UNWRAP", "ENCRYPT", "DECRYPT", "SIGN"); self.only = self.use & ~B("UNWRAP")

    def parents(self, A, st):
        self.lay(A)
        for k in list(st.mon):
            if isinstance(k, tuple) and k[0] == "skh":
                o = deref(k[1])
                yield k[1], A.load(st, mkptr(o, self.u), 8), A.load(st, mkptr(o, self.c), 8)

    def cond(self, st, L, cf):
        """Whether the parent may only unwrap and limits the usage of its children: True, False, None unknown"""
        a = truth(st, mkicmp("eq", mkbin(None, "and", L, C(self.only), 64), C(0)))
        b = truth(st, mkicmp("eq", cf, C(0)))
        if a is False or b is True: return False
        return True if a is True and b is False else None

    def key(self, st):
        return frozenset(v for k, v in st.mon.items() if isinstance(k, tuple) and k[0] == "limits") | frozenset(k for k in st.mon if isinstance(k, tuple) and k[0] == "att")

    def on_assume(self, A, st, v, t, site):
        for sk, L, cf in self.parents(A, st):
            if L in v.syms or cf in v.syms: st.mon[("limits", sk)] = (sk, self.cond(st, L, cf))

    def facts(self, A, st, v):
        r = []
        for sk, L, cf in self.parents(A, st):
            if subset(v, L, self.out): r.append(("out", sk))
            if self.cond(st, L, cf) is False or subset(v, cf, self.use): r.append(("use", sk))
        return r

    def on_store(self, A, st, p, v, w, site):
        if isc(p): return
        o, off = as_ptr(p)
        if not isinstance(off, int): return
        for k in [k for k in st.mon if isinstance(k, tuple) and k[0] == "att" and k[2] is o and off <= k[3] < off + w]: del st.mon[k]
        if w == 8 and v.op == "bin" and v.w == 64:
            for n, sk in self.facts(A, st, v): st.mon[("att", n, o, off, sk)] = True

    def on_memcpy(self, A, st, d, s, n, site):
        if isc(d) or isc(s) or not isc(n): return
        o, off = as_ptr(d); q, qf = as_ptr(s); L = n.a[0]
        if not isinstance(off, int) or not isinstance(qf, int): return
        add = []
        for k in list(st.mon):
            if isinstance(k, tuple) and k[0] == "att":
                if k[2] is q and qf <= k[3] and k[3] + 8 <= qf + L: add.append(("att", k[1], o, k[3] - qf + off, k[4]))
                if k[2] is o and off <= k[3] < off + L: del st.mon[k]
        for k in add: st.mon[k] = True

    def on_key_stored(self, A, st, name, args, site):
        e = A.entry.name
        if e not in CONSUME: return
        sk = args[2]
        if isc(sk): return
        # the keys that were used: not those that only authenticate
        ps = []
        for k in st.mon:
            if isinstance(k, tuple) and k[0] == "skh":
                h = st.mon[k][0]
                if e == "ta_sa_key_import" and h.op == "ld" and h.a[1] == A.p.field("sa_import_parameters_typej", "khmac"): continue
                ps.append(k[1])
        if not ps: return
        self.sites.add("%s in %s" % (site.loc(), e))
        v = A.load(st, mkptr(deref(sk), self.u), 8)
        f = set(self.facts(A, st, v)) | {(k[1], k[4]) for k in st.mon if isinstance(k, tuple) and k[0] == "att" and k[2] is deref(sk) and k[3] == self.u}
        if not any(("out", p) in f for p in ps):
            A.report("child-output-rights", site, "a key made with another key is stored on a path that has not limited its output rights to those of the other key")
        if e in ("ta_sa_key_unwrap", "ta_sa_key_import") and not any(("use", p) in f for p in ps):
            A.report("child-usage-rights", site, "an unwrapped key is stored on a path that has not limited its usage to the child usage flags of a key that may only unwrap")


def run(tier):
    P = program("ta")
    jobs = [Job("ta", e, lambda: [Atten()]) for e in ta_entries(P) if e in CONSUME]
    need(len(jobs) == len(CONSUME), "the commands that make keys with keys are not where the rule looks for them")
    res = run_jobs(jobs)
    cov = summarise(res, jobs)
    need(cov.get("child_keys_checked", 0) >= 15, "the child keys are not where the rule looks for them")
    return {"reports": merge(res), "coverage": cov}
