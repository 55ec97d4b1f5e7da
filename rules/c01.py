"""Handle confinement.  Two halves, both decided by abstract interpretation of the trusted application.
(1) In the object store, every effect on a slot for a caller - handing out the object, changing the reference count, clearing or freeing the slot -
must happen on a path where the 16 bytes of that very slot's owner were compared equal to the caller's UUID in the same critical section, the slot
index is the caller's and is below the slot count, and no shut-down is in progress for an acquisition; adding stores the caller's UUID in the slot
it allocates.  (2) At every call a command makes into the store layer, the UUID is the command's own caller, the client slot its own client handle,
and the store is the field of that acquired client that matches the kind of object."""
from driver import Job, run_jobs, program, merge, summarise, ta_entries, NoAnswer, is_static, need
from core import *
import contracts, models, monitors
from rules import dispatch
import re

WEAK.add("owncmp")
UUID = 16


class Slots:
    """Effects on a store's slots in the bodies of the store operations."""
    def __init__(self, op):
        self.op = op; self.effects = set(); self.exits = set()

    def key(self, st):
        return frozenset(k for k in st.mon if k in (("rc",), ("put",), ("own",), ("cleared",), ("slotfreed",), ("destroyed",)))
    hardkey = key

    def coverage(self):
        return {"guarded_effects": self.effects, "guarded_exits": self.exits}

    def lay(self, A):
        if not hasattr(self, "f"):
            P = A.p
            f = lambda n: P.field("store_object_t", n)
            self.f = {n: f(n) for n in ("object", "owner_uuid", "reference_count")}
            self.size = P.di["store_object_t"]["size"] if "store_object_t" in P.di else P.di["store_object_s"]["size"]
            self.s = {n: P.field("object_store_s", n) for n in ("objects", "slot_count", "is_shutting_down", "mutex", "slots")}
        return self.f

    def args(self, A):
        a = A.args
        return {"acquire": dict(store=a[1], slot=a[2], uuid=a[3]) if len(a) > 3 else {}, "release": dict(store=a[0], slot=a[1], uuid=a[3]) if len(a) > 3 else {},
                "remove": dict(store=a[0], slot=a[1], uuid=a[2]) if len(a) > 2 else {}, "add": dict(store=a[1], object=a[2], uuid=a[3]) if len(a) > 3 else {}}[self.op]

    def elem(self, A, p, name):
        """Offset of the store_object_t if p designates its field name."""
        self.lay(A)
        o, off = as_ptr(p)
        if o.kind != "deref" or o.base.op != "ld" or o.base.a[1] != self.s["objects"]: return None
        if o.base.a[0] is not deref(self.args(A)["store"]): return None
        return o, suboff(off, self.f[name])

    def slotoff(self, A):
        s = self.args(A)["slot"]
        return mkbin(None, "mul", s, C(self.size), 64)

    def owner(self, A, st, site, what):
        """The slot of the caller's own handle was found to belong to the caller."""
        self.lay(A)
        a = self.args(A)
        self.effects.add("%s: %s" % (site.loc(), what))
        if truth(st, mkicmp("ult", a["slot"], mk("ld", deref(a["store"]), self.s["slot_count"], None, w=64))) is not True:
            A.report("slot-unbounded", site, "%s without the slot known to be below the slot count" % what)
        for k in list(st.mon):
            if not (isinstance(k, tuple) and k[0] == "owncmp"): continue
            x, y, n = st.mon[k]
            if rng(st, k[1]) != ((0, 0),) or n is not C(UUID): continue
            for p, q in ((x, y), (y, x)):
                e = self.elem(A, p, "owner_uuid")
                if e is not None and e[1] is self.slotoff(A) and q is a["uuid"]: return
        A.report("owner-unchecked", site, "%s on a path that has not found the owner of this slot equal to the caller in this critical section" % what)

    def on_ext(self, A, st, name, args, ret, site):
        c = st.mon.get(("cmp", ret)) if ret is not None else None
        if c is not None:
            if c[3] not in ("memory_memcmp_constant", "memcmp", "CRYPTO_memcmp"): return
            st.mon[("owncmp", ret)] = c[:3]

    def on_mutex(self, A, st, name, m, site):
        for k in [k for k in st.mon if isinstance(k, tuple) and k[0] in ("owncmp",)]: del st.mon[k]

    def on_store(self, A, st, p, v, w, site):
        a = self.args(A)
        e = self.elem(A, p, "reference_count")
        if e is not None and not isinstance(e[1], int) and w == self.f["owner_uuid"]: pass
        for n in ("object", "reference_count"):
            e = self.elem(A, p, n)
            if e is None: continue
            if self.op == "add":
                if n == "object" and v is a["object"]: st.mon[("put",)] = e[1]
                continue
            if e[1] is self.slotoff(A):
                self.owner(A, st, site, {"object": "the object of a slot is replaced", "reference_count": "the reference count of a slot is changed"}[n])
                if n == "reference_count":
                    old = A.load(st, p, w)
                    st.mon[("rc",)] = (v, old)
                elif v is NULL: st.mon[("cleared",)] = A.load(st, p, w)
                return
        o, off = as_ptr(p)
        if o.kind == "deref" and o.base.op == "ld" and o.base.a[1] == self.s["objects"] and o.base.a[0] is deref(a["store"]) and self.op != "add":
            x = suboff(off, self.slotoff(A))
            if not isc(x): A.report("other-slot", site, "a slot other than the caller's is written")

    def on_memcpy(self, A, st, d, s, n, site):
        e = self.elem(A, d, "owner_uuid")
        if e is None: return
        if self.op == "add":
            if s is self.args(A)["uuid"] and n is C(UUID): st.mon[("own",)] = e[1]
            else: A.report("owner-not-caller", site, "the owner of a slot is set from something other than the caller's UUID")
        else: A.report("owner-changed", site, "the owner of a slot is changed")

    def on_free(self, A, st, p, kind, site, name): pass

    def on_call(self, A, st, name, args, site):
        self.lay(A)
        if self.op == "remove" and name == "slots_free":
            self.owner(A, st, site, "a slot is made available again")
            if args[1] is not self.args(A)["slot"]: A.report("other-slot", site, "a slot other than the caller's is made available")
            if ("cleared",) not in st.mon: pass
            st.mon[("slotfreed",)] = True
        if name is None:
            # the destructor of the store
            st.mon[("destroyed",)] = args[0] if args else None

    def on_exit(self, A, st, site, ret):
        ok = ret is not None and truth(st, mkicmp("eq", ret, C(0, ret.w))) is not False
        a = self.args(A)
        self.exits.add("%s: %s" % (site.loc(), ok))
        if self.op == "acquire":
            out = A.load(st, A.args[0], 8) if truth(st, mkicmp("eq", A.args[0], NULL)) is False else NULL
            given = truth(st, mkicmp("eq", out, NULL)) is not True
            if given and ("rc",) not in st.mon:
                A.report("object-without-reference", site, "an object is handed out without counting the reference")
            if ok and not given: A.report("ok-without-object", site, "success is reported without handing out an object")
            if given:
                rc = st.mon.get(("rc",))
                if rc is not None and suboff(rc[0], mkbin(None, "add", rc[1], C(1, rc[1].w), rc[1].w)) is not C(0): A.report("wrong-count", site, "the reference count does not grow by one")
        elif self.op == "release":
            rc = st.mon.get(("rc",))
            if ok and rc is None: A.report("release-without-decrement", site, "success is reported without giving up the reference")
            if rc is not None and mkbin(None, "add", rc[0], C(1, rc[1].w), rc[1].w) is not rc[1] and rc[0] is not mkbin(None, "sub", rc[1], C(1, rc[1].w), rc[1].w): A.report("wrong-count", site, "the reference count does not shrink by one")
        elif self.op == "add":
            if ok:
                if ("put",) not in st.mon: A.report("object-not-stored", site, "success is reported without storing the object")
                elif st.mon.get(("own",)) is not st.mon[("put",)]: A.report("owner-not-stored", site, "success is reported for a slot whose owner is not the caller")
                else:
                    h = A.load(st, A.args[0], 8)
                    if mkbin(None, "mul", h, C(self.size), 64) is not st.mon[("put",)]: A.report("other-slot", site, "the handle returned is not the slot the object is stored in")
        elif self.op == "remove":
            if ("cleared",) in st.mon:
                if ("slotfreed",) not in st.mon: A.report("slot-not-freed", site, "the slot stays allocated after its object is taken out")
                if st.mon.get(("destroyed",)) is not st.mon[("cleared",)]: A.report("object-not-destroyed", site, "the object taken out of its slot is not destroyed")
            elif ("slotfreed",) in st.mon: A.report("object-left", site, "a slot is made available while it still refers to its object")
            elif ("destroyed",) in st.mon: A.report("object-left", site, "an object is destroyed while its slot still refers to it")


def m_allocate(A, st, name, args, site, w):
    s0 = st.copy()
    v = A.fresh(st, "call", name, site, w=64)
    constrain(st, v, ((0, (1 << 64) - 2),))
    return [(s0, C((1 << 64) - 1, 64)), (st, v)]


def m_slotfree(A, st, name, args, site, w):
    return [(st, None)]


FAMILY = re.compile(r"^(key|cipher|mac|svp)_store_")


class Caller:
    """What a command passes to the store layer."""
    def __init__(self):
        self.sites = set()

    def coverage(self):
        return {"store_calls_checked": self.sites}

    def clientfield(self, A, st, v):
        """name of the client's store if v is one"""
        if v.op == "ld" and isinstance(v.a[1], int) and v.a[0].kind == "deref":
            b = v.a[0].base
            r = st.mon.get(("ref", b))
            if r is not None and r[2].op == "sym" and r[2].a[:2] == ("const", "client_store"):
                for n in ("key", "cipher", "mac", "svp"):
                    if v.a[1] == A.p.field("client_s", n + "_store"): return n
        return None

    def on_call(self, A, st, name, args, site):
        if name is None: return
        n = len(A.args)
        uuid = A.args[-1]
        client = A.args[-2] if n > 1 else None
        op = None
        if name.startswith("object_store_"): op = name[13:]
        m = FAMILY.match(name)
        if op in ("acquire", "release", "remove", "add"):
            self.sites.add(site.loc() + " " + name)
            if args[-1] is not uuid: A.report("wrong-caller", site, "%s is called for a UUID that is not the caller's" % name)
            store = args[1] if op in ("acquire", "add") else args[0]
            if store.op == "sym" and store.a[:2] == ("const", "client_store"):
                if op in ("acquire", "release", "remove"):
                    slot = args[2] if op == "acquire" else args[1]
                    if slot is not client: A.report("wrong-client", site, "%s is called for a client that is not the caller's handle" % name)
            elif self.clientfield(A, st, store) is None:
                A.report("foreign-store", site, "%s is called with a store that does not come from the client the caller's handle designates" % name)
        elif m:
            F = A.p.fns.get(name)
            if F is None: return
            for i, a in enumerate(args):
                f = self.clientfield(A, st, a)
                if f is not None:
                    self.sites.add(site.loc() + " " + name)
                    # a store of one kind may be used where its own kind is expected
                    want = F.ditypes[i + 1].replace("*", "").strip() if len(F.ditypes) > i + 1 else ""
                    if want != f + "_store_t" and f + "_store" not in want: A.report("wrong-store", site, "%s is given the client's %s store" % (name, f))
            for i, a in enumerate(args):
                if i < len(F.argnames) and F.argnames[i] == "caller_uuid" and a is not uuid: A.report("wrong-caller", site, "%s is called for a UUID that is not the caller's" % name)
        else:
            F = A.p.fns.get(name)
            if F is None or F.blocks is None and name not in A.models: return
            for i, a in enumerate(args):
                f = self.clientfield(A, st, a)
                if f is not None and len(F.ditypes) > i + 1 and "_store_t" in F.ditypes[i + 1] and not F.ditypes[i + 1].startswith((f + "_", "object_")): A.report("wrong-store", site, "%s is given the client's %s store" % (name, f))


def run(tier):
    P = program("ta")
    base = dict(models.MODELS)
    jobs = []
    for op in ("acquire", "release", "remove", "add"):
        jobs.append(Job("ta", "object_store_" + op, lambda op=op: [monitors.Locks(), Slots(op)], models=dict(base, slots_allocate=m_allocate, slots_free=m_slotfree), tag=op))
    es = ta_entries(P)
    for e in es: jobs.append(Job("ta", e, lambda: [Caller()]))
    jobs += dispatch.identity_jobs(P)
    res = run_jobs(jobs)
    cov = summarise(res, jobs)
    need(cov.get("identities_checked", 0) >= 60, "the dispatcher is not where the rule looks for it")
    need(cov.get("guarded_effects", 0) >= 3 and cov.get("store_calls_checked", 0) >= 60, "the store operations are not where the rule looks for them")
    return {"reports": merge(res), "coverage": cov}
