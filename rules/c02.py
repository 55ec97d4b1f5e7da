"""Store concurrency and reference discipline.  (1) In the bodies of the object store every access to mutable shared state (slots, reference counts,
owners, release count, shut-down flag, slot bitmap) happens with the store's own mutex held; a slot's object is taken out for destruction only in a
critical section that found its reference count zero; a reference is handed out only when the store is not shutting down and given up only for the
object that is in the slot and with a count above zero; every mutex locked is unlocked on every path and none is unlocked that is not held.
(2) In every command, on every path: each reference acquired from a store is released exactly once with the store, handle and caller it was acquired
with, an object that is shared between threads (cipher, mac, svp) is touched only while its own mutex is held, and never after its release; mutexes
are balanced.  (3) A global variable that is written after initialisation is accessed only under one common mutex, atomically, or from run-once or
exit callbacks."""
from driver import Job, run_jobs, program, merge, summarise, ta_entries, NoAnswer, need
from core import *
import contracts, models, monitors
from rules.c01 import m_allocate, m_slotfree
import re

WEAK |= {"objeq"}
EXCL = {"cipher": "cipher_s", "mac": "mac_s", "svp": "svp_s"}


class StoreLock:
    """Shared fields of the object store under its mutex."""
    def __init__(self, op):
        self.op = op; self.acc = set()

    def coverage(self):
        return {"shared_accesses": self.acc}

    def lay(self, A):
        if hasattr(self, "s"): return
        P = A.p
        self.s = {n: P.field("object_store_s", n) for n in ("objects", "slot_count", "is_shutting_down", "mutex", "slots", "release_count", "object_free", "name")}
        self.e = {n: P.field("store_object_t", n) for n in ("object", "owner_uuid", "reference_count")}
        self.esize = P.di["store_object_t"]["size"]
        self.bit = P.field("slots_s", "bitfield")
        self.store = [a for a in A.args if A.entry.ditypes[A.args.index(a) + 1].startswith("object_store_t")][0]

    def shared(self, A, p, site):
        """Name of the shared field p designates."""
        self.lay(A)
        o, off = as_ptr(p)
        if o.kind != "deref": return None
        if o.base is self.store:
            for n in ("is_shutting_down", "release_count"):
                if off == self.s[n]: return n
            return None
        b = o.base
        if b.op == "ld" and b.a[0].kind == "deref" and b.a[0].base is self.store:
            if b.a[1] == self.s["objects"]: return "slot"
            return None
        if b.op == "ld" and b.a[1] == self.bit and b.a[0].kind == "deref" and b.a[0].base.op == "ld" and b.a[0].base.a[1] == self.s["slots"]: return "bitmap"
        return None

    def locked(self, A, st):
        return ("lock", mkptr(deref(self.store), self.s["mutex"])) in st.mon

    def check(self, A, st, p, site, what):
        n = self.shared(A, p, site)
        if n is None: return
        if any(x.startswith("slots_shutdown") for x in site.chain()): return   # nobody else uses a store that is being destroyed
        self.acc.add("%s %s of %s" % (site.loc(), what, n))
        if not self.locked(A, st) and not A.atomic:
            A.report("unlocked-access", site, "%s of the shared %s of an object store without holding its mutex" % (what, n))

    def on_load(self, A, st, p, v, w, site):
        A_ = A
        self.check(A, st, p, site, "read")

    def on_store(self, A, st, p, v, w, site):
        self.check(A, st, p, site, "write")
        self.lay(A)
        o, off = as_ptr(p)
        if o.kind == "deref" and o.base.op == "ld" and o.base.a[1] == self.s["objects"] and o.base.a[0] is deref(self.store):
            if v is NULL and w == 8 and self.op != "add":
                rc = self.field(A, st, o, off, "object", "reference_count")
                if rc is not None and truth(st, mkicmp("eq", rc, C(0, rc.w))) is not True:
                    A.report("destroyed-while-referenced", site, "the object of a slot is taken out for destruction in a critical section that did not find its reference count zero")
            elif self.op == "release" and v.op == "bin" and v.a[0] in ("add", "sub") and isc(v.a[2]):
                old = v.a[1]
                if truth(st, mkicmp("eq", old, C(0, old.w))) is not False:
                    A.report("reference-underflow", site, "the reference count is decreased without being known to be above zero")
                ob = self.field(A, st, o, off, "reference_count", "object")
                if ob is not None and truth(st, mkicmp("eq", ob, A.args[2])) is not True:
                    A.report("foreign-release", site, "a reference is given up for an object that was not found to be the one in the slot")
            elif self.op == "acquire" and v.op == "bin" and v.a[0] in ("add", "sub"):
                f = A.load(st, mkptr(deref(self.store), self.s["is_shutting_down"]), 1)
                t = truth(st, mkicmp("eq", f, C(0, f.w)))
                if t is not True: A.report("acquired-during-shutdown", site, "a reference is handed out without the store being known not to shut down")

    def field(self, A, st, o, off, frm, to):
        x = suboff(off, self.e[frm])
        q = mkptr(o, mkbin(None, "add", x, C(self.e[to]), 64))
        return A.load(st, q, 8)

    def on_memcpy(self, A, st, d, s, n, site):
        self.check(A, st, d, site, "write"); self.check(A, st, s, site, "read")

    def on_ext(self, A, st, name, args, ret, site):
        if name in ("memory_memcmp_constant", "memcmp", "CRYPTO_memcmp"):
            for a in args[:2]: self.check(A, st, a, site, "read")

    def on_mutex(self, A, st, name, m, site):
        """What was read before is not known any more outside of the critical section."""
        self.lay(A)
        if name == "pthread_mutex_unlock" and m is mkptr(deref(self.store), self.s["mutex"]):
            objs = [o for o in set(st.mem) | {deref(A.load(st, mkptr(deref(self.store), self.s["objects"]), 8))} if self.shared(A, mkptr(o, mksym(o)), site) in ("slot", "bitmap")]
            for o in objs: A.havoc(st, mkptr(o, 0), (site, "unlock", o.n))
            for n, w in (("is_shutting_down", 1), ("release_count", 8)): A.havoc_range(st, mkptr(deref(self.store), self.s[n]), C(w), (site, "unlock", n))


class Ledger:
    """What an operation of the object store does to the books: references counted one by one, exactly when it reports so; an object taken out is destroyed,
    and its slot given back, exactly once."""
    def __init__(self, op):
        self.op = op; self.sites = set(); self.exits = set()

    def coverage(self):
        return {"book_entries": self.sites, "book_exits": self.exits}

    def key(self, st):
        return frozenset((k, v) for k, v in st.mon.items() if isinstance(k, tuple) and k[0] == "book")
    hardkey = key

    def field(self, A, off):
        if isinstance(off, int) or isc(off):
            off = off if isinstance(off, int) else off.a[0]
            return next((f for f, x in self.e.items() if off % self.esize == x), None)
        for f, x in self.e.items():
            y = suboff(off, x)
            if isinstance(y, V) and y.op == "bin" and y.a[0] == "mul" and y.a[2] is C(self.esize, 64): return f
        return None

    def note(self, A, st, k, v, site):
        self.sites.add("%s %s" % (site.loc(), k))
        st.mon[("book", k)] = v

    def on_store(self, A, st, p, v, w, site):
        StoreLock.lay(self, A)
        o, off = as_ptr(p)
        if o.kind == "deref" and o.base is self.store and off == self.s["release_count"]: self.note(A, st, "release", True, site)
        if not (o.kind == "deref" and o.base.op == "ld" and o.base.a[1] == self.s["objects"] and o.base.a[0] is deref(self.store)): return
        f = self.field(A, off)
        if f == "reference_count":
            old = A.load(st, p, 8)
            if v is mkbin(st, "add", old, C(1, 64), 64): d = 1
            elif v is mkbin(st, "sub", old, C(1, 64), 64) or v is mkbin(st, "add", old, C((1 << 64) - 1, 64), 64): d = -1
            elif self.op == "add" and isc(v) and v.a[0] == 0: return
            else:
                A.report("reference-count", site, "the reference count is set to something else than one more or one less"); return
            self.note(A, st, "count", st.mon.get(("book", "count"), 0) + d, site)
        elif f == "object" and self.op == "remove":
            old = A.load(st, p, 8)
            if v is NULL: self.note(A, st, "taken", old, site)
            else: A.report("slot-overwritten", site, "the object of a slot is replaced while it is removed")
        elif f == "object" and self.op == "add": self.note(A, st, "put", v, site)

    def on_call(self, A, st, name, args, site):
        StoreLock.lay(self, A)
        if name == "slots_free": self.note(A, st, "slot", st.mon.get(("book", "slot"), 0) + 1, site)
        elif name is None and args:
            if ("book", "destroyed") in st.mon: A.report("destroyed-twice", site, "an object is destroyed a second time")
            self.note(A, st, "destroyed", args[0], site)

    def on_exit(self, A, st, site, ret):
        B = {k[1]: v for k, v in st.mon.items() if isinstance(k, tuple) and k[0] == "book"}
        t = truth(st, mkicmp("eq", ret, C(0, ret.w)))
        self.exits.add(site.loc())
        n = B.get("count", 0)
        want = {"acquire": 1, "release": -1}.get(self.op, 0)
        if n != (want if t is True else 0 if t is False else n) or t is None and n not in (0, want):
            A.report("reference-count", site, "object_store_%s %s and leaves the reference count %+d" % (self.op, "succeeds" if t is True else "fails" if t is False else "returns", n))
        if self.op == "remove":
            if "taken" in B:
                if truth(st, mkicmp("eq", B["taken"], NULL)) is not True and B.get("destroyed") is not B["taken"]: A.report("not-destroyed", site, "an object taken out of its slot is not given to the destructor of the store")
                if B.get("slot", 0) != 1: A.report("slot-not-freed", site, "the slot of an object that was taken out is not given back once")
            else:
                if "destroyed" in B: A.report("destroyed-in-slot", site, "an object is destroyed that still is in its slot")
                if "slot" in B: A.report("slot-freed", site, "a slot is given back that still holds its object")
                if t is not False and "release" in B: A.report("not-removed", site, "object_store_remove reports success and has not removed the object")
        elif self.op == "add" and t is True and B.get("put") is not A.args[2]:
            o = A.args[2 if len(A.args) == 4 else 1]
            if B.get("put") is not o: A.report("not-added", site, "object_store_add reports success and the object is not in the slot")


def mksym(o):
    return 0


class Discipline:
    """References and exclusive use in the commands."""
    def __init__(self):
        self.refs = set(); self.touched = set()

    def coverage(self):
        return {"acquisitions": self.refs, "exclusive_accesses": self.touched}

    def key(self, st):
        return frozenset((k, v[0]) for k, v in st.mon.items() if isinstance(k, tuple) and k[0] == "ref")
    hardkey = key

    def kind(self, A, r):
        s = r[2]
        if s.op == "ld" and isinstance(s.a[1], int):
            for n in ("key", "cipher", "mac", "svp"):
                if s.a[1] == A.p.field("client_s", n + "_store"): return n
        return None

    def on_badrelease(self, A, st, o, r, args, site):
        if r is None: A.report("unmatched-release", site, "a reference is released that is not held")
        else: A.report("unmatched-release", site, "the reference acquired at %s is released with another store, handle or caller" % r[0])

    def on_release(self, A, st, o, r, site):
        st.mon[("gone", o)] = site.loc()
        for k in st.mon:
            if isinstance(k, tuple) and k[0] == "lock" and as_ptr(k[1])[0] is deref(o):
                A.report("released-while-locked", site, "the reference of an object is given up while its mutex is held")

    def on_ext(self, A, st, name, args, ret, site):
        if name == "object_store_acquire":
            self.refs.add(site.loc())
            x = A.load(st, args[0], 8) if not isc(args[0]) else NULL
            st.mon.pop(("gone", x), None)

    def on_deref(self, A, st, p, w, site, what):
        o, off = as_ptr(p)
        if o.kind != "deref": return None
        r = st.mon.get(("ref", o.base))
        if r is None:
            g = st.mon.get(("gone", o.base))
            if g is not None: A.report("use-after-release", site, "%s of an object whose reference was released at %s" % (what, g))
            return None
        k = self.kind(A, r)
        if k is None: return None
        if k in EXCL:
            m = A.p.field(EXCL[k], "mutex")
            if isinstance(off, int) and off >= m and off < m + 40: return None
            self.touched.add(site.loc())
            if ("lock", mkptr(deref(o.base), m)) not in st.mon:
                A.report("unlocked-object", site, "%s of a shared %s object without holding its mutex" % (what, k))
        elif what == "store":
            A.report("shared-object-written", site, "a key object shared between threads is written")
        return None

    def on_exit(self, A, st, site, ret):
        for k, v in st.mon.items():
            if isinstance(k, tuple) and k[0] == "ref":
                F = A.p.fns[v[1]]
                A.report("reference-leak", Site(A, F, int(v[0].rsplit(":", 1)[1]), site.ctx, None), "the reference acquired here is not released when %s returns" % A.entry.name, {"exit": site.loc()})


def m_takes_lock(A, st, name, args, site, w):
    r = models.m_mutex(A, st, name, args, site, w)
    return r


# ---------------------------------------------------------------- globals
class Globals:
    def __init__(self, names):
        self.names = names; self.acc = set()

    def coverage(self):
        return {"global_accesses": self.acc}

    def note(self, A, st, p, what, site):
        if p.op != "ptr" or p.a[0].kind != "global" or p.a[0].key not in self.names: return
        locks = sorted(show(k[1]) for k in st.mon if isinstance(k, tuple) and k[0] == "lock" and as_ptr(k[1])[0].kind == "global")
        self.acc.add((p.a[0].key, what, ",".join(locks), A.atomic, site.file(), re.sub(r"\.\d+$", "", site.F.name), site.line))

    def on_load(self, A, st, p, v, w, site): self.note(A, st, p, "read", site)
    def on_store(self, A, st, p, v, w, site): self.note(A, st, p, "write", site)

    def on_memcpy(self, A, st, d, s, n, site):
        A.atomic = False
        self.note(A, st, d, "write", site); self.note(A, st, s, "read", site)

    def on_ext(self, A, st, name, args, ret, site):
        A.atomic = False
        if name is None or name.startswith("pthread_") or name in ("memcpy", "memmove", "log_entry"): return
        F = A.p.fns.get(name)
        for i, a in enumerate(args):
            if a.op != "ptr": continue
            if name in models.OUT:
                if i in models.OUT[name]: self.note(A, st, a, "write", site)
            elif name in A.models: pass
            elif F is not None and len(F.ditypes) > i + 1 and F.ditypes[i + 1].startswith("const "): pass
            else: self.note(A, st, a, "write", site)


ONCEFN = ("pthread_once", "call_once", "atexit")


def callbacks(P):
    r = set()
    for F in P.fns.values():
        for b in (F.blocks or ()):
            for ins in (F.blocks[b] if isinstance(F.blocks, dict) else b):
                if ins[1] == "call":
                    n = callee(ins)
                    if n in ONCEFN:
                        for a in ins[4]:
                            if isinstance(a, (list, tuple)) and a[0] == "f": r.add(a[1])
    return r


def callee(ins):
    c = ins[3]
    return c[1] if isinstance(c, (list, tuple)) and c[0] == "f" else None


def mentions(x, pred):
    if isinstance(x, (list, tuple)):
        if len(x) >= 2 and x[0] == "g" and pred(x[1]): return True
        return any(mentions(y, pred) for y in x)
    return False


def fncalls(x, out):
    if isinstance(x, (list, tuple)):
        if len(x) >= 2 and x[0] == "f" and isinstance(x[1], str): out.add(x[1])
        for y in x: fncalls(y, out)


def global_jobs(prog):
    P = program(prog)
    mut = {g for g, d in P.d["globals"].items() if not d["const"] and d.get("ditype") not in ("once_flag", "mtx_t") and d.get("file", "").find("/reference/") >= 0}
    cb = callbacks(P)
    users = set(); calls = {}
    written = set()
    for n, F in P.fns.items():
        if F.blocks is None: continue
        s = set()
        for b in F.blocks:
            for ins in (F.blocks[b] if isinstance(F.blocks, dict) else b):
                fncalls(ins[2:], s)
                for g in mut:
                    if mentions(ins[2:], lambda y: y == g):
                        users.add(n)
                        if ins[1] in ("store", "call") and not (ins[1] == "call" and callee(ins) and callee(ins).startswith(("pthread_", "log_entry"))): 
                            if n not in cb: written.add(g)
                        elif ins[1] in ("gep", "phi", "select", "cast") and n not in cb: written.add(g)
        calls[n] = s
    # functions that reach a user of a written global
    reach = set(users) | {n for n, c in calls.items() if any(x.startswith("pthread_") for x in c)}
    while True:
        new = {n for n, s in calls.items() if n not in reach and s & reach}
        if not new: break
        reach |= new
    callers = {}
    for n, s in calls.items():
        for c in s: callers.setdefault(c, set()).add(n)
    roots = set()
    for u in users:
        # up to the first function other files can call
        work = [u]; seen = set()
        while work:
            x = work.pop()
            if x in seen: continue
            seen.add(x)
            if x in cb: continue
            if not P.fns[x].d.get("internal", False) or not callers.get(x): roots.add(x)
            else: work += [c for c in callers[x] if c in P.fns]
    opaque = {n for n, F in P.fns.items() if F.blocks is not None and n not in reach}
    return [Job(prog, r, lambda: [monitors.Locks(), Globals(mut)], models=dict(models.MODELS), opaque=tuple(opaque), tag="globals/" + prog) for r in sorted(roots)], mut, cb


def judge_globals(res):
    acc = {}
    for r in res:
        for a in r.get("cov", {}).get("global_accesses", ()):
            acc.setdefault(a[0], set()).add(tuple(a))
    reports = []
    for g, s in sorted(acc.items()):
        if not any(a[1] == "write" for a in s): continue
        plain = [a for a in s if not a[3]]
        if not plain: continue
        sets = [set(a[2].split(",")) - {""} for a in plain]
        if len(plain) == len(s) and set.intersection(*sets): continue
        allsets = [set(a[2].split(",")) - {""} for a in s]
        if set.intersection(*allsets): continue
        done = set()
        for a in sorted(plain, key=lambda a: (a[4], a[6])):
            if a[2] and any(not x for x in sets): continue
            k = (a[1], a[5])
            if k in done: continue
            done.add(k)
            reports.append({"rule": "global-race", "file": a[4], "function": a[5], "line": a[6], "what": "%s of the global %s, which is written after initialisation, without the mutex that protects it" % (a[1], g), "path": []})
    return reports, len(acc)


def run(tier):
    P = program("ta")
    base = dict(models.MODELS)
    jobs = []
    for op in ("acquire", "release", "remove", "add", "shutdown"):
        jobs.append(Job("ta", "object_store_" + op, lambda op=op: [monitors.Locks(), StoreLock(op)], models=base, tag=op))
    m = dict(base)
    m["slots_free"] = m_slotfree; m["slots_allocate"] = m_allocate
    for op in ("acquire", "release", "remove", "add"): jobs.append(Job("ta", "object_store_" + op, lambda op=op: [Ledger(op)], models=m, tag=op + " books"))
    n1 = len(jobs)
    for e in ta_entries(P): jobs.append(Job("ta", e, lambda: [monitors.Locks(), Discipline()]))
    n2 = len(jobs)
    ng = 0
    for prog in ("ta", "ci", "cl"):
        js, mut, cb = global_jobs(prog)
        ng += len(mut)
        jobs += js
    res = run_jobs(jobs)
    greps, gacc = judge_globals(res[n2:])
    cov = summarise([{k: v for k, v in r.items() if k != "cov"} | {"cov": {k: v for k, v in r.get("cov", {}).items() if k != "global_accesses"}} for r in res], jobs)
    cov["mutable_globals"] = ng; cov["globals_accessed"] = gacc
    need(cov.get("shared_accesses", 0) >= 15, "the shared fields of the object store are not where the rule looks for them")
    need(cov.get("book_entries", 0) >= 5 and cov.get("book_exits", 0) >= 4, "the books of the object store are not where the rule looks for them")
    need(cov.get("acquisitions", 0) >= 5 and cov.get("exclusive_accesses", 0) >= 8, "no acquisitions found")
    return {"reports": merge(res) + greps, "coverage": cov}
