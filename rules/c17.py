"""No deadlock.  In every command, store function, destructor and run-once initialiser of the trusted application and the client libraries: what may be
waited for (a mutex, or that the references to an object are given back) is related to what is held at that point (mutexes and references) on every path;
the relation between the kinds of locks must have no cycle, two locks of the same kind are taken in one order of their handles everywhere, a mutex
that is not recursive is not locked twice, nobody sleeps with a mutex held that others need, and everything taken is given back on every path."""
import re
from driver import Job, run_jobs, program, merge, summarise, ta_entries, NoAnswer, need
from core import *
from core import _ctxinfo
import contracts, models, monitors
from rules import c02, c07

SVP = 1  # SA_BUFFER_TYPE_SVP
WEAK.add("ordok")
STORES = ("key_store", "cipher_store", "mac_store", "svp_store")
SLEEP = {"sleep", "usleep", "nanosleep", "sched_yield", "thrd_yield", "thrd_sleep", "pthread_cond_wait", "pthread_join"}
MUTEXOF = {"object_store_acquire": 1, "object_store_release": 0, "object_store_add": 1, "object_store_remove": 0, "object_store_size": 0, "object_store_shutdown": 0}


class Waits:
    def __init__(self):
        self.fine = set(); self.want = set(); self.edges = set(); self.waits = set(); self.kinds = set(); self.pairs = set(); self.relock = set(); self.indirect = set(); self.fns = set()

    def coverage(self):
        return {"x_edges": self.edges, "x_waits": self.waits, "x_kinds": self.kinds, "x_pairs": self.pairs, "x_relock": self.relock, "x_indirect": self.indirect, "x_fns": self.fns}

    def again(self):
        """When two locks of a kind seem unordered, run again and keep for them that one of the handles is not used or they are in order."""
        n = len(self.fine); self.fine |= self.want; self.want = set()
        if len(self.fine) == n or len(self.fine) > 40: return False
        self.pairs = set()
        return True

    def siblings(self, st, v):
        """Known ranges of the buffer type next to the handle."""
        return [g for x, g in st.rg.items() if v.op == "ld" and x.op == "ld" and x.a[0] is v.a[0] and x.w == 32]

    def ordered(self, st, i, j):
        """The two are not both handles of buffers to be locked, or the first is not above the second."""
        return ("ordok", i, j) in st.mon or truth(st, mkicmp("ult", j, i)) is False or any(not inter(g, ((SVP, SVP),)) for v in (i, j) for g in self.siblings(st, v))

    def on_join(self, A, a, b, r):
        for i, j in self.fine:
            if self.ordered(a, i, j) and self.ordered(b, i, j): r.mon[("ordok", i, j)] = True

    def key(self, st):
        return frozenset((k, v[0]) for k, v in st.mon.items() if isinstance(k, tuple) and k[0] == "ref") | frozenset(k for k in st.mon if isinstance(k, tuple) and k[0] == "attr")

    def hardkey(self, st): return self.key(st)

    # ---- names
    def store(self, A, v):
        if v.op == "ld" and isinstance(v.a[1], int):
            for n in STORES:
                if "client_s" in A.p.di and v.a[1] == A.p.field("client_s", n): return n
        if v.op == "sym" and v.a[:2] == ("const", "client_store"): return "client_store"
        if v in A.args: return "store"
        return "a store"

    def lock(self, A, st, m):
        """Kind and instance of a mutex."""
        o, off = as_ptr(m)
        if o.kind == "global": return "mutex " + str(o.key), None
        if o.kind == "deref":
            r = st.mon.get(("ref", o.base))
            if r is not None: return "mutex of objects in " + self.store(A, r[2]), r[3]
            if o.base in A.args:
                t = A.entry.ditypes[A.args.index(o.base) + 1].replace("*", "").replace("const ", "").strip()
                return "internal mutex of " + ("store" if t == "object_store_t" else t), None
        return "mutex", None

    def held(self, A, st):
        r = []
        for k, v in st.mon.items():
            if not isinstance(k, tuple): continue
            if k[0] == "lock": r.append(self.lock(A, st, k[1]))
            elif k[0] == "ref": r.append(("reference from " + self.store(A, v[2]), v[3]))
        return r

    def where(self, site):
        c = site.ctx
        while site.file().endswith("threads.h") and c is not None and c >= 0 and _ctxinfo[c][0] is not None and _ctxinfo[c][0] >= 0:
            p, fn, ln = _ctxinfo[c]
            site = Site(site.A, site.A.p.fns[_ctxinfo[p][1]], ln, p, site.ins); c = p
        return (site.file(), re.sub(r"\.\d+$", "", site.F.name), site.line, tuple(str(x) for x in site.chain()))

    def wait(self, A, st, node, inst, site):
        site = models.climb(A, site)
        w = self.where(site)
        self.waits.add((node, w))
        for n, i in self.held(A, st): 
            if n != node: self.edges.add((n, node, w))

    # ---- events
    def on_mutex(self, A, st, name, m, site):
        if name != "pthread_mutex_lock": return
        node, inst = self.lock(A, st, m)
        s2 = models.climb(A, site)
        if ("lock", m) in st.mon and st.mon[("lock", m)][1] > 1 or (("lock", m) in st.mon and getattr(self, "first", False)):
            self.relock.add((node, self.where(s2))); return
        self.wait(A, st, node, inst, site)
        for k in st.mon:
            if isinstance(k, tuple) and k[0] == "lock" and k[1] is not m:
                n, i = self.lock(A, st, k[1])
                if n != node: continue
                if i is None or inst is None: d = "?"
                elif i is inst: d = "="
                else:
                    lt = truth(st, mkicmp("ult", i, inst)); gt = truth(st, mkicmp("ult", inst, i))
                    d = "<" if lt is True else ">" if gt is True else "<=" if gt is False else ">=" if lt is False else "?"
                if d == "?" and ("ordok", i, inst) in st.mon and all(g == ((SVP, SVP),) for v in (i, inst) for g in self.siblings(st, v)): d = "<="
                self.pairs.add((node, d, self.where(s2)))
                if d == "?" and i is not None and inst is not None: self.want.add((i, inst))

    def on_call(self, A, st, name, args, site):
        if name in MUTEXOF and name in A.models:
            s = self.store(A, args[MUTEXOF[name]])
            self.wait(A, st, "internal mutex of " + s, None, site)
            if name in ("object_store_remove", "object_store_shutdown"):
                node = "reference from " + s
                w = self.where(models.climb(A, site))
                self.waits.add((node, w))
                for n, i in self.held(A, st): self.edges.add((n, node, w))
        elif name in SLEEP:
            for k, v in st.mon.items():
                if isinstance(k, tuple) and k[0] == "lock":
                    A.report("waits-with-lock-held", models.climb(A, site), "%s with the mutex locked at %s held: the threads waited for may need it" % (name, v[0]))
        elif name is None:
            for k in st.mon:
                if isinstance(k, tuple) and k[0] == "lock": self.indirect.add((self.lock(A, st, k[1])[0], self.where(site)))
        elif name == "pthread_mutexattr_settype" and isc(args[1]):
            st.mon[("attr", as_ptr(args[0])[0])] = args[1].a[0]
        elif name == "pthread_mutex_init":
            n = self.lock(A, st, args[0])[0]
            a = args[1] if len(args) > 1 else NULL
            t = st.mon.get(("attr", as_ptr(a)[0]), 0) if not isc(a) else 0
            o, off = as_ptr(args[0])
            F = site
            # the kind by where it is made: the object the mutex is in
            st.mon.pop(("attr", as_ptr(a)[0]), None) if not isc(a) else None
            self.kinds.add((n, o.kind, t, self.where(models.climb(A, site))))

    def on_exit(self, A, st, site, ret):
        for o, cells in st.mem.items():
            for off, (v, w) in cells.items():
                if w == 8 and ("freefn", v) in st.mon and not isinstance(off, V): self.fns.add((o.key if o.kind == "global" else off, st.mon[("freefn", v)]))


class ReleaseCount:
    """The number of releases under way, which shutting down waits for, is given back."""
    def __init__(self):
        self.exits = 0; self.sites = set()

    def coverage(self):
        return {"release_count_writes": self.sites}

    def cell(self, A):
        return mkptr(deref(A.args[0]), A.p.field("object_store_s", "release_count"))

    def on_store(self, A, st, p, v, w, site):
        if p is self.cell(A): self.sites.add(site.loc())

    def on_exit(self, A, st, site, ret):
        if truth(st, mkicmp("eq", A.args[0], NULL)) is True: return
        o, off = as_ptr(self.cell(A))
        v = A.load(st, self.cell(A), 8); v0 = mk("ld", o, off, None, w=64)
        if truth(st, mkicmp("eq", v, v0)) is not True:
            A.report("release-count", site, "the count of releases under way, for which shutting down waits, is not what it was when %s returns" % A.entry.name)


def m_lock_ok(A, st, name, args, site, w):
    return models.m_mutex(A, st, name, args, site, w)[-1:]


def report(rule, w, what):
    return {"rule": rule, "file": w[0], "function": w[1], "line": w[2], "what": what, "path": list(w[3])}


def cycles(edges):
    """Edges that lie on a cycle."""
    g = {}
    for a, b, w in edges: g.setdefault(a, set()).add(b)
    def reach(x):
        seen = set(); work = [x]
        while work:
            y = work.pop()
            for z in g.get(y, ()):
                if z not in seen: seen.add(z); work.append(z)
        return seen
    r = {n: reach(n) for n in g}
    return [(a, b, w) for a, b, w in edges if a in r.get(b, ()) or a == b]


TAKES = re.compile(r"^(pthread_|object_store_|key_store_|otp_|client_store_|call_once|sleep|usleep|nanosleep|sched_yield|thrd_)")


def uninvolved(P):
    """Longer functions that neither take nor give back anything, themselves or by what they call: their effects on memory are enough."""
    calls = {}
    for n, F in P.fns.items():
        if F.blocks is None: continue
        s = set(); k = 0
        for b in F.blocks:
            for ins in (F.blocks[b] if isinstance(F.blocks, dict) else b):
                k += 1
                c02.fncalls(ins[2:], s)
                if ins[1] == "call" and c02.callee(ins) is None: s.add("pthread_")
        calls[n] = (s, k)
    reach = {n for n, (s, k) in calls.items() if TAKES.match(n) or any(TAKES.match(x) for x in s)}
    while True:
        new = {n for n, (s, k) in calls.items() if n not in reach and s & reach}
        if not new: break
        reach |= new
    return {n for n, (s, k) in calls.items() if n not in reach and k >= 25}


def run(tier):
    P = program("ta")
    mon = lambda: [monitors.Locks(), Waits(), c02.Discipline()]
    opaque = tuple(sorted(uninvolved(P)))
    jobs = [Job("ta", e, mon, opaque=opaque) for e in ta_entries(P)]
    jobs += [j for j in c07.jobs_entries(P, lambda: [monitors.Locks(), Waits()]) if j.tag == "body" and j.entry not in contracts.JSON]
    m = dict(models.MODELS); m["pthread_mutex_lock"] = m_lock_ok
    jobs += [Job("ta", f, lambda: [ReleaseCount()], models=m, tag="release count") for f in ("object_store_remove", "object_store_release")]
    cbs = 0
    for prog in ("ta", "ci", "cl"):
        js, mut, cb = c02.global_jobs(prog)
        for j in js: j.monitors = lambda: [monitors.Locks(), Waits()]
        jobs += js
        Q = program(prog)
        for c in sorted(cb):
            if Q.fns[c].blocks is None: continue
            cbs += 1
            jobs.append(Job(prog, c, lambda: [monitors.Locks(), Waits()], models=dict(models.MODELS), opaque=js[0].opaque if js else (), tag="callback/" + prog))
    res = run_jobs(jobs)
    fns = {}
    for r in res:
        for k, f in r.get("cov", {}).get("x_fns", ()): fns[k] = f
    names = {P.field("client_s", n): n for n in STORES}
    d = {}
    for k, f in fns.items():
        d[names.get(k, "client_store")] = f
    need(len(d) >= 4, "the destructors of the stores were not found")
    dj = [Job("ta", f, mon, tag="destructor of " + s) for s, f in sorted(d.items())]
    dres = run_jobs(dj)
    edges = set(); pairs = set(); relock = set(); kinds = set(); waits = set(); ind = set()
    for r in res + dres:
        c = r.get("cov", {})
        edges |= {tuple(x) for x in c.get("x_edges", ())}; pairs |= set(c.get("x_pairs", ())); relock |= set(c.get("x_relock", ())); kinds |= set(c.get("x_kinds", ())); waits |= set(c.get("x_waits", ())); ind |= set(c.get("x_indirect", ()))
    reports = merge(res + dres)
    # an object is destroyed with the mutex of its store held
    for n, w in ind:
        if n == "internal mutex of store":
            for j, r in zip(dj, dres):
                s = j.tag.split()[-1]
                for node, w2 in r.get("cov", {}).get("x_waits", ()): edges.add(("internal mutex of " + s, node, tuple(w2)))
    for a, b, w in sorted(cycles(edges), key=str):
        reports.append(report("lock-order-cycle", w, "waits for %s while holding %s, and elsewhere it is waited for the other way round" % (b, a)))
    # two of a kind
    for node in sorted({p[0] for p in pairs}):
        ds = {p[1] for p in pairs if p[0] == node}
        up = ds & {"<", "<="}; down = ds & {">", ">="}
        bad = {"?"} | (down if up else set())
        for n, x, w in sorted(pairs, key=str):
            if n == node and x in bad: reports.append(report("unordered-locks", w, "a second %s is locked on a path that has not put the two in the order used elsewhere" % node))
    # locked twice
    plain = {k[0] for k in kinds if not k[2] & 1}
    for n, w in sorted(relock, key=str):
        if n in plain: reports.append(report("relock", w, "%s, which is not recursive, is locked although it is held" % n))
    for n, k, t, w in sorted(kinds, key=str):
        if k != "global" and not t & 1 and (any(p[0].startswith("mutex of objects") for p in pairs) or relock):
            f = w[0].split("/")[-1].split(".")[0]
            if any(f.split("_")[0] in p[0] and p[1] in ("<=", ">=", "=", "?") for p in pairs): reports.append(report("relock", w, "a mutex that one operation may lock twice is not recursive"))
    cov = summarise([{k: v for k, v in r.items() if k != "cov"} | {"cov": {k: v for k, v in r.get("cov", {}).items() if not k.startswith("x_")}} for r in res + dres], jobs + dj)
    cov["held_waits_for"] = sorted({"%s -> %s" % (a, b) for a, b, w in edges}); cov["waits"] = len(waits); cov["two_of_a_kind"] = sorted({"%s %s at %s:%d" % (n, x, w[0], w[2]) for n, x, w in pairs})
    cov["callbacks"] = cbs; cov["relocked"] = len(relock); cov["destructors"] = ["%s: %s" % x for x in sorted(d.items())]
    need(len(waits) >= 20 and pairs, "no waits found")
    return {"reports": reports, "coverage": cov}
