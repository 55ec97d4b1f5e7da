"""Spatial memory safety.  Every command is interpreted with its callees; each load, store, copy and library call that touches memory whose extent is
known (stack and global objects, heap memory made by the code, and caller memory described by a length next to it) must stay inside it, for all values
of the quantities involved, on every path."""
from driver import Job, run_jobs, program, merge, summarise, ta_entries, need, NoAnswer
import math, re
from core import *
import models, monitors, contracts
from rules.dispatch import handlers

M64 = (1 << 64)

# library function -> list of (pointer argument, length): ("a", k) value of argument k, ("d", k, w) what argument k points to, int
EXT = {
    "EVP_DigestUpdate": [(1, ("a", 2))], "EVP_DigestSignUpdate": [(1, ("a", 2))], "EVP_MAC_update": [(1, ("a", 2))], "EVP_MAC_init": [(1, ("a", 2))],
    "EVP_EncryptUpdate": [(3, ("a", 4)), (1, ("a", 4))], "EVP_DecryptUpdate": [(3, ("a", 4)), (1, ("a", 4))],
    "EVP_MAC_final": [(1, ("a", 3))], "RAND_bytes": [(0, ("a", 1))], "BN_bin2bn": [(0, ("a", 1))], "BN_bn2binpad": [(1, ("a", 2))], "BN_bn2nativepad": [(1, ("a", 2))],
    "EVP_PKEY_decrypt": [(1, ("d", 2, 8)), (3, ("a", 4))], "EVP_PKEY_encrypt": [(1, ("d", 2, 8)), (3, ("a", 4))], "EVP_PKEY_sign": [(1, ("d", 2, 8)), (3, ("a", 4))],
    "EVP_PKEY_derive": [(1, ("d", 2, 8))], "EVP_DigestSign": [(1, ("d", 2, 8)), (3, ("a", 4))], "EVP_DigestSignFinal": [(1, ("d", 2, 8))],
    "EVP_DigestVerify": [(1, ("a", 2)), (3, ("a", 4))], "EVP_PKEY_verify": [(1, ("a", 2)), (3, ("a", 4))], "EC_POINT_oct2point": [(2, ("a", 3))], "EC_POINT_point2oct": [(3, ("a", 4))],
    "ASN1_OCTET_STRING_set": [(1, ("a", 2))], "BIO_read": [(1, ("a", 2))], "BIO_new_mem_buf": [(0, ("a", 1))], "snprintf": [(0, ("a", 1))], "strncpy": [(0, ("a", 2))],
    "memchr": [(0, ("a", 2))], "EVP_CIPHER_CTX_ctrl": [(3, ("a", 2))], "yajl_parse": [(1, ("a", 2))], "OSSL_PARAM_construct_octet_string": [(1, ("a", 2))],
    "memory_memcmp_constant": [(0, ("a", 2)), (1, ("a", 2))], "memcmp": [(0, ("a", 2)), (1, ("a", 2))], "CRYPTO_memcmp": [(0, ("a", 2)), (1, ("a", 2))],
    "otp_unwrap_aes_gcm": [(0, ("a", 4)), (3, ("a", 4)), (5, ("a", 6)), (7, ("a", 8)), (9, ("a", 10))],
    "strftime": [(0, ("a", 1))], "b64_decode": [(2, ("a", 3)), (0, ("d", 1, 8))], "load_pkcs12_secret_key": [(0, ("d", 1, 8)), (2, ("d", 3, 8))],
    "otp_wrap_aes_cbc": [(0, ("a", 3)), (2, ("a", 3)), (4, 16)], "otp_unwrap_aes_cbc": [(0, ("a", 3)), (2, ("a", 3)), (4, 16)],
}


# functions whose result depends on their one argument alone (decided from their code in run())
PURE = set()


def pure(P):
    """Functions of one number that read and write nothing but their own variables and call nothing but the log."""
    out = set()
    for n, F in P.fns.items():
        if F.blocks is None or F.nargs != 1 or "*" in F.ditypes[1] or F.ditypes[0] == "void" or "*" in F.ditypes[0]: continue
        ok = all(i[1] in ("switch", "jmp", "br", "phi", "ret", "icmp", "select", "bin", "cast") or i[1] == "call" and i[3][:2] == ["f", "log_entry"] for b in F.blocks for i in b)
        if ok: out.add(n)
    return out


def const_string(A, v):
    """The string a pointer to constant data starts with."""
    o, off = as_ptr(v) if not isc(v) else (None, None)
    if o is None or o.kind != "global" or not isinstance(off, int): return None
    g = A.p.d["globals"].get(o.key if isinstance(o.key, str) else o.name)
    if g is None or not g.get("const") or "str" not in g: return None
    t = g["str"][off:]
    return t.split("\0")[0] if "\0" in t else None


def m_strlen(A, st, name, args, site, w):
    t = const_string(A, args[0])
    if t is not None: return [(st, C(len(t), w))]
    return [(st, A.fresh(st, "call", name, site, w=w))]


def m_memchr(A, st, name, args, site, w):
    # a place inside the memory, or nothing
    s0 = st.copy()
    n = args[2]
    r = rng(st, n)
    if isc(n) and not n.a[0]: return [(s0, NULL)]
    i = A.fresh(st, "call", name, site, extra="index", w=64)
    if not constrain(st, i, ((0, min(r[-1][1] - 1, (1 << 63) - 2)),)): return [(s0, NULL)]
    if not assume(st, mkicmp("ult", i, n), True): return [(s0, NULL)]
    return [(s0, NULL), (st, ptradd(args[0], i))]


def m_bioread(A, st, name, args, site, w):
    s0 = st.copy()
    if not isc(args[1]): A.havoc(st, args[1], (site, "out", 1)); A.havoc(s0, args[1], (site, "out", 1))
    models.fail_mark(A, s0, name, C((1 << 32) - 1, 32), site)
    r = A.fresh(st, "call", name, site, w=32)
    h = ((0, (1 << 31) - 1),)
    if not constrain(st, args[2], h) or not constrain(st, r, h) or not assume(st, mkicmp("slt", args[2], r), False): return [(s0, C((1 << 32) - 1, 32))]
    return [(s0, C((1 << 32) - 1, 32)), (st, r)]


def m_b64(A, st, name, args, site, w):
    """b64_decode(out, out_length, in, in_length, url): analysed on its own; reads in_length bytes, writes at most *out_length and says how many."""
    s0 = st.copy()
    models.fail_mark(A, s0, name, C(0, w), site)
    if any(isc(a) and not a.a[0] for a in args[:3]): return [(s0, C(0, w))]
    for s in (s0, st): A.havoc(s, args[0], (site, "out", 0))
    old = A.load(st, args[1], 8)
    A.havoc_range(st, args[1], C(8), (site, "out", 1))
    for s in (s0, st): s.mon.pop(("room", args[1]), None)
    forget()
    l = padd(lin(st, old), lin(st, A.load(st, args[1], 8)), -1)
    if low(st, l) < 0: st.mon[keyof(l)] = True
    return [(s0, C(0, w)), (st, C(1, w))]


def table(F):
    """A function that is one switch over its argument with a constant for each case: {value: constant}, default."""
    b = F.blocks
    if len(b[0]) != 1 or b[0][0][1] != "switch" or b[0][0][2] != ["r", 0]: return None
    last = [i for i, x in enumerate(b) if x[-1][1] == "ret"]
    if len(last) != 1 or b[last[0]][0][1] != "phi": return None
    phi = b[last[0]][0]
    val = {blk: v for v, blk in phi[4]}
    if any(v[0] != "c" for v in val.values()): return None
    def end(k):
        for _ in range(4):
            if k in val: return val[k][1]
            if b[k][-1][1] != "jmp": return None
            k = b[k][-1][2]
    t = {v: end(k) for v, k in b[0][0][4]}
    d = end(b[0][0][3])
    if d is None or None in t.values(): return None
    return t, d


def m_table(F):
    t, d = table(F)
    def m(A, st, name, args, site, w):
        a = args[0]
        if isc(a): return [(st, C(t.get(a.a[0], d), w))]
        out = []
        k = ("pure", name, a)
        for c in sorted(set(t.values())):
            s = st.copy()
            if not constrain(s, a, tuple((v, v) for v in sorted(t) if t[v] == c)): continue
            s.mon[("case", site.ctx, name, a)] = c
            out.append((s, C(c, w)))
        if constrain(st, a, compl(tuple((v, v) for v in sorted(t)), a.w)):
            st.mon[("case", site.ctx, name, a)] = d
            out.append((st, C(d, w)))
        return out
    return m


def keyof(l):
    """The fact l >= 0 as a key of the monitor state."""
    r = ["ge0"]
    for x in sorted((x for x in l if x is not None), key=lambda x: x.n): r += [x, l[x]]
    return tuple(r + [l.get(None, 0)])


def lof(k):
    l = {k[i]: k[i + 1] for i in range(1, len(k) - 1, 2)}
    if k[-1]: l[None] = k[-1]
    return l


def padd(a, b, k=1):
    r = dict(a)
    for x, c in b.items():
        c = r.get(x, 0) + c * k
        if c: r[x] = c
        else: r.pop(x, None)
    return r


_memo = {}
_keep = []
NEST = 0  # how many inequalities are being shown inside one another


def forget():
    _memo.clear(); _keep.clear()


def lin(st, v, d=0):
    if isinstance(v, V) and v.op in ("bin", "cast", "select"):
        k = (id(st), NEST, v)
        r = _memo.get(k)
        if r is not None: return r
        _memo[k] = {v: 1}
        r = _memo[k] = lin1(st, v, d)
        if d >= 8: del _memo[k]
        return r
    return lin1(st, v, d)


def lin1(st, v, d=0):
    """v as an integer: linear combination of atoms (key None is the constant), exact on every run that is in this state."""
    if isinstance(v, int): return {None: v} if v else {}
    if isc(v): return {None: v.a[0]} if v.a[0] else {}
    if d < 12:
        if v.op == "cast":
            k, x = v.a
            if k == "zext":
                if x.w == 1:
                    t = truth(st, x)
                    return {v: 1} if t is None else {None: 1} if t else {}
                return lin(st, x, d + 1)
            if k == "sext":
                r = rng(st, x)
                if r and r[-1][1] < (1 << (x.w - 1)): return lin(st, x, d + 1)
            if k == "trunc":
                r = rng(st, x)
                if r and r[-1][1] < (1 << v.w): return lin(st, x, d + 1)
                l = lin(st, x, d + 1)
                if nonneg(st, padd({None: (1 << v.w) - 1}, l, -1)): return l
        elif v.op == "select":
            t = truth(st, v.a[0])
            if t is not None: return lin(st, v.a[1 if t else 2], d + 1)
        elif v.op == "bin":
            k, a, b = v.a
            if k == "add":
                if isc(b) and b.a[0] >> (v.w - 1):
                    n = (1 << v.w) - b.a[0]
                    l = padd(lin(st, a, d + 1), {None: n}, -1)
                    if nonneg(st, l): return l
                else:
                    ra, rb = rng(st, a), rng(st, b)
                    if ra and rb and ra[-1][1] + rb[-1][1] < (1 << v.w) or nowrap(st, v, a, b): return padd(lin(st, a, d + 1), lin(st, b, d + 1))
                    l = padd(lin(st, a, d + 1), lin(st, b, d + 1))
                    if nonneg(st, padd({None: (1 << v.w) - 1}, l, -1)): return l
            elif k == "sub":
                l = padd(lin(st, a, d + 1), lin(st, b, d + 1), -1)
                if nonneg(st, l): return l
            elif k == "urem" and isc(b) and b.a[0] > 1:
                return padd(lin(st, a, d + 1), lin(st, mkbin(None, "udiv", a, b, v.w), d + 1), -b.a[0])
            elif k in ("mul", "shl") and isc(b):
                m = b.a[0] if k == "mul" else 1 << b.a[0]
                r = rng(st, a)
                l = padd({}, lin(st, a, d + 1), m)
                if r and r[-1][1] * m < (1 << v.w): return l
                if nonneg(st, padd({None: (1 << v.w) - 1}, l, -1)): return l
            elif k in ("udiv", "lshr") and isc(b):
                m = b.a[0] if k == "udiv" else 1 << b.a[0]
                l = lin(st, a, d + 1)
                if m and all(c % m == 0 for c in l.values()): return {x: c // m for x, c in l.items()}
    m = multiple(st, v)
    if m: return {mkbin(None, "udiv", v, C(m, v.w), v.w): m}
    return {v: 1}


def multiple(st, v):
    """A constant that divides v, as found out by v % m == 0 on this path."""
    for x, r in st.rg.items():
        if r == ((0, 0),) and x.op == "bin" and x.a[1] is v and isc(x.a[2]):
            if x.a[0] == "urem" and x.a[2].a[0] > 1: return x.a[2].a[0]
            if x.a[0] == "and" and x.a[2].a[0] & (x.a[2].a[0] + 1) == 0: return x.a[2].a[0] + 1
    return None


def nowrap(st, v, a, b):
    """a + b known not to wrap: the overflow test was false, or a part is at most the sum."""
    for x in (a, b):
        if not isc(x):
            if truth(st, mkicmp("ult", v, x)) is False: return True
    return False


def low(st, l):
    """A lower bound from the intervals."""
    s = 0
    for x, c in l.items():
        if x is None: s += c; continue
        r = rng(st, x)
        if not r: return 0
        s += c * (r[0][0] if c > 0 else r[-1][1])
    return s


def nonneg(st, l):
    """l >= 0 in every run in this state, found with the intervals and up to three known inequalities."""
    global NEST
    if low(st, l) >= 0: return True
    if NEST > 2: return False
    k = (id(st), NEST, keyof(l))
    r = _memo.get(k)
    if r is not None: return r
    NEST += 1
    try: r = nonneg1(st, l)
    finally: NEST -= 1
    _memo[k] = r
    return r


def relin(st, l):
    """The form with the choices made that are known by now."""
    if not any(x is not None and x.op == "select" for x in l): return l
    m = {}
    for x, c in l.items(): m = padd(m, {None: c} if x is None else lin(st, x), 1 if x is None else c)
    return m


def nonneg1(st, l):
    if not any(x is not None for x in l): return False
    ge = [k for k in st.mon if tup(k) and k[0] == "ge0"]
    for k in ge:
        if low(st, padd(l, lof(k), -1)) >= 0: return True
    for x in l:
        if x is not None and (x.op == "select" or x.op == "cast" and x.a[0] == "zext" and x.a[1].w == 1):
            # either way
            for t in (True, False):
                s = st.copy()
                if not assume(s, x.a[0] if x.op == "select" else x.a[1], t): continue
                m = {}
                _keep.append(s)
                for y, c in l.items():
                    m = padd(m, {None: c} if y is None else lin(s, y) if y is not x else lin(s, x.a[1 if t else 2]) if x.op == "select" else {None: 1} if t else {}, 1 if y is None else c)
                if low(s, m) < 0 and not nonneg1(s, m): return False
            return True
    # what is known about the same unknowns, directly or through one other fact
    ss = set()
    for x in l:
        if x is not None: ss |= x.syms
    pool = [(v, t, v.syms) for v, t in st.pf.items() if v.op == "icmp" and (v.a[0] in ("ult", "slt") or v.a[0] == "eq" and t) and not isc(v.a[2])]
    gpool = [(k, frozenset().union(*(x.syms for x in k if isinstance(x, V)))) for k in ge]
    dpool = [(x, x.syms) for x in st.rg if x.op == "bin"]
    use = []; guse = []; duse = []
    for _ in range(2):
        n = [x for x in pool if x[2] & ss]; use += n; pool = [x for x in pool if not x[2] & ss]
        g = [x for x in gpool if x[1] & ss]; guse += g; gpool = [x for x in gpool if not x[1] & ss]
        e = [x for x in dpool if x[1] & ss]; duse += e; dpool = [x for x in dpool if not x[1] & ss]
        for x in n: ss |= x[2]
        for x in g: ss |= x[1]
        if not n and not g: break
    fs = [relin(st, lof(k)) for k, _ in guse]
    e = 0
    for v, t, _ in use:
        p, a, b = v.a
        if p == "slt":
            # for values that are not negative it is the unsigned order
            ra = rng(st, a); rb = rng(st, b); h = 1 << (a.w - 1)
            if not ra or not rb or ra[-1][1] >= h or rb[-1][1] >= h: continue
        la = lin(st, a, e); lb = lin(st, b, e)
        if p == "eq":
            f = padd(la, lb, -1); fs += [f, padd({}, f, -1)]
        elif t: fs.append(padd(padd(lb, la, -1), {None: 1}, -1))
        else: fs.append(padd(la, lb, -1))
    for x, _ in duse:
        r = st.rg[x]
        if not r: continue
        if x.a[0] in ("add", "sub", "mul", "shl"):
            lx = lin(st, x, e)
            if lx == {x: 1}: continue
            fs.append(padd(lx, {None: r[0][0]}, -1)); fs.append(padd({None: r[-1][1]}, lx, -1))
        elif x.a[0] in ("udiv", "lshr"): fs.append({x: 1, None: -r[0][0]})
    todo = [x for f in [l] + fs for x in f if x is not None]; done = set()
    for x in todo:
        if x in done: continue
        done.add(x)
        if x.op == "cast" and x.a[0] == "trunc": fs.append(padd(lin(st, x.a[1], e), {x: 1}, -1))
        if x.op == "bin" and isc(x.a[2]) and x.a[2].a[0]:
            k, a, b = x.a
            c = b.a[0] if k == "udiv" else 1 << b.a[0] if k == "lshr" else None
            if c:
                la = lin(st, a, e); ra = rng(st, a)
                if a not in la: fs.append(padd(la, {None: ra[0][0]}, -1)); fs.append(padd({None: ra[-1][1]}, la, -1))
                m = rng(st, mkbin(None, "urem", a, C(c, x.w), x.w))
                if m: fs.append(padd(padd(la, {x: c}, -1), {None: -m[0][0]})); fs.append(padd({x: c, None: m[-1][1]}, la, -1))
                fs.append(padd(la, {x: c}, -1)); fs.append(padd({x: c, None: c - 1}, la, -1))
            elif k == "and" or k == "urem": fs.append(padd(lin(st, a, e), {x: 1}, -1))
    fs = [f for f in fs if any(x is not None for x in f)]
    seen = set()
    def go(l, n, used):
        if low(st, l) >= 0: return True
        cs = [abs(c) for x, c in l.items() if x is not None]
        g = math.gcd(*cs) if cs else 1
        if g > 1:
            # all the rest is a multiple of g: any constant up to the next multiple of g decides the same
            l = dict(l); l[None] = l.get(None, 0) // g * g + g - 1
            if low(st, l) >= 0: return True
        if n == 0: return False
        k = (keyof(l), n)
        if k in seen: return False
        seen.add(k)
        for i, f in enumerate(fs):
            if i in used: continue
            # a fact that cancels an atom of l
            for x, c in f.items():
                if x is None or x not in l or (c > 0) != (l[x] > 0): continue
                m = l
                if l[x] % c:
                    q = abs(c) // math.gcd(l[x], c)
                    if q > 4096: continue
                    m = padd({}, l, q)
                    m[None] = m.get(None, 0) + q - 1
                if go(padd(m, f, -(m[x] // c)), n - 1, used | {i}): return True
        return False
    return go(l, 3, frozenset())


def tup(k): return isinstance(k, tuple)


class Bounds:
    def __init__(self, regions=None):
        self.sz = {}; self.sites = set(); self.want = set(); self.kept = set(); self.cand = set(); self.goal = set(); self.where = {}; self.objs = set(); self.par = []; self.first = None

    def coverage(self):
        return {"accesses_checked": self.sites, "objects": self.objs}

    def again(self):
        self.sz = {}
        n = len(self.kept)
        if self.want:
            self.kept |= self.want | self.cand
            self.goal |= self.want
        self.want = set()
        return len(self.kept) > n

    def on_join(self, A, a, b, r):
        forget()
        js = A.jsyms; m = A.jmap
        # two variables that start at constants and have gone on to constants: the line through the two points
        pts = []
        for j, (x, y) in m.items():
            if j.w != 64: continue
            x = lin(a, x); y = lin(b, y)
            d = padd(y, x, -1)
            if len(d) == 1 and None in d and not any(k is not None and (k in m or k.syms & js) for k in x): pts.append((j, x, d[None]))
            elif d == {} or x != {j: 1}: continue
            elif len(d) == 1 and None in d and d[None] > 0:
                # a counter that goes on while it is below something
                for f, t in b.pf.items():
                    if t and f.op == "icmp" and f.a[0] == "ult" and f.a[1] is j and not f.a[2].syms & js and f.a[2] not in m:
                        l = padd(padd(lin(b, f.a[2]), {j: 1}, -1), {None: d[None] - 1} if d[None] > 1 else {})
                        if not any(x is not None and (x in m or x.syms & js) for x in l if x is not j): self.cand.add(keyof(l))
        for j, x, e in pts:
            for k, u, d in pts:
                if k is not j and e % d == 0 and e // d > 0 and (e != d or j.n < k.n):
                    l = padd(padd({j: 1, k: -(e // d)}, u, e // d), x, -1)
                    self.cand.add(keyof(l)); self.cand.add(keyof(padd({}, l, -1)))
        for k in [k for k in r.mon if tup(k) and k[0] == "ge0"]:
            if any(isinstance(x, V) and x.syms & js for x in k): del r.mon[k]
        for k in self.kept:
            if k in r.mon: continue
            if not any(isinstance(x, V) and x.syms & js for x in k) and A.jctx not in self.where.get(k, ()): continue
            la = {None: k[-1]}; lb = {None: k[-1]}
            for i in range(1, len(k) - 1, 2):
                x = k[i]
                if x.syms & js:
                    xy = m.get(x)
                    if xy is None: break
                    la = padd(la, lin(a, xy[0]), k[i + 1]); lb = padd(lb, lin(b, xy[1]), k[i + 1])
                else: la = padd(la, {x: 1}, k[i + 1]); lb = padd(lb, {x: 1}, k[i + 1])
            else:
                na = nonneg(a, la); nb = nonneg(b, lb)
                if na and nb: r.mon[k] = True
                elif k in self.goal and len(k) <= 6:
                    # what would have had to be known before
                    for l, n in ((la, na), (lb, nb)):
                        if not n and len(self.goal) < 200 and l.get(None, 0) == k[-1]:
                            self.want.add(keyof(l)); self.where.setdefault(keyof(l), set()).add(A.jctx)

    def on_subst(self, A, st, k, old):
        if ("olds", old) in st.mon:
            for f in [f for f in st.mon if tup(f) and f[0] == "ge0" and any(isinstance(x, V) and old in x.syms for x in f)]: del st.mon[f]
        else: st.mon[("olds", old)] = True

    def size(self, A, st, o):
        if o.kind in ("stack", "global"):
            v = st.mon.get(("vla", o))
            if v is not None: return v
            return o.size
        if o.kind == "deref" and o.base is not None:
            v = st.mon.get(("size", o.base))
            return v if v is not None else self.given(A, st, o.base)
        return None

    # ---- memory that is described by a length next to the pointer
    def elem(self, A, ty):
        t = ty.replace("const ", "").replace("*", "").strip()
        return max(1, A.p.di.get(t, {}).get("size", 1))

    def given(self, A, st, b):
        if b in self.sz: return self.bounded(st, self.sz[b])
        r = self.given1(A, b)
        self.sz[b] = r
        return self.bounded(st, r)

    def bounded(self, st, r):
        if r is None: return None
        v, n = r
        if isc(v): return C(v.a[0] * n)
        constrain(st, v, ((0, ((1 << 63) - 1) // n),))
        return v if n == 1 else mk("bin", "mul", v, C(n), w=64)

    def scaled(self, v, n):
        v = mkcast(None, "zext", v, v.w, 64) if v.w < 64 else v
        return v, n

    def given1(self, A, b):
        E = A.entry; D = A.p.di
        if b.op == "sym":
            if self.first is not None and b is self.first[0]: return self.scaled(self.first[1], 1)
            for i, a in enumerate(A.args):
                if a is not b or i >= len(E.argnames): continue
                n = E.argnames[i]; ty = E.ditypes[i + 1]
                if "*" not in ty or "**" in ty: return None
                t = ty.replace("const ", "").replace("*", "").strip()
                for m in (n + "_length", n + "_size"):
                    if m in E.argnames:
                        j = E.argnames.index(m)
                        if "*" in E.ditypes[j + 1]: v = mk("ld", deref(A.args[j]), 0, None, w=64)
                        else: v = A.args[j]
                        return self.scaled(v, self.elem(A, ty))
            return None
        if b.op == "ld":
            o, off, ver = b.a[0], b.a[1], b.a[2]
            c = {}
            for t, fo, p in A.fieldptr.get((o, off), ()):
                d = D.get(t)
                if d is None: continue
                if any(f[0] == "type" for f in d["f"]) and any(f[1] == fo and "void" in f[3] for f in d["f"]): continue
                if t == "sa_buffer" and fo == 8: c[8] = 1; continue
                fs = {f[0]: f for f in d["f"]}
                for f in d["f"]:
                    if f[1] != fo or "*" not in f[3] or "**" in f[3]: continue
                    for m, k in ((f[0] + "_length", 0), (f[0] + "_size", 0), ("subsample_count" if f[0] == "subsample_lengths" else None, 0)):
                        if m in fs: c[fs[m][1] - fo] = self.elem(A, f[3])
            if len(c) != 1: return None
            (k, n), = c.items()
            return self.scaled(mk("ld", o, off + k if isinstance(off, int) else mkbin(None, "add", off, C(k), 64), ver, w=64), n)
        return None

    def lengths(self, A, st, x):
        """What is known about the stored lengths that x is computed from."""
        for v in [v for v in x.syms if v.op == "ld" and v.w == 64 and isinstance(v.a[1], int)]:
            o = v.a[0]
            if o.kind == "global":
                k = self.paired(A, o, v.a[1])
                if k is not None: constrain(st, v, ((0, k),))
                continue
            for t, fo, p in A.fieldptr.get((o, v.a[1]), ()):
                d = A.p.di.get(t)
                if d is None: continue
                for f in d["f"]:
                    m = re.sub("_(length|size)$", "", f[0])
                    if f[1] != fo or m == f[0]: continue
                    for g in d["f"]:
                        if g[0] == m and "*" in g[3] and truth(st, mkicmp("eq", mk("ld", o, v.a[1] - fo + g[1], v.a[2], w=64), NULL)) is False:
                            constrain(st, v, ((0, ((1 << 63) - 1) // self.elem(A, g[3])),))

    def paired(self, A, o, off):
        """The size of the array that a variable X_length goes with, when there is an array X of the same scope."""
        if off != 0 or not isinstance(o.key, str): return None
        m = re.sub("_(length|size)((?:\\.[0-9]+)?)$", "\\2", o.key)
        g = A.p.d["globals"].get(m); h = A.p.d["globals"].get(o.key)
        if m == o.key or g is None or h is None or h.get("size") != 8 or not str(g.get("ty", "")).startswith("["): return None
        return g["size"]

    def on_store(self, A, st, p, v, w, site):
        if isc(p) or w != 8: return
        o, off = as_ptr(p)
        if o.kind == "global":
            k = self.paired(A, o, off)
            if k is not None:
                forget(); self.sites.add(site.loc())
                if not nonneg(st, padd({None: k}, lin(st, v), -1)): A.report("length-beyond-array", models.climb(A, site), "%s is given a value that is not shown to be at most the %d bytes of the array it goes with" % (o.key, k))

    def chk(self, A, st, p, n, site, what):
        if p is None or isc(p) or n is None: return
        if not isinstance(n, int) and isc(n): n = n.a[0]
        if n == 0: return
        if p.op not in ("ptr", "sym", "ld"): return
        o, off = as_ptr(p)
        s = self.size(A, st, o)
        if s is None: return
        forget()
        for x in (off, n, s):
            if isinstance(x, V): self.lengths(A, st, x)
        self.sites.add(site.loc()); self.objs.add(showobj(o))
        if isinstance(off, int) and isinstance(n, int) and isinstance(s, int):
            if off >= 0 and off + n <= s: return
            A.report("out-of-bounds", models.climb(A, site), "%s of %d bytes at offset %d of %s, which has %d" % (what, n, off, showobj(o), s)); return
        if isinstance(off, int) and off < 0: l0 = {None: off}
        else: l0 = lin(st, off)
        ln = lin(st, n)
        l = padd(padd(lin(st, s), l0, -1), ln, -1)
        if nonneg(st, l): return
        if not isinstance(n, int) and rng(st, n) == ((0, 0),): return
        self.want.add(keyof(l)); self.where.setdefault(keyof(l), set()).add(site.ctx)
        A.report("out-of-bounds", models.climb(A, site), "%s of %s bytes at offset %s of %s, which has %s: not shown to stay inside" % (what, sh(n), sh(off), showobj(o), sh(s)))
        st.mon[keyof(l)] = True

    def key(self, st):
        # the alternatives of a command parameter are told apart: present or not, of a fixed size or not
        par = tuple((truth(st, q), rng(st, n) if len(rng(st, n)) == 1 and rng(st, n)[0][0] == rng(st, n)[0][1] else None) for q, n in self.par)
        return par + tuple(sorted((k[1], k[2], k[3].n, v) for k, v in st.mon.items() if tup(k) and k[0] == "case"))

    def on_leave(self, A, st, name, site, at):
        for k in [k for k in st.mon if tup(k) and k[0] == "case" and k[1] == site.ctx]: del st.mon[k]

    def on_alloc(self, A, st, v, kind, size, site):
        # no object is larger than half of the address space
        if size is not None and not isc(size): constrain(st, size, ((0, (1 << 63) - 1),))

    def on_deref(self, A, st, p, w, site, what): self.chk(A, st, p, w, site, what)
    def on_memcpy(self, A, st, d, s, n, site):
        self.chk(A, st, s, n, site, "read"); self.chk(A, st, d, n, site, "write")
    def on_memset(self, A, st, p, c, n, site, name): self.chk(A, st, p, n, site, "write")

    def on_call(self, A, st, name, args, site):
        if name in PURE and not isc(args[0]): st.mon[("purearg",)] = (name, args[0])
        if name == "EVP_MAC_final" and not isc(args[2]): st.mon[("room", args[2])] = A.load(st, args[2], 8)
        for i, n in EXT.get(name, ()):
            n0 = n
            if i >= len(args): continue
            if isinstance(n, tuple):
                if n[0] == "a": n = args[n[1]]
                else:
                    n = A.load(st, args[n[1]], n[2]) if not isc(args[n[1]]) else None
                    if n is not None and not isc(args[i]): st.mon[("room", args[n0[1]])] = n
            self.chk(A, st, args[i], n, site, "access by %s" % name)

    def on_ext(self, A, st, name, args, ret, site):
        if name is None or ret is None: return
        forget()
        if name == "EVP_MAC_final" and not isc(args[2]):
            # the length of the MAC, which callers have put there before
            o = st.mon.pop(("room", args[2]), None)
            n = A.load(st, args[2], 8)
            self.ge(st, padd(lin(st, args[3]), lin(st, n), -1))
            if o is not None and isc(o) and o.a[0] in (16, 20, 32, 48, 64): A.store(st, args[2], o, 8)
        if name == "EC_GROUP_get_degree": constrain(st, ret, ((0, 1024),))
        if name in ("json_value_as_map", "json_value_as_array", "json_value_as_string") and not isc(ret) and not isc(args[0]):
            n = A.load(st, args[0], 8)
            e = {"json_value_as_map": A.p.di["json_key_value_t"]["size"], "json_value_as_array": 8, "json_value_as_string": 1}[name]
            if not isc(n):
                constrain(st, n, ((0, ((1 << 63) - 1) // e),))
                st.mon[("size", ret)] = n if e == 1 else mk("bin", "mul", n, C(e), w=64)
        if name.startswith("i2d_") and len(args) > 1:
            # the length of the same object's encoding
            k = ("enc", name, args[0])
            r = st.mon.get(k)
            if r is None: st.mon[k] = ret
            elif r is not ret:
                if rng(st, ret) and rng(st, r): self.ge(st, padd(lin(st, mkcast(st, "sext", r, 32, 64)), lin(st, mkcast(st, "sext", ret, 32, 64)), -1)); self.ge(st, padd(lin(st, r), lin(st, ret), -1))
        for i, n in EXT.get(name, ()):
            if isinstance(n, tuple) and n[0] == "d":
                o = st.mon.pop(("room", args[n[1]]), None)
                if o is not None: self.ge(st, padd(lin(st, o), lin(st, A.load(st, args[n[1]], n[2])), -1))

    def on_ret(self, A, st, name, args, ret, site):
        # a function of one number gives the same answer for the same number
        if name not in PURE: return
        k = st.mon.pop(("purearg",), None)
        if k is None or k[0] != name or ret is None: return
        k = ("pure", name, k[1])
        r = st.mon.get(k)
        forget()
        if r is None: st.mon[k] = ret
        elif r is not ret:
            constrain(st, ret, rng(st, r)); constrain(st, r, rng(st, ret))
            self.ge(st, padd(lin(st, ret), lin(st, r), -1)); self.ge(st, padd(lin(st, r), lin(st, ret), -1))

    def ge(self, st, l):
        if low(st, l) < 0: st.mon[keyof(l)] = True


def cst(st, x):
    if isinstance(x, int): return x
    if isc(x): return x.a[0]
    r = rng(st, x) if isinstance(x, V) else None
    return r[0][0] if r and len(r) == 1 and r[0][0] == r[0][1] else None


def sh(x): return show(x) if isinstance(x, V) else str(x)


def twooff(A, st):
    """Lists of regions that are checked by one loop and used by another: two elements stand for all."""
    i = A.entry.argnames.index("offsets_length")
    st.regs[i] = A.args[i] = C(2, A.args[i].w)


def params(b, i):
    """Pointer and size of a command parameter."""
    o = deref(b)
    return mk("ld", o, 16 * i, None, w=64), mk("ld", o, 16 * i + 8, None, w=64)


def handler(A, st):
    """A command as the dispatcher passes it on: its parameter block is a copy with the size of the first parameter."""
    E = A.entry
    b = A.args[E.argnames.index("params")]
    for m in A.monitors:
        if isinstance(m, Bounds):
            m.par = [(mkicmp("eq", p, NULL), n) for p, n in (params(b, i) for i in PAR.get(E.name, (1,)))]
            if E.ditypes[1].endswith("_s*"): m.first = (A.args[0], params(b, 0)[1])
    # lists of regions that are checked by one loop and used by another: two elements stand for all
    for i in OFFSETS.get(E.name, ()): n = 2 * A.p.di["sa_svp_offset_s"]["size"]; constrain(st, params(b, i)[1], ((n, n),))


# the parameters whose presence or size decides later what is done: one unless stated
PAR = {"ta_invoke_key_exchange": (2,)}
OFFSETS = {"ta_invoke_svp_buffer_write": (2,), "ta_invoke_svp_buffer_copy": (1,)}


def m_import(A, st, name, args, site, w):
    """ta_sa_key_import on behalf of key provisioning: analysed on its own; the container and the parameters have to be there."""
    for m in A.monitors:
        if isinstance(m, Bounds):
            m.chk(A, st, args[0], 8, site, "access by %s" % name); m.chk(A, st, args[2], args[3], site, "access by %s" % name)
            m.chk(A, st, args[4], A.p.di["sa_import_parameters_soc"]["size"], site, "access by %s" % name)
    A.havoc_range(st, args[0], C(8), (site, "key", 0))
    return [(st, A.fresh(st, "status", name, site, w=w))]


def all_jobs(P):
    PURE.update(pure(P))
    from rules import c07
    from rules.c09 import two
    jobs = c07.jobs_entries(P, lambda: [Bounds()])
    extra = {"strlen": m_strlen, "memchr": m_memchr, "BIO_read": m_bioread}
    for n in PURE:
        if table(P.fns[n]) is not None and len(set(table(P.fns[n])[0].values())) > 2: extra[n] = m_table(P.fns[n])
    own = {n: m for n, m in (("b64_decode", m_b64),) if n in P.fns and P.fns[n].argnames[:4] == ["out", "out_length", "in", "in_length"]}
    for n in own: jobs.append(Job("ta", n, lambda: [Bounds()], models=dict(models.MODELS), tag="body"))
    for n in handlers(P):
        m = dict(contracts.ALL)
        if n == "ta_invoke_key_provision": m["ta_sa_key_import"] = m_import
        jobs.append(Job("ta", n, lambda: [Bounds()], models=m, pre=handler, tag="handler"))
    for j in jobs:
        j.models = dict(j.models); j.models.update(extra)
        if j.entry not in own: j.models.update(own)
        F = P.fns[j.entry]
        if j.tag == "handler": continue
        if F.ditypes[1:3] == ["size_t", "sa_sample*"]: j.pre = two
        elif "offsets_length" in F.argnames: j.pre = twooff
    return jobs


def run(tier):
    P = program("ta")
    jobs = all_jobs(P)
    res = run_jobs(jobs)
    cov = summarise(res, jobs)
    need(cov.get("accesses_checked", 0) >= 300, "the memory accesses are not where the rule looks for them")
    return {"reports": merge(res), "coverage": cov}
