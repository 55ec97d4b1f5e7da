"""Path-sensitive abstract interpreter (property simulation) over the dumped LLVM IR.

The domain of a state: values of registers and memory cells (constants, pointers into abstract objects, interned
expressions over unknowns), an interval set per unknown, truth values of branch predicates, and monitor facts.
States are joined at control-flow joins (bounded number of disjuncts per program point, ESP style), loops run to a
fixpoint with widening, repo functions are entered at each call (context sensitive), anything else has a model.
No solver, no path enumeration, nothing of the program is executed.
"""
import re, sys
sys.setrecursionlimit(100000)

# ---------------------------------------------------------------- values
class V:
    __slots__ = ("op", "a", "w", "syms", "n", "tag")
    def __repr__(self):
        return show(self)

_tab = {}
_cnt = [0]

def mk(op, *a, w=64):
    k = (op, a, w)
    v = _tab.get(k)
    if v is None:
        v = V()
        v.op = op; v.a = a; v.w = w
        _cnt[0] += 1
        v.n = _cnt[0]
        v.tag = None
        if op in ("sym", "ld"):
            s = {v}
            if op == "ld" and a[0].base is not None:
                s |= a[0].base.syms
            v.syms = frozenset(s)
        else:
            s = set()
            for x in a:
                if isinstance(x, V):
                    s |= x.syms
                elif isinstance(x, Obj) and x.base is not None:
                    s |= x.base.syms
            v.syms = frozenset(s) if len(s) <= 40 else frozenset(list(s)[:40])
        _tab[k] = v
    return v

class Obj:
    __slots__ = ("kind", "key", "size", "base", "n", "ty", "name")
    def __repr__(self):
        return showobj(self)

_objs = {}

def obj(kind, key, size=None, base=None, ty=None, name=None):
    k = (kind, key)
    o = _objs.get(k)
    if o is None:
        o = Obj()
        o.kind = kind; o.key = key; o.size = size; o.base = base; o.ty = ty; o.name = name
        _cnt[0] += 1
        o.n = _cnt[0]
        _objs[k] = o
    return o

def C(v, w=64):
    return mk("c", v & ((1 << w) - 1), w=w)

NULL = C(0, 64)
UNDEF = mk("undef")
TRUE = C(1, 1)
FALSE = C(0, 1)

def isc(v):
    return v.op == "c"

def deref(v):
    return obj("deref", v, base=v)

def as_ptr(v):
    """(object, offset) a pointer value designates."""
    if v.op == "ptr":
        return v.a[0], v.a[1]
    return deref(v), 0

def mkptr(o, off):
    if o.kind == "deref" and off == 0 and not isinstance(off, V):
        return o.base
    if isinstance(off, V) and off.op == "c":
        x = off.a[0]
        if x >= 1 << 63: x -= 1 << 64
        return mkptr(o, x)
    return mk("ptr", o, off)

def sym(*key, w=64):
    return mk("sym", *key, w=w)

def showobj(o):
    if o.kind == "deref":
        return "*" + show(o.base)
    if o.kind == "stack":
        return "&%s" % (o.name or o.key[1])
    if o.kind == "global":
        return "@" + o.key
    return "%s%r" % (o.kind, o.key)

def show(v, d=0):
    if d > 5: return "..."
    o, a = v.op, v.a
    if o == "c": return str(a[0] if a[0] < 1 << (v.w - 1) or v.w == 1 else a[0] - (1 << v.w))
    if o == "ptr": return "%s+%s" % (showobj(a[0]), a[1] if not isinstance(a[1], V) else show(a[1], d + 1))
    if o == "sym":
        if a[0] == "arg": return str(a[3])
        if a[0] == "call": return "%s()@%s" % (a[1], a[3])
        return "%s#%s" % (a[0], v.n)
    if o == "ld":
        return "%s[%s]" % (showobj(a[0]), a[1] if not isinstance(a[1], V) else show(a[1], d + 1))
    if o == "fn": return a[0]
    if o == "bin": return "(%s %s %s)" % (show(a[1], d + 1), a[0], show(a[2], d + 1))
    if o == "icmp": return "(%s %s %s)" % (show(a[1], d + 1), a[0], show(a[2], d + 1))
    if o == "cast": return show(a[1], d + 1)
    if o == "undef": return "undef"
    return "%s%r" % (o, a)

# ---------------------------------------------------------------- interval sets
def full(w):
    return ((0, (1 << w) - 1),)

def inter(A, B):
    r = []
    i = j = 0
    while i < len(A) and j < len(B):
        lo = max(A[i][0], B[j][0]); hi = min(A[i][1], B[j][1])
        if lo <= hi: r.append((lo, hi))
        if A[i][1] < B[j][1]: i += 1
        else: j += 1
    return tuple(r)

def union(A, B, cap=10):
    r = []
    for lo, hi in sorted(A + B):
        if r and lo <= r[-1][1] + 1:
            if hi > r[-1][1]: r[-1] = (r[-1][0], hi)
        else: r.append((lo, hi))
    while len(r) > cap:
        g = min(range(len(r) - 1), key=lambda i: r[i + 1][0] - r[i][1])
        r[g:g + 2] = [(r[g][0], r[g + 1][1])]
    return tuple(r)

def compl(A, w):
    r = []; p = 0; m = (1 << w) - 1
    for lo, hi in A:
        if lo > p: r.append((p, lo - 1))
        p = hi + 1
    if p <= m: r.append((p, m))
    return tuple(r)

def cmpset(pred, c, w):
    """Interval set of x with x pred c."""
    m = (1 << w) - 1; h = 1 << (w - 1)
    if pred == "eq": return ((c, c),)
    if pred == "ne": return compl(((c, c),), w)
    if pred == "ult": return ((0, c - 1),) if c > 0 else ()
    if pred == "ule": return ((0, c),)
    if pred == "ugt": return ((c + 1, m),) if c < m else ()
    if pred == "uge": return ((c, m),)
    # signed: order is h..m (negative), 0..h-1
    def up(x):  # x <=s y
        if x < h: return ((x, h - 1),) if x <= h - 1 else ()
        return union(((0, h - 1),), ((x, m),))
    if pred == "sge": return up(c)
    if pred == "slt": return compl(up(c), w)
    if pred == "sgt":
        return inter(up(c), compl(((c, c),), w))
    if pred == "sle": return compl(inter(up(c), compl(((c, c),), w)), w)
    raise KeyError(pred)

NEG = {"eq": "ne", "ne": "eq", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt"}
SWAP = {"eq": "eq", "ne": "ne", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle"}

def canon(pred, a, b):
    """(canonical V, positive?) for a symbolic comparison."""
    if pred in ("eq", "ne"):
        if a.n > b.n: a, b = b, a
        return mk("icmp", "eq", a, b, w=1), pred == "eq"
    s = pred[0]
    if pred[1:] == "lt": return mk("icmp", s + "lt", a, b, w=1), True
    if pred[1:] == "gt": return mk("icmp", s + "lt", b, a, w=1), True
    if pred[1:] == "ge": return mk("icmp", s + "lt", a, b, w=1), False
    return mk("icmp", s + "lt", b, a, w=1), False

# ---------------------------------------------------------------- state
class State:
    __slots__ = ("regs", "stack", "mem", "ver", "dflt", "rg", "pf", "mon", "seen", "ret")
    def copy(self):
        s = State.__new__(State)
        s.regs = dict(self.regs); s.stack = self.stack
        s.mem = dict(self.mem); s.ver = dict(self.ver); s.dflt = dict(self.dflt)
        s.rg = dict(self.rg); s.pf = dict(self.pf); s.mon = dict(self.mon)
        s.seen = self.seen; s.ret = self.ret
        return s

    # ---- monitor helpers: mon maps a key to an immutable value
    def fp(self):
        return (frozenset(self.regs.items()), self.stack if self.stack is None else self.stack[3],
                frozenset((o, frozenset(c.items())) for o, c in self.mem.items()), frozenset(self.ver.items()),
                frozenset(self.dflt.items()), frozenset(self.rg.items()), frozenset(self.pf.items()),
                frozenset(self.mon.items()), self.ret)

def new_state():
    s = State.__new__(State)
    s.regs = {}; s.stack = None; s.mem = {}; s.ver = {}; s.dflt = {}; s.rg = {}; s.pf = {}; s.mon = {}; s.seen = frozenset(); s.ret = None
    return s

def rng(st, v):
    """Interval set of a value."""
    if v.op == "c": return ((v.a[0], v.a[0]),)
    r = st.rg.get(v)
    if r is not None: return r
    w = v.w
    if v.op == "ptr":
        k = v.a[0].kind
        return ((1, (1 << 64) - 1),)
    if v.op == "fn": return ((1, (1 << 64) - 1),)
    if v.op == "cast":
        k, x = v.a
        if k == "zext":
            return rng(st, x)
        if k == "trunc":
            r = rng(st, x)
            if r and r[-1][1] < (1 << w): return r
        if k == "sext":
            r = rng(st, x)
            if r and r[-1][1] < (1 << (x.w - 1)): return r
            d = (1 << w) - (1 << x.w); h = 1 << (x.w - 1)
            if len(r) < 6:
                out = ()
                for lo, hi in r:
                    for a, b in ((lo, min(hi, h - 1)), (max(lo, h), hi)):
                        if a <= b: out = union(out, ((a + (d if a >= h else 0), b + (d if b >= h else 0)),))
                return out
        return full(w)
    if v.op == "bin":
        k, a, b = v.a
        if k == "and":
            if isc(b): return ((0, b.a[0]),)
            if isc(a): return ((0, a.a[0]),)
        elif k == "urem" and isc(b) and b.a[0]: return ((0, b.a[0] - 1),)
        elif k == "lshr" and isc(b):
            r = rng(st, a); return ((r[0][0] >> b.a[0], r[-1][1] >> b.a[0]),) if r else ()
        elif k == "sdiv" and isc(b) and 0 < b.a[0] < 1 << (w - 1):
            r = rng(st, a)
            if r and r[-1][1] < 1 << (w - 1): return ((r[0][0] // b.a[0], r[-1][1] // b.a[0]),)
        elif k == "udiv" and isc(b) and b.a[0]:
            r = rng(st, a); return ((r[0][0] // b.a[0], r[-1][1] // b.a[0]),) if r else ()
        elif k == "add":
            r1 = rng(st, a); r2 = rng(st, b)
            if r1 and r2:
                if len(r1) * len(r2) <= 8:
                    out = ()
                    m = 1 << w
                    for p in r1:
                        for q in r2:
                            lo = p[0] + q[0]; hi = p[1] + q[1]
                            if lo >= m: out = union(out, ((lo - m, hi - m),))
                            elif hi < m: out = union(out, ((lo, hi),))
                            else: return full(w)
                    return out
        elif k == "sub":
            r1 = rng(st, a); r2 = rng(st, b)
            if r1 and r2 and r1[0][0] >= r2[-1][1]:
                return ((r1[0][0] - r2[-1][1], r1[-1][1] - r2[0][0]),)
        elif k == "mul":
            r1 = rng(st, a); r2 = rng(st, b)
            if r1 and r2 and r1[-1][1] * r2[-1][1] < (1 << w):
                return ((r1[0][0] * r2[0][0], r1[-1][1] * r2[-1][1]),)
        elif k == "shl" and isc(b):
            r = rng(st, a)
            if r and (r[-1][1] << b.a[0]) < (1 << w): return ((r[0][0] << b.a[0], r[-1][1] << b.a[0]),)
        elif k == "xor" and w == 1:
            pass
        return full(w)
    if v.op == "select":
        return union(rng(st, v.a[1]), rng(st, v.a[2]))
    return full(w)

def truth(st, v):
    """True / False / None for an i1 value."""
    if v.op == "c": return bool(v.a[0] & 1)
    if v.op == "icmp":
        pred, a, b = v.a
        if isc(b):
            r = rng(st, a)
            s = cmpset(pred, b.a[0], a.w)
            i = inter(r, s)
            if not i: return False
            if i == r: return True
            t = st.pf.get(v)
            return t
        if a is b: return pred in ("eq", "ule", "uge", "sle", "sge")
        c, pos = canon(pred, a, b)
        t = st.pf.get(c)
        if t is not None: return t == pos
        ra = rng(st, a); rb = rng(st, b)
        if ra and rb:
            p = c.a[0]
            x, y = (a, b) if c.a[1] is a else (b, a)
            rx, ry = (ra, rb) if x is a else (rb, ra)
            if p == "eq":
                if a.op == "ptr" and b.op == "ptr":
                    if a.a[0] is not b.a[0]:
                        if a.a[0].kind != "deref" and b.a[0].kind != "deref": return not pos
                    elif not isinstance(a.a[1], V) and not isinstance(b.a[1], V):
                        return (a.a[1] == b.a[1]) == pos
                if not inter(rx, ry): return not pos
            elif p == "ult":
                if rx[-1][1] < ry[0][0]: return pos
                if rx[0][0] >= ry[-1][1]: return not pos
            if p == "eq":
                # a < b known either way implies inequality
                for q in ("ult", "slt"):
                    if st.pf.get(mk("icmp", q, a, b, w=1)) or st.pf.get(mk("icmp", q, b, a, w=1)): return not pos
        return None
    if v.op == "cast":
        k, x = v.a
        if k == "trunc":
            r = rng(st, x)
            if r == ((0, 0),): return False
            if r == ((1, 1),): return True
            if x.op == "cast" and x.a[0] == "zext" and x.a[1].w == 1: return truth(st, x.a[1])
        return st.pf.get(v)
    if v.op == "bin" and v.a[0] == "xor" and isc(v.a[2]) and v.a[2].a[0] == 1:
        t = truth(st, v.a[1])
        return None if t is None else not t
    if v.op == "bin" and v.a[0] in ("and", "or"):
        t1 = truth(st, v.a[1]); t2 = truth(st, v.a[2])
        if v.a[0] == "and":
            if t1 is False or t2 is False: return False
            if t1 and t2: return True
        else:
            if t1 or t2: return True
            if t1 is False and t2 is False: return False
        return None
    r = st.rg.get(v)
    if r == ((0, 0),): return False
    if r == ((1, 1),): return True
    return st.pf.get(v)

def constrain(st, v, s):
    """Restrict v to the interval set s; False when empty."""
    if v.op == "c":
        return bool(inter(((v.a[0], v.a[0]),), s))
    r = inter(rng(st, v), s)
    if not r: return False
    if v.op == "ptr" or v.op == "fn": return True
    st.rg[v] = r
    if v.op == "cast":
        k, x = v.a
        if k == "zext":
            if x.w == 1:
                if r == ((0, 0),): return assume(st, x, False)
                if r == ((1, 1),): return assume(st, x, True)
                if not inter(r, ((0, 0),)): return assume(st, x, True)
            else:
                rr = inter(r, full(x.w))
                return bool(rr) and constrain(st, x, rr)
        elif k == "sext":
            h = 1 << (x.w - 1)
            pos = inter(r, ((0, h - 1),)); d = (1 << v.w) - (1 << x.w)
            neg = tuple((a - d, b - d) for a, b in inter(r, ((d + h, (1 << v.w) - 1),)))
            return constrain(st, x, union(pos, neg))
        elif k == "trunc":
            rx = rng(st, x)
            if rx and rx[-1][1] < (1 << v.w): return constrain(st, x, r)
    elif v.op == "bin":
        k, a, b = v.a
        if k == "add" and isc(b):
            c = b.a[0]; m = 1 << v.w
            out = ()
            for lo, hi in r:
                l2 = (lo - c) % m; h2 = (hi - c) % m
                out = union(out, ((l2, h2),) if l2 <= h2 else ((0, h2), (l2, m - 1)))
            return constrain(st, a, out)
        if k == "sub" and isc(b):
            c = b.a[0]; m = 1 << v.w
            out = ()
            for lo, hi in r:
                l2 = (lo + c) % m; h2 = (hi + c) % m
                out = union(out, ((l2, h2),) if l2 <= h2 else ((0, h2), (l2, m - 1)))
            return constrain(st, a, out)
    elif v.op == "icmp":
        if r == ((0, 0),): return assume(st, v, False)
        if r == ((1, 1),): return assume(st, v, True)
    return True

def assume(st, v, t):
    """Record that the i1 value v is t; False when contradictory."""
    k = truth(st, v)
    if k is not None and k != t: return False
    if v.op == "c": return True
    if v.op == "icmp":
        pred, a, b = v.a
        p = pred if t else NEG[pred]
        if isc(b):
            st.pf[v] = t
            if not constrain(st, a, cmpset(p, b.a[0], a.w)): return False
            return True
        c, pos = canon(pred, a, b)
        st.pf[c] = (t == pos)
        # interval propagation between the operands
        ra = rng(st, a); rb = rng(st, b)
        if ra and rb:
            if p == "eq":
                i = inter(ra, rb)
                if not i: return False
                if a.op not in ("ptr",) and b.op not in ("ptr",):
                    return constrain(st, a, i) and constrain(st, b, i)
            elif p == "ult":
                return rb[-1][1] > 0 and constrain(st, a, ((0, rb[-1][1] - 1),)) and constrain(st, b, ((ra[0][0] + 1, (1 << b.w) - 1),))
            elif p == "ule":
                return constrain(st, a, ((0, rb[-1][1]),)) and constrain(st, b, ((ra[0][0], (1 << b.w) - 1),))
            elif p == "ugt":
                return ra[-1][1] > 0 and constrain(st, b, ((0, ra[-1][1] - 1),)) and constrain(st, a, ((rb[0][0] + 1, (1 << a.w) - 1),))
            elif p == "uge":
                return constrain(st, b, ((0, ra[-1][1]),)) and constrain(st, a, ((rb[0][0], (1 << a.w) - 1),))
        return True
    if v.op == "cast" and v.a[0] == "trunc":
        x = v.a[1]
        st.pf[v] = t
        if x.op == "cast" and x.a[0] == "zext" and x.a[1].w == 1: return assume(st, x.a[1], t)
        if x.op in ("ld", "sym") and x.w == 8:
            return constrain(st, x, compl(((0, 0),), 8) if t else ((0, 0),)) if not t else constrain(st, x, ((1, 1),))
        return True
    if v.op == "bin":
        k, a, b = v.a
        if k == "xor" and isc(b) and b.a[0] == 1: return assume(st, a, not t)
        if k == "and" and t: return assume(st, a, True) and assume(st, b, True)
        if k == "or" and not t: return assume(st, a, False) and assume(st, b, False)
    st.pf[v] = t
    return True

# ---------------------------------------------------------------- expression construction
def mkcast(st, kind, x, sw, dw):
    if kind in ("bitcast", "ptrtoint", "inttoptr", "addrspacecast"): return x
    if isc(x):
        c = x.a[0]
        if kind == "zext": return C(c, dw)
        if kind == "trunc": return C(c, dw)
        if kind == "sext":
            if c >> (sw - 1): c += (1 << dw) - (1 << sw)
            return C(c, dw)
    if kind == "trunc":
        if x.op == "cast" and x.a[0] in ("zext", "sext") and x.a[1].w == dw: return x.a[1]
        if x.op == "cast" and x.a[0] == "zext" and x.a[1].w < dw: return mk("cast", "zext", x.a[1], w=dw)
    if kind == "zext" and x.op == "cast" and x.a[0] == "zext": return mk("cast", "zext", x.a[1], w=dw)
    if x.op == "undef": return sym("undef", w=dw)
    return mk("cast", kind, x, w=dw)

def sgn(c, w):
    return c - (1 << w) if c >> (w - 1) else c

def mkbin(st, k, a, b, w):
    if isc(a) and isc(b):
        x, y = a.a[0], b.a[0]
        try:
            if k == "add": return C(x + y, w)
            if k == "sub": return C(x - y, w)
            if k == "mul": return C(x * y, w)
            if k == "and": return C(x & y, w)
            if k == "or": return C(x | y, w)
            if k == "xor": return C(x ^ y, w)
            if k == "shl": return C(x << y if y < w else 0, w)
            if k == "lshr": return C(x >> y, w)
            if k == "ashr": return C(sgn(x, w) >> y, w)
            if k == "udiv" and y: return C(x // y, w)
            if k == "urem" and y: return C(x % y, w)
            if k == "sdiv" and y: return C(int(sgn(x, w) / sgn(y, w)), w)
            if k == "srem" and y:
                p, q = sgn(x, w), sgn(y, w)
                return C(p - q * int(p / q), w)
        except OverflowError:
            pass
    if isc(a) and k in ("add", "mul", "and", "or", "xor"): a, b = b, a
    if isc(b):
        y = b.a[0]
        if y == 0 and k in ("add", "sub", "or", "xor", "shl", "lshr", "ashr"): return a
        if y == 0 and k in ("mul", "and"): return C(0, w)
        if y == 1 and k in ("mul", "udiv", "sdiv"): return a
        if k == "sub": k = "add"; b = C(-y, w)
        if k == "add" and a.op == "bin" and a.a[0] == "add" and isc(a.a[2]):
            return mkbin(st, "add", a.a[1], C(a.a[2].a[0] + b.a[0], w), w)
        # comparison results combined with constants
        if k == "add" and a.op == "ptr": return ptradd(a, sgn(b.a[0], 64))
    if a is b:
        if k in ("sub", "xor"): return C(0, w)
        if k in ("and", "or"): return a
    if k == "sub" and a.op == "ptr" and b.op == "ptr" and a.a[0] is b.a[0]:
        return suboff(a.a[1], b.a[1])
    if k == "sub" and a.op == "ptr" and a.a[0].base is b:
        return off_v(a.a[1])
    if k == "sub" and a.op == "bin" and a.a[0] == "add":
        if a.a[2] is b: return a.a[1]
        if a.a[1] is b: return a.a[2]
    if k in ("add", "mul", "and", "or", "xor") and not isc(b) and a.n > b.n: a, b = b, a
    return mk("bin", k, a, b, w=w)

def off_v(x):
    return x if isinstance(x, V) else C(x, 64)

def suboff(x, y):
    return mkbin(None, "sub", off_v(x), off_v(y), 64)

def ptradd(p, k):
    """pointer + k bytes (int or V)."""
    o, off = as_ptr(p)
    if isinstance(k, V) and isc(k): k = sgn(k.a[0], 64)
    if isinstance(off, V) or isinstance(k, V):
        return mkptr(o, mkbin(None, "add", off_v(off), off_v(k), 64))
    return mkptr(o, off + k)

def mkicmp(pred, a, b):
    if isc(a) and not isc(b): a, b, pred = b, a, SWAP[pred]
    if isc(a) and isc(b):
        return C(1 if inter(((a.a[0], a.a[0]),), cmpset(pred, b.a[0], a.w)) else 0, 1)
    # (zext i1 x) ==/!= 0/1
    if isc(b) and pred in ("eq", "ne") and a.op == "cast" and a.a[0] == "zext" and a.a[1].w == 1 and b.a[0] in (0, 1):
        pos = (pred == "ne") == (b.a[0] == 0)
        x = a.a[1]
        if pos: return x
        return mknot(x)
    if isc(b) and b.a[0] == 0 and pred in ("eq", "ne") and a.op == "bin" and a.a[0] == "sub":
        return mkicmp(pred, a.a[1], a.a[2])
    return mk("icmp", pred, a, b, w=1)

def mknot(x):
    if x.op == "icmp": return mk("icmp", NEG[x.a[0]], x.a[1], x.a[2], w=1)
    if x.op == "bin" and x.a[0] == "xor" and isc(x.a[2]): return x.a[1]
    if isc(x): return C(1 - x.a[0], 1)
    return mk("bin", "xor", x, TRUE, w=1)

# ---------------------------------------------------------------- program
class Fn:
    __slots__ = ("name", "d", "blocks", "succ", "pred", "rpo", "live", "file", "nargs", "header", "ditypes", "argnames", "vn")

class Program:
    def __init__(self, dump):
        self.d = dump
        self.enums = {k: v[0] for k, v in dump["enums"].items()}
        self.enumty = {k: v[1] for k, v in dump["enums"].items()}
        self.di = dump["di"]
        self.fns = {}
        for n, f in dump["functions"].items():
            F = Fn()
            F.name = n; F.d = f; F.file = f.get("file", ""); F.nargs = f["nargs"]
            F.ditypes = f.get("dity", []); F.argnames = f.get("argnames", [])
            F.vn = {int(k): v for k, v in f.get("vn", {}).items()}
            F.blocks = f.get("blocks"); F.succ = None
            self.fns[n] = F

    def field(self, ty, *names):
        """Offset of a (nested) field by debug-info names."""
        off = 0
        for n in names:
            for fn, o, s, t in self.di[ty]["f"]:
                if fn == n:
                    off += o; ty = t.replace("const ", ""); break
            else:
                raise KeyError((ty, n))
        return off

    def prep(self, F):
        if F.succ is not None: return
        nb = len(F.blocks)
        F.succ = []
        for b in F.blocks:
            t = b[-1]
            if t[1] == "br": F.succ.append([t[3], t[4]])
            elif t[1] == "jmp": F.succ.append([t[2]])
            elif t[1] == "switch": F.succ.append(sorted(set([t[3]] + [c[1] for c in t[4]])))
            else: F.succ.append([])
        F.pred = [[] for _ in range(nb)]
        for i, ss in enumerate(F.succ):
            for s in ss: F.pred[s].append(i)
        # reverse post order in which the body of a loop comes before its exits
        def dfs1(succ):
            seen = {0}; order = []; onst = {0}; back = []
            stack = [(0, iter(succ[0]))]
            while stack:
                n, it = stack[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s); onst.add(s)
                        stack.append((s, iter(succ[s]))); break
                    elif s in onst: back.append((n, s))
                else:
                    stack.pop(); onst.discard(n); order.append(n)
            order.reverse()
            return order, back
        order, back = dfs1(F.succ)
        if back:
            loops = {b: set() for b in range(nb)}
            for n, h in back:
                body = {h}; work = [n]
                while work:
                    x = work.pop()
                    if x not in body:
                        body.add(x); work += F.pred[x]
                for x in body: loops[x].add(h)
            order, back = dfs1([sorted(ss, key=lambda s, b=b: len(loops[b] & loops[s])) for b, ss in enumerate(F.succ)])
        F.header = {h for _, h in back}
        F.rpo = {b: i for i, b in enumerate(order)}
        # liveness
        use = []; dfs = []; phiuse = [dict() for _ in range(nb)]
        def ops(x, acc):
            if isinstance(x, list):
                if len(x) == 2 and x[0] == "r": acc.add(x[1])
                else:
                    for y in x: ops(y, acc)
        for bi, b in enumerate(F.blocks):
            u = set(); d = set()
            for ins in b:
                op = ins[1]
                if op == "phi":
                    for v, p in ins[4]:
                        a = set(); ops([v], a)
                        phiuse[p].setdefault(bi, set()).update(a)
                    d.add(ins[2]); continue
                a = set()
                if op in ("store", "br", "switch", "ret", "jmp", "unreachable"): ops(ins[2:], a)
                else: ops(ins[3:], a)
                u |= (a - d)
                if op not in ("store", "br", "switch", "ret", "jmp", "unreachable"): d.add(ins[2])
            use.append(u); dfs.append(d)
        live = [set() for _ in range(nb)]
        ch = True
        while ch:
            ch = False
            for b in reversed(order):
                out = set()
                for s in F.succ[b]:
                    out |= live[s]
                    out |= phiuse[b].get(s, set())
                n = use[b] | (out - dfs[b])
                if n != live[b]: live[b] = n; ch = True
        F.live = live

# ---------------------------------------------------------------- contexts
_ctx = {}
_ctxinfo = []

def mkctx(parent, fn, line, ins):
    k = (parent, fn, ins)
    c = _ctx.get(k)
    if c is None:
        c = len(_ctxinfo)
        _ctx[k] = c
        _ctxinfo.append((parent, fn, line))
    return c

class Site:
    """A program point: the function, the line and the calling context."""
    __slots__ = ("A", "F", "line", "ctx", "ins")
    def __init__(self, A, F, line, ctx, ins):
        self.A = A; self.F = F; self.line = line; self.ctx = ctx; self.ins = ins
    def file(self):
        f = self.F.file
        return f[f.find("reference/"):] if "reference/" in f else f
    def loc(self):
        return "%s:%d" % (self.file(), self.line)
    def chain(self):
        r = []; c = self.ctx
        while c is not None and c >= 0:
            p, fn, line = _ctxinfo[c]
            r.append("%s:%d" % (fn, line) if line else fn)
            c = p
        return list(reversed(r))

class Budget(Exception):
    pass

# monitor facts that do not keep an unknown alive
WEAK = set()

# ---------------------------------------------------------------- analysis
class Analysis:
    K = 20          # disjuncts per join point before joining states that agree on the monitor facts
    KH = 6
    MAXDEPTH = 24

    def __init__(self, prog, monitors=(), models=None, opaque=(), budget=4000000):
        self.fieldptr = {}
        self.p = prog
        self.monitors = list(monitors)
        self.models = dict(models or {})
        self.opaque = set(opaque)
        self.steps = 0
        self.budget = budget
        self.reports = {}
        self.stats = {"functions": set(), "calls": 0, "joins": 0, "paths": 0, "externals": set(), "lossy": 0, "blocks": set()}
        self.hooks = {}
        for h in ("call", "ret", "ext", "assume", "load", "store", "exit", "alloc", "deref", "leave", "subst", "dead", "memcpy"):
            self.hooks[h] = [getattr(m, "on_" + h) for m in self.monitors if hasattr(m, "on_" + h)]
        self.keys = [m.key for m in self.monitors if hasattr(m, "key")]
        self.hard = [m.hardkey for m in self.monitors if hasattr(m, "hardkey")]
        self.joinmon = {}
        self.joinhooks = [m.on_join for m in self.monitors if hasattr(m, "on_join")]
        for m in self.monitors:
            if hasattr(m, "joins"): self.joinmon.update(m.joins)

    # ---- reporting
    def report(self, rule, site, what, extra=None):
        fn = re.sub(r"\.\d+$", "", site.F.name)
        k = (rule, site.file(), fn, site.line, what)
        if k not in self.reports:
            self.reports[k] = {"rule": rule, "file": site.file(), "function": fn, "line": site.line, "what": what, "path": site.chain(), "extra": extra}

    # ---- entry
    def run(self, fname, args=None, pre=None):
        F = self.p.fns[fname]
        if F.blocks is None: raise KeyError(fname)
        st = new_state()
        if args is None:
            args = []
            for i in range(F.nargs):
                nm = F.argnames[i] if i < len(F.argnames) and F.argnames[i] else "arg%d" % i
                args.append(sym("arg", fname, i, nm, w=self.argw(F, i)))
        ctx = mkctx(-1, fname, 0, fname)
        st.regs = {i: a for i, a in enumerate(args)}
        self.args = args
        self.entry = F
        states = [st]
        if pre: states = pre(self, st) or [st]
        outs = self.inline(F, states, ctx, 0)
        site = Site(self, F, F.d.get("line", 0), ctx, None)
        res = []
        for s, line in outs:
            site = Site(self, F, line, ctx, None)
            self.stats["paths"] += 1
            for h in self.hooks["exit"]: h(self, s, site, s.ret)
            res.append(s)
        return res

    def argw(self, F, i):
        t = F.ditypes[i + 1] if len(F.ditypes) > i + 1 else ""
        t = t.replace("const ", "")
        if t.endswith("*") or t.endswith("[]"): return 64
        return {"size_t": 64, "uint64_t": 64, "int": 32, "uint32_t": 32, "bool": 1, "_Bool": 1, "uint8_t": 8, "uint16_t": 16, "unsigned int": 32, "char": 8, "long": 64, "unsigned long": 64, "time_t": 64, "unsigned char": 8, "ta_client": 64, "sa_handle": 64}.get(t, self.typew(t))

    def typew(self, t):
        if t in self.p.di: return self.p.di[t]["size"] * 8
        if t.startswith("sa_") or t.startswith("SA_"):
            if t in ("sa_key", "sa_crypto_cipher_context", "sa_crypto_mac_context", "sa_svp_buffer"): return 64
            return 32
        return 64

    # ---- function body over a set of states
    def inline(self, F, states, ctx, depth):
        self.p.prep(F)
        self.stats["functions"].add(F.name)
        pending = {0: states}
        hist = {}
        visits = {}
        outs = []
        while pending:
            b = min(pending, key=lambda x: F.rpo[x])
            sts = pending.pop(b)
            npred = len(F.pred[b])
            if npred > 1 or len(sts) > self.K:
                sts = self.normalise(F, b, ctx, sts)
            if b in F.header:
                n = visits.get(b, 0); visits[b] = n + 1
                h = hist.setdefault(b, {})
                nxt = []
                for s in sts:
                    f = s.fp()
                    if ("fp", f) in h: continue
                    h[("fp", f)] = True
                    if n >= 2:
                        k = (self.hkey(s), self.statuskey(s)) if n < 6 else self.hkey(s) if n < 12 else ("all", self.refclass(s)) + tuple(x(s) for x in self.hard)
                        prev = h.get(("k", k))
                        if prev is not None:
                            j = self.join(prev, s, ctx, b, F, widen=(n >= 3))
                            jf = j.fp()
                            if n > 40:
                                self.stats["lossy"] += 1
                                continue
                            if jf == prev.fp(): continue
                            if ("fp", jf) in h:
                                h[("k", k)] = j
                                continue
                            h[("fp", jf)] = True
                            h[("k", k)] = j
                            s = j.copy()
                        else:
                            h[("k", k)] = s.copy()
                    nxt.append(s)
                sts = nxt
                if not sts: continue
            for (t, s) in self.block(F, b, sts, ctx, depth, outs):
                pending.setdefault(t, []).append(s)
        return outs

    def mkey(self, s):
        return tuple(k(s) for k in self.keys)

    def hkey(self, s):
        return (self.mkey(s), self.ptrclass(s))

    def ptrclass(self, s):
        """Which live registers and locals hold null or a tracked object."""
        r = []
        mon = s.mon
        for k, v in s.regs.items():
            if v.w == 64 and (v is NULL or ("res", v) in mon or ("ref", v) in mon or v.op == "ptr" and v.a[0].kind == "stack"): r.append((k, v))
        for o, c in s.mem.items():
            if o.kind == "stack":
                for off, (v, w) in c.items():
                    if w == 8 and (v is NULL or ("res", v) in mon or ("ref", v) in mon): r.append((o, off, v))
        return frozenset(r)

    def refclass(self, s):
        """Which local holds which acquired object."""
        mon = s.mon
        return frozenset((o, off, v) for o, c in s.mem.items() if o.kind == "stack" for off, (v, w) in c.items() if w == 8 and ("ref", v) in mon)

    def zclass(self, s):
        r = []
        for k, v in s.regs.items():
            if v.op == "c": r.append((k, v.a[0] if v.w <= 8 else (0 if v.a[0] == 0 else 1)))
            elif v.op in ("sym", "ld") and v in s.rg:
                g = s.rg[v]
                if g == ((0, 0),): r.append((k, 0))
                elif g[0][0] > 0: r.append((k, 1))
        for o, c in s.mem.items():
            if o.kind == "stack":
                for off, (v, w) in c.items():
                    if v.op == "c": r.append((o, off, 0 if v.a[0] == 0 else 1))
        return frozenset(r)

    def normalise(self, F, b, ctx, sts):
        live = F.live[b]
        phis = {i[2] for i in F.blocks[b] if i[1] == "phi"}
        seen = {}
        for s in sts:
            if len(s.regs) > len(live):
                s.regs = {k: v for k, v in s.regs.items() if k in live or k in phis}
            seen.setdefault(s.fp(), s)
        sts = list(seen.values())
        if len(sts) <= self.K: return sts
        groups = {}
        for s in sts:
            groups.setdefault((self.mkey(s), self.zclass(s), self.refclass(s)), []).append(s)
        if len(groups) > self.K:
            groups = {}
            for s in sts:
                groups.setdefault((self.mkey(s), self.ptrclass(s), self.statuskey(s)), []).append(s)
        if len(groups) > 3 * self.K:
            groups = {}
            for s in sts:
                groups.setdefault((self.mkey(s), self.ptrclass(s)), []).append(s)
        if len(groups) > 15 * self.K:
            self.stats["lossy"] += 1
            groups = {}
            for s in sts:
                groups.setdefault((self.refclass(s),) + tuple(h(s) for h in self.hard), []).append(s)
        out = []
        for g in groups.values():
            j = g[0]
            for s in g[1:]:
                j = self.join(j, s, ctx, b, F)
            out.append(j)
        return out

    def statuskey(self, s):
        """Zero-ness of i32/i1/i8 constants of the live registers: status codes and flags."""
        r = []
        for k, v in s.regs.items():
            if v.w > 32: continue
            if v.op == "c": r.append((k, 0 if v.a[0] == 0 else 1))
            elif v in s.rg and s.rg[v] and s.rg[v][0][0] > 0: r.append((k, 1))
        return frozenset(r)

    # ---- join
    def join(self, a, b, ctx, blk, F, widen=False):
        self.stats["joins"] += 1
        r = State.__new__(State)
        newr = {}
        jpairs = {}
        def jv(x, y, slot, w=None):
            if x is y: return x
            key = (x, y) if not widen else slot
            if key in jpairs: return jpairs[key]
            w = x.w
            j = sym("join", ctx, blk, slot, w=w)
            ra = rng(a, x); rb = rng(b, y)
            if x.op == "undef" or y.op == "undef":
                u = full(w)
                if x.op == "undef" and y.op != "undef" and y is j: u = rb
            else:
                u = union(ra, rb)
            if widen and u != ra and x is j:
                lo = u[0][0] if u[0][0] >= ra[0][0] else 0
                hi = u[-1][1] if u[-1][1] <= ra[-1][1] else (1 << w) - 1
                u = ((lo, hi),)
            if u != full(w): newr[j] = u
            jpairs[key] = j
            jw[j] = (x, y)
            return j
        jw = {}
        jvers = set()
        r.regs = {}
        for k in a.regs:
            if k in b.regs:
                r.regs[k] = jv(a.regs[k], b.regs[k], ("r", k))
        r.stack = self.jstack(a.stack, b.stack, jv)
        r.mem = {}; r.dflt = {}; r.ver = {}
        for o in set(a.mem) | set(b.mem) | set(a.ver) | set(b.ver) | set(a.dflt) | set(b.dflt):
            ca = a.mem.get(o); cb = b.mem.get(o)
            va = a.ver.get(o); vb = b.ver.get(o); da = a.dflt.get(o); db = b.dflt.get(o)
            if ca is cb and va == vb and da == db:
                if ca is not None: r.mem[o] = ca
                if va is not None: r.ver[o] = va
                if da is not None: r.dflt[o] = da
                continue
            if o.kind == "stack" and ((o not in a.dflt and ca is None) or (o not in b.dflt and cb is None)):
                # not allocated on one side
                src = a if (o in a.dflt or ca is not None) else b
                if o in src.mem: r.mem[o] = src.mem[o]
                if o in src.ver: r.ver[o] = src.ver[o]
                if o in src.dflt: r.dflt[o] = src.dflt[o]
                continue
            same = va == vb and da == db
            if not same:
                tok = sym("join", ctx, blk, ("ver", o))
                jvers.add(tok)
                r.ver[o] = tok
                if da == db and da is not None: r.dflt[o] = da
                elif da and db:
                    # what both sides know about the contents of the same bytes
                    d = []
                    for x0, x1, kx in da:
                        for y0, y1, ky in db:
                            lo = max(x0, y0); hi = min(x1, y1)
                            if lo >= hi: continue
                            if isinstance(kx, tuple):
                                if not isinstance(ky, tuple) or kx[0] != ky[0] or kx[1] is not ky[1] or kx[3] is not ky[3] or kx[2] - x0 != ky[2] - y0: continue
                                d.append((lo, hi, (kx[0], kx[1], kx[2] + lo - x0, kx[3])))
                            elif kx == ky: d.append((lo, hi, kx))
                    if d: r.dflt[o] = tuple(d)
            else:
                if va is not None: r.ver[o] = va
                if da is not None: r.dflt[o] = da
            cells = {}
            ca = ca or {}; cb = cb or {}
            for off in set(ca) | set(cb):
                x = ca.get(off); y = cb.get(off)
                w = (x or y)[1]
                if x is None: x = (self.initial(a, o, off, w), w) if not self.overlaps(ca, off, w) else None
                if y is None: y = (self.initial(b, o, off, w), w) if not self.overlaps(cb, off, w) else None
                if x is None or y is None: continue
                if x[1] != y[1]: continue
                v = jv(x[0], y[0], ("m", o, off))
                cells[off] = (v, w)
            if cells: r.mem[o] = cells
        r.rg = {}
        for v, x in a.rg.items():
            y = b.rg.get(v)
            if y is None:
                if v.op in ("sym", "ld"): continue
                y = rng(b, v)
            u = union(x, y)
            if widen and u != x:
                lo = u[0][0] if u[0][0] >= x[0][0] else 0
                hi = u[-1][1] if u[-1][1] <= x[-1][1] else (1 << v.w) - 1
                u = ((lo, hi),)
            if u != full(v.w): r.rg[v] = u
        js = set(jpairs.values()) | jvers
        r.pf = {}
        for v, t in a.pf.items():
            if b.pf.get(v) == t: r.pf[v] = t
            elif v not in b.pf and v.op == "icmp" and truth(b, v) == t: r.pf[v] = t
        for v, t in b.pf.items():
            if v not in a.pf and v.op == "icmp" and truth(a, v) == t: r.pf[v] = t
        if js:
            for v in [v for v in r.pf if v.syms & js]: del r.pf[v]
            for v in [v for v in r.rg if v.syms & js]: del r.rg[v]
        r.rg.update(newr)
        r.mon = {}
        for k in set(a.mon) | set(b.mon):
            x = a.mon.get(k); y = b.mon.get(k)
            if x == y: r.mon[k] = x
            else:
                f = self.joinmon.get(k[0] if isinstance(k, tuple) else k)
                if f is not None:
                    z = f(x, y)
                    if z is not None: r.mon[k] = z
                # default: drop (must-facts)
        if self.joinhooks:
            self.jctx = ctx; self.jmap = jw
            self.jsyms = js
            for h in self.joinhooks: h(self, a, b, r)
        r.seen = a.seen | b.seen
        r.ret = a.ret if a.ret is b.ret else (jv(a.ret, b.ret, ("ret",)) if a.ret is not None and b.ret is not None else None)
        if r.ret is not None and r.ret in newr: r.rg[r.ret] = newr[r.ret]
        return r

    def jstack(self, x, y, jv):
        if x is y or (x is not None and y is not None and x[3] == y[3]): return x
        if x is None or y is None: return x
        regs = {}
        for k in x[0]:
            if k in y[0]: regs[k] = jv(x[0][k], y[0][k], ("f", x[2], k))
        par = self.jstack(x[1], y[1], jv)
        return (regs, par, x[2], (frozenset(regs.items()), None if par is None else par[3]))

    def overlaps(self, cells, off, w):
        for o, (v, ww) in cells.items():
            if isinstance(o, V) or isinstance(off, V):
                if o is not off: return True
                continue
            if o < off + w and off < o + ww: return True
        return False

    # ---- memory
    def initial(self, st, o, off, w):
        """Value of a cell that was not written explicitly."""
        bits = w * 8
        d = st.dflt.get(o)
        if d is not None and not isinstance(off, V):
            for lo, hi, kind in d:
                if lo <= off and off + w <= hi:
                    if kind == "zero": return C(0, bits)
                    if kind == "undef": return mk("undef", w=bits) if False else sym("undef", o, off, w=bits)
                    if kind[0] == "copy":
                        return mk("ld", kind[1], off - lo + kind[2], kind[3], w=bits)
                elif off < hi and lo < off + w:
                    break
        if o.kind == "global":
            g = self.p.d["globals"].get(o.key)
            if g and g["const"] and "init" in g:
                if isinstance(off, V): return mk("ld", o, off, None, w=bits)
                for oo, s, v in g["init"]:
                    if oo == off and s == w: return self.cval(v, bits)
                if g.get("zero"): return C(0, bits)
                if "str" in g:
                    pass
                elif w in (1, 2, 4, 8) and off + w <= g["size"]:
                    # zero parts of initialised aggregates are omitted from the dump
                    if not any(oo < off + w and off < oo + s for oo, s, v in g["init"]): return C(0, bits)
        v = mk("ld", o, off, st.ver.get(o), w=bits)
        return v

    def cval(self, x, w=64):
        k = x[0]
        if k == "c": return C(x[1], x[2])
        if k == "n": return NULL
        if k == "g":
            g = self.p.d["globals"].get(x[1])
            return mkptr(obj("global", x[1], size=g["size"] if g else None), x[2])
        if k == "f": return mk("fn", x[1])
        return UNDEF

    def load(self, st, p, w):
        o, off = as_ptr(p)
        cells = st.mem.get(o)
        if cells:
            c = cells.get(off)
            if c is not None and c[1] == w: return c[0]
            if isinstance(off, V):
                if any(True for k in cells): return mk("ld", o, off, (st.ver.get(o), "w", len(cells), hash(frozenset(cells.items()))), w=w * 8)
            else:
                for k, (v, ww) in cells.items():
                    if isinstance(k, V): continue
                    if k < off + w and off < k + ww:
                        if isc(v) and k <= off and off + w <= k + ww:
                            return C(v.a[0] >> (8 * (off - k)), w * 8)
                        if k <= off and off + w <= k + ww:
                            return mkcast(st, "trunc", mkbin(st, "lshr", v, C(8 * (off - k), v.w), v.w), v.w, w * 8)
                        return sym("part", o, off, w, v, w=w * 8)
        return self.initial(st, o, off, w)

    def store(self, st, p, v, w):
        o, off = as_ptr(p)
        cells = dict(st.mem.get(o) or {})
        if isinstance(off, V):
            # weak update: whatever may overlap is forgotten
            r = rng(st, off)
            lo, hi = (r[0][0], r[-1][1]) if r else (0, 1 << 62)
            for k in list(cells):
                if isinstance(k, V) or (k < hi + w and lo < k + cells[k][1]): del cells[k]
            st.ver[o] = mk("upd", p, v)
            cells[off] = (v, w)
            d = st.dflt.get(o)
            if d:
                nd = []
                for a, b, kd in d:
                    if b <= lo or a >= hi + w: nd.append((a, b, kd)); continue
                    if not isinstance(kd, tuple): continue
                    if a < lo: nd.append((a, lo, kd))
                    if b > hi + w: nd.append((hi + w, b, (kd[0], kd[1], kd[2] + hi + w - a, kd[3])))
                st.dflt[o] = tuple(nd)
        else:
            for k in list(cells):
                if isinstance(k, V) or (k != off and k < off + w and off < k + cells[k][1]): del cells[k]
            cells[off] = (v, w)
        st.mem[o] = cells

    def token(self, st, site, extra):
        """A new name for contents written here by something outside."""
        return self.fresh(st, "out", site.F.name, site, extra=extra)

    def havoc(self, st, p, why):
        """Contents of the object behind p become unknown."""
        if isc(p): return
        if isinstance(why, tuple): why = self.token(st, why[0], why[1:])
        o, off = as_ptr(p)
        st.mem.pop(o, None)
        st.dflt.pop(o, None)
        st.ver[o] = why

    def havoc_range(self, st, p, n, why):
        if isinstance(why, tuple): why = self.token(st, why[0], why[1:])
        o, off = as_ptr(p)
        if isinstance(off, V) or n is None or not isc(n):
            if isinstance(off, int) and off > 0 or isinstance(off, V):
                r = rng(st, off) if isinstance(off, V) else ((off, off),)
                lo = r[0][0] if r else 0
                cells = dict(st.mem.get(o) or {})
                for k in list(cells):
                    if isinstance(k, V) or k + cells[k][1] > lo: del cells[k]
                st.mem[o] = cells
                # cells below keep their value: materialisation is not needed when unversioned
                st.ver[o] = why
                d = st.dflt.get(o)
                if d: st.dflt[o] = tuple(x for x in d if x[1] <= lo)
                return
            return self.havoc(st, p, why)
        lo, hi = off, off + n.a[0]
        cells = dict(st.mem.get(o) or {})
        for k in list(cells):
            if isinstance(k, V) or (k < hi and lo < k + cells[k][1]): del cells[k]
        d = list(st.dflt.get(o) or ())
        nd = []
        for a, b, kind in d:
            if b <= lo or a >= hi: nd.append((a, b, kind)); continue
            if a < lo: nd.append((a, lo, kind))
            if b > hi:
                nd.append((hi, b, kind if not isinstance(kind, tuple) else (kind[0], kind[1], kind[2] + hi - a, kind[3])))
        nd.append((lo, hi, ("copy", deref(why), lo, None)))
        st.dflt[o] = tuple(nd)
        st.mem[o] = cells

    def setregion(self, st, p, n, kind, site):
        o, off = as_ptr(p)
        if isinstance(off, V) or not isc(n):
            size = st.mon.get(("size", o.base)) if o.base is not None else None
            if kind == "zero" and not isinstance(off, V) and off == 0 and (size is n and n is not None):
                st.mem.pop(o, None); st.dflt[o] = ((0, 1 << 40, "zero"),); return
            return self.havoc_range(st, p, n, (site, "set"))
        lo, hi = off, off + n.a[0]
        cells = dict(st.mem.get(o) or {})
        for k in list(cells):
            if isinstance(k, V) or (k < hi and lo < k + cells[k][1]): del cells[k]
        if cells or o in st.mem: st.mem[o] = cells
        nd = []
        for a, b, kd in st.dflt.get(o) or ():
            if b <= lo or a >= hi: nd.append((a, b, kd)); continue
            if a < lo: nd.append((a, lo, kd))
            if b > hi: nd.append((hi, b, kd if not isinstance(kd, tuple) else (kd[0], kd[1], kd[2] + hi - a, kd[3])))
        nd.append((lo, hi, kind))
        st.dflt[o] = tuple(nd)

    def memcpy(self, st, d, s, n, site):
        for h in self.hooks["memcpy"]: h(self, st, d, s, n, site)
        do, doff = as_ptr(d); so, soff = as_ptr(s)
        if isinstance(doff, V) or isinstance(soff, V) or not isc(n):
            self.havoc_range(st, d, n, (site, "cpy"))
            return
        L = n.a[0]
        if isc(d) or isc(s): return
        src = st.mem.get(so) or {}
        cp = {}
        for k, (v, w) in src.items():
            if isinstance(k, V): continue
            if soff <= k and k + w <= soff + L: cp[k - soff + doff] = (v, w)
        sd = st.dflt.get(so) or ()
        ver = st.ver.get(so)
        # target range: default is a copy of the source's initial contents
        self.setregion(st, d, n, ("copy", so, soff, ver), site)
        if sd:
            nd = list(st.dflt[do])
            add = []
            for a, b, kd in sd:
                lo = max(a, soff); hi = min(b, soff + L)
                if lo < hi:
                    add.append((lo - soff + doff, hi - soff + doff, kd if not isinstance(kd, tuple) else (kd[0], kd[1], kd[2] + lo - a, kd[3])))
            if add:
                base = nd.pop()
                # split the base region around the additions
                pts = [base[0]]
                cur = base[0]
                for x in sorted(add, key=lambda z: z[0]):
                    if x[0] > cur: nd.append((cur, x[0], ("copy", so, soff + cur - base[0], ver)))
                    nd.append(x); cur = x[1]
                if cur < base[1]: nd.append((cur, base[1], ("copy", so, soff + cur - base[0], ver)))
                st.dflt[do] = tuple(nd)
        cells = dict(st.mem.get(do) or {})
        for k in list(cells):
            if isinstance(k, V) or (k < doff + L and doff < k + cells[k][1]): del cells[k]
        cells.update(cp)
        st.mem[do] = cells

    # ---- fresh unknowns
    def fresh(self, st, kind, name, site, w=64, extra=None):
        """An unknown made at this site; an older unknown of the same site is renamed first."""
        k = sym(kind, name, site.ctx, site.line, site.ins, extra, w=w)
        if k in st.seen:
            old = sym(kind, name, site.ctx, site.line, site.ins, ("old", extra), w=w)
            self.rename(st, k, old)
        st.seen = st.seen | {k}
        return k

    def rename(self, st, k, old):
        cache = {}
        def sv(v):
            if not isinstance(v, V): return v
            if k not in v.syms: return v
            r = cache.get(v)
            if r is not None: return r
            if v is k: r = old
            else:
                na = tuple(so(x) if isinstance(x, Obj) else sv(x) for x in v.a)
                if v.op == "ptr": r = mkptr(na[0], na[1])
                else: r = mk(v.op, *na, w=v.w)
            cache[v] = r
            return r
        def so(o):
            if o.base is not None and k in o.base.syms: return deref(sv(o.base))
            return o
        st.regs = {i: sv(v) for i, v in st.regs.items()}
        def sstack(x):
            if x is None: return None
            par = sstack(x[1])
            if par is x[1] and not any(k in v.syms for v in x[0].values()): return x
            regs = {i: sv(v) for i, v in x[0].items()}
            return (regs, par, x[2], (frozenset(regs.items()), None if par is None else par[3]))
        st.stack = sstack(st.stack)
        nm = {}
        for o, c in st.mem.items():
            o2 = so(o)
            c2 = {}
            for off, (v, w) in c.items(): c2[sv(off)] = (sv(v), w)
            if o2 in nm: nm[o2] = {}
            else: nm[o2] = c2
        st.mem = nm
        st.ver = {so(o): sv(v) for o, v in st.ver.items()}
        st.dflt = {so(o): tuple((a, b, kd if not isinstance(kd, tuple) else (kd[0], so(kd[1]), kd[2], sv(kd[3]))) for a, b, kd in d) for o, d in st.dflt.items()}
        clash = any(old in v.syms for v in st.rg)
        nr = {}
        for v, x in st.rg.items():
            v2 = sv(v)
            if v2 is v: nr[v2] = union(nr[v2], x) if v2 in nr else x
            elif v2 in st.rg or v2 in nr: nr[v2] = union(st.rg.get(v2, nr.get(v2)), x)
            elif not clash: nr[v2] = x
        st.rg = nr
        np = {}
        for v, t in st.pf.items():
            v2 = sv(v)
            if v2 is not v and clash and st.pf.get(v2) != t: continue
            np[v2] = t
        st.pf = np
        nmon = {}
        for key, val in st.mon.items():
            if isinstance(key, tuple): key2 = tuple(sv(x) if isinstance(x, V) else (so(x) if isinstance(x, Obj) else x) for x in key)
            else: key2 = key
            def sval(x):
                if isinstance(x, V): return sv(x)
                if isinstance(x, tuple): return tuple(sval(y) for y in x)
                if isinstance(x, frozenset): return frozenset(sval(y) for y in x)
                return x
            nmon[key2] = sval(val)
        st.mon = nmon
        for h in self.hooks["subst"]: h(self, st, k, old)
        st.seen = st.seen | {old}

    # ---- garbage at the end of an activation
    def leave(self, st, F, ctx):
        """Forget the callee's stack objects and what only they could reach."""
        dead = [o for o in set(st.mem) | set(st.dflt) | set(st.ver) if o.kind == "stack" and o.key[0] == ctx]
        for o in dead:
            for h in self.hooks["dead"]: h(self, st, o, ctx)
        for o in dead:
            st.mem.pop(o, None); st.ver.pop(o, None); st.dflt.pop(o, None)
        # unknowns created below this activation that nothing refers to any more
        cand = set()
        for v in st.seen:
            if v.op == "sym" and v.a[0] in ("call", "alloc", "loop", "out"):
                c = v.a[2]
                while c is not None and c > ctx: c = _ctxinfo[c][0]
                if c == ctx: cand.add(v)
        if not cand: return
        live = set()
        if st.ret is not None: live |= st.ret.syms
        for o, cells in st.mem.items():
            if o.base is not None: pass
            for off, (v, w) in cells.items(): live |= v.syms
        for v in st.ver.values():
            if v is not None: live |= v.syms
        for d in st.dflt.values():
            for a, b, kd in d:
                if isinstance(kd, tuple):
                    if kd[1].base is not None: live |= kd[1].base.syms
                    if kd[3] is not None: live |= kd[3].syms
        weak = []
        for k, v in st.mon.items():
            if isinstance(k, tuple):
                if k[0] == "size" or (k[0] == "res" and v[1] == "freed") or k[0] in WEAK:
                    weak.append(k)
                    continue
                for x in k:
                    if isinstance(x, V): live |= x.syms
                    elif isinstance(x, Obj) and x.base is not None: live |= x.base.syms
            for x in (v if isinstance(v, (tuple, frozenset)) else (v,)):
                if isinstance(x, V): live |= x.syms
        for o in st.dflt:
            pass
        for k in weak:
            if k[0] == "size" and not (k[1].syms & (cand - live)):
                x = st.mon[k]
                if isinstance(x, V): live |= x.syms
        kill = cand - live
        if not kill: return
        st.seen = st.seen - kill
        for k in weak:
            for x in k[1:]:
                if isinstance(x, V) and x.syms & kill:
                    st.mon.pop(k, None); break
        for v in [v for v in st.rg if v.syms & kill]: del st.rg[v]
        for v in [v for v in st.pf if v.syms & kill]: del st.pf[v]
        for o in [o for o in st.mem if o.base is not None and o.base.syms & kill]:
            r = st.mon.get(("res", o.base))
            if r is None or r[1] == "stored":
                # memory of somebody else that can no longer be named here: what it refers to is handed over
                for off, (v, w) in st.mem[o].items():
                    x = st.mon.get(("res", v)) if w == 8 else None
                    if x is not None and x[1] == "live": st.mon[("res", v)] = (x[0], "stored") + x[2:]
            del st.mem[o]
        for o in [o for o in st.ver if o.base is not None and o.base.syms & kill]: del st.ver[o]
        for o in [o for o in st.dflt if o.base is not None and o.base.syms & kill]: del st.dflt[o]

    # ---- block
    def block(self, F, b, states, ctx, depth, outs):
        ev = self.ev
        self.stats["blocks"].add((F.name, b))
        for ins in F.blocks[b]:
            op = ins[1]
            line = ins[0]
            if op == "phi": continue
            self.steps += len(states)
            if self.steps > self.budget: raise Budget(F.name)
            if op == "load":
                site = Site(self, F, line, ctx, ins[2])
                self.atomic = bool(ins[6]) if len(ins) > 6 else False
                keep = []
                for st in states:
                    p = ev(st, ins[3], ctx)
                    ok = True
                    for h in self.hooks["deref"]:
                        if h(self, st, p, ins[4], site, "load") is False: ok = False
                    if not ok: continue
                    v = self.load(st, p, ins[4])
                    bits = self.bits(ins[5])
                    if v.w != bits and v.op != "undef":
                        v = mkcast(st, "trunc" if v.w > bits else "zext", v, v.w, bits)
                    st.regs[ins[2]] = v
                    for h in self.hooks["load"]: h(self, st, p, v, ins[4], site)
                    keep.append(st)
                states = keep
            elif op == "store":
                site = Site(self, F, line, ctx, (b, line))
                self.atomic = bool(ins[5]) if len(ins) > 5 else False
                keep = []
                for st in states:
                    v = ev(st, ins[2], ctx); p = ev(st, ins[3], ctx)
                    ok = True
                    for h in self.hooks["deref"]:
                        if h(self, st, p, ins[4], site, "store") is False: ok = False
                    if not ok: continue
                    if v.op == "undef" and False: v = v
                    for h in self.hooks["store"]: h(self, st, p, v, ins[4], site)
                    self.store(st, p, v, ins[4])
                    keep.append(st)
                states = keep
            elif op == "gep":
                for st in states:
                    p = ev(st, ins[3], ctx)
                    q = ptradd(p, ins[4]) if ins[4] else p
                    if ins[6].startswith("struct.") and not isc(p): self.fieldptr.setdefault(as_ptr(q), set()).add((ins[6][7:].split(".")[0], ins[4], p))
                    for iv, stride in ins[5]:
                        x = ev(st, iv, ctx)
                        if x.w < 64: x = mkcast(st, "sext", x, x.w, 64)
                        q = ptradd(q, mkbin(st, "mul", x, C(stride, 64), 64))
                    st.regs[ins[2]] = q
            elif op == "icmp":
                for st in states:
                    v = mkicmp(ins[3], ev(st, ins[4], ctx), ev(st, ins[5], ctx))
                    st.regs[ins[2]] = v
            elif op == "cast":
                for st in states:
                    st.regs[ins[2]] = mkcast(st, ins[3], ev(st, ins[4], ctx), ins[5], ins[6])
            elif op == "bin":
                for st in states:
                    st.regs[ins[2]] = mkbin(st, ins[3], ev(st, ins[4], ctx), ev(st, ins[5], ctx), ins[6] or 64)
            elif op == "select":
                for st in states:
                    c = ev(st, ins[3], ctx); t = truth(st, c)
                    x = ev(st, ins[4], ctx); y = ev(st, ins[5], ctx)
                    st.regs[ins[2]] = x if t is True else y if t is False else (x if x is y else mk("select", c, x, y, w=x.w))
            elif op == "alloca":
                for st in states:
                    nm = F.vn.get(ins[2], (None, None))
                    o = obj("stack", (ctx, ins[2]), size=ins[3], name=nm[0] or "tmp", ty=nm[1])
                    st.mem.pop(o, None); st.dflt[o] = ((0, max(ins[3], 1), "undef"),); st.ver.pop(o, None)
                    n = ev(st, ins[5], ctx)
                    if isc(n) and n.a[0] == 1: st.mon.pop(("vla", o), None)
                    else: st.mon[("vla", o)] = C(n.a[0] * ins[3], n.w) if isc(n) else mkbin(st, "mul", n, C(ins[3], n.w), n.w) if ins[3] != 1 else n
                    st.regs[ins[2]] = mkptr(o, 0)
            elif op == "call":
                states = self.call(F, ins, states, ctx, depth, b)
                if not states: return
            elif op == "br":
                cond = ins[2]
                site = Site(self, F, line, ctx, (b, "br"))
                for st in states:
                    c = ev(st, cond, ctx)
                    t = truth(st, c)
                    if t is None and ins[3] != ins[4]:
                        s2 = st.copy()
                        if assume(st, c, True):
                            for h in self.hooks["assume"]: h(self, st, c, True, site)
                            yield self.edge(F, b, ins[3], st, ctx)
                        if assume(s2, c, False):
                            for h in self.hooks["assume"]: h(self, s2, c, False, site)
                            yield self.edge(F, b, ins[4], s2, ctx)
                    else:
                        if t is not None:
                            for h in self.hooks["assume"]: h(self, st, c, t, site)
                        yield self.edge(F, b, ins[3] if t else ins[4], st, ctx)
                return
            elif op == "jmp":
                for st in states: yield self.edge(F, b, ins[2], st, ctx)
                return
            elif op == "switch":
                site = Site(self, F, line, ctx, (b, "sw"))
                for st in states:
                    c = ev(st, ins[2], ctx)
                    w = c.w
                    dests = {}
                    for cv, d in ins[4]: dests.setdefault(d, []).append(cv)
                    r = rng(st, c)
                    allc = ()
                    for d, cvs in dests.items():
                        s = ()
                        for x in cvs: s = union(s, ((x, x),), cap=64)
                        allc = union(allc, s, cap=400)
                        if d == ins[3]: continue
                        if inter(r, s):
                            s2 = st.copy()
                            if constrain(s2, c, s):
                                for h in self.hooks["assume"]: h(self, s2, c, s, site)
                                yield self.edge(F, b, d, s2, ctx)
                    rest = compl(allc, w)
                    if ins[3] in dests:
                        for x in dests[ins[3]]: rest = union(rest, ((x, x),), cap=400)
                    if inter(r, rest):
                        if constrain(st, c, rest):
                            yield self.edge(F, b, ins[3], st, ctx)
                return
            elif op == "ret":
                for st in states:
                    st.ret = ev(st, ins[2], ctx) if ins[2] is not None else None
                    outs.append((st, line))
                return
            elif op == "unreachable":
                return
            elif op == "extractvalue":
                for st in states:
                    x = ev(st, ins[3], ctx)
                    if x.op == "ovf" and ins[4] in (0, 1): st.regs[ins[2]] = x.a[ins[4]]
                    else: st.regs[ins[2]] = mk("xv", x, ins[4])
            else:
                for st in states:
                    st.regs[ins[2]] = sym("other", ctx, ins[2])

    def bits(self, t):
        if t[0] == "i" and t[1:].isdigit(): return int(t[1:])
        return 64

    def edge(self, F, p, b, st, ctx):
        vals = None
        for ins in F.blocks[b]:
            if ins[1] != "phi": break
            if vals is None: vals = {}
            for v, pb in ins[4]:
                if pb == p:
                    vals[ins[2]] = self.ev(st, v, ctx)
                    break
        if vals: st.regs.update(vals)
        return (b, st)

    def ev(self, st, x, ctx):
        k = x[0]
        if k == "r": return st.regs[x[1]] if x[1] in st.regs else sym("lost", ctx, x[1])
        if k == "c": return C(x[1], x[2])
        if k == "n": return NULL
        if k == "g":
            g = self.p.d["globals"].get(x[1])
            return mkptr(obj("global", x[1], size=g["size"] if g else None), x[2])
        if k == "f": return mk("fn", x[1])
        if k == "z": return C(0, 64)
        return UNDEF

    # ---- calls
    def call(self, F, ins, states, ctx, depth, b):
        site = Site(self, F, ins[0], ctx, ins[2])
        out = []
        self.stats["calls"] += 1
        groups = {}
        for st in states:
            cal = self.ev(st, ins[3], ctx)
            args = [self.ev(st, a, ctx) for a in ins[4]]
            if cal.op == "fn": name = cal.a[0]
            else: name = None
            groups.setdefault(name, []).append((st, args, cal))
        for name, lst in groups.items():
            tgt = self.p.fns.get(name) if name else None
            model = self.models.get(name)
            if model is None and name and name.startswith("llvm."):
                model = self.models.get(name.split(".")[1])
                if model is None: model = m_nop
            if model is None and tgt is not None and tgt.blocks is not None and name not in self.opaque and depth < self.MAXDEPTH and not self.onstack(ctx, name):
                go = []
                cctx = mkctx(ctx, name, ins[0], ins[2])
                for st, args, cal in lst:
                    ok = True
                    for h in self.hooks["call"]:
                        if h(self, st, name, args, site) is False: ok = False
                    if not ok: continue
                    live = st.regs
                    st.stack = (live, st.stack, ctx, (frozenset(live.items()), None if st.stack is None else st.stack[3]))
                    st.regs = {i: a for i, a in enumerate(args[:tgt.nargs])}
                    go.append(st)
                if not go: continue
                res = self.inline(tgt, go, cctx, depth + 1)
                rs = []
                for st, line in res:
                    for h in self.hooks["leave"]: h(self, st, name, Site(self, tgt, line, cctx, None), site)
                    self.leave(st, tgt, cctx)
                    st.regs = {}
                    rs.append(st)
                if len(rs) > 1: rs = self.normalise_ret(rs, cctx, tgt)
                for st in rs:
                    st.regs = dict(st.stack[0]); st.stack = st.stack[1]
                    if st.ret is not None: st.regs[ins[2]] = st.ret
                    for h in self.hooks["ret"]: h(self, st, name, None, st.ret, site)
                    st.ret = None
                    out.append(st)
            else:
                for st, args, cal in lst:
                    ok = True
                    for h in self.hooks["call"]:
                        if h(self, st, name, args, site) is False: ok = False
                    if not ok: continue
                    if model is not None:
                        rs = model(self, st, name, args, site, self.bits(ins[5]))
                    else:
                        self.stats["externals"].add(name or "indirect")
                        rs = self.external(st, name, args, site, self.bits(ins[5]))
                    for s2, rv in rs:
                        if rv is not None: s2.regs[ins[2]] = rv
                        elif ins[5] != "v": s2.regs[ins[2]] = self.fresh(s2, "call", name, site, w=self.bits(ins[5]))
                        for h in self.hooks["ext"]: h(self, s2, name, args, s2.regs.get(ins[2]), site)
                        for h in self.hooks["ret"]: h(self, s2, name, args, s2.regs.get(ins[2]), site)
                        out.append(s2)
        return out

    def onstack(self, ctx, name):
        c = ctx
        n = 0
        while c is not None and c >= 0:
            if _ctxinfo[c][1] == name: n += 1
            c = _ctxinfo[c][0]
        return n >= 1

    def normalise_ret(self, sts, ctx, F):
        seen = {}
        for s in sts: seen.setdefault(s.fp(), s)
        sts = list(seen.values())
        if len(sts) <= 3: return sts
        groups = {}
        for s in sts:
            groups.setdefault((self.mkey(s), self.retclass(s)), []).append(s)
        out = []
        for g in groups.values():
            if len(g) <= 1: out += g; continue
            # states that agree on everything a caller can test stay apart only in small numbers
            j = g[0]
            for s in g[1:]: j = self.join(j, s, ctx, "ret", F)
            out.append(j)
        return out

    def retclass(self, s):
        """Return value class and null-ness of what was written to the caller's locals."""
        r = None
        if s.ret is not None:
            v = s.ret
            if v.op == "c": r = 0 if v.a[0] == 0 else (1 if v.w <= 1 or True else v.a[0])
            else:
                g = rng(s, v)
                r = 0 if g == ((0, 0),) else 1 if g and g[0][0] > 0 else ("v", v)
        m = []
        for o, c in s.mem.items():
            if o.kind == "stack":
                for off, (v, w) in c.items():
                    if w == 8:
                        g = rng(s, v)
                        m.append((o, off, 0 if g == ((0, 0),) else v if ("ref", v) in s.mon or ("res", v) in s.mon else 1 if g and g[0][0] > 0 else 2))
                    elif v.op == "c": m.append((o, off, v.a[0]))
        # what the caller holds in its registers
        if s.stack is not None:
            for k, v in s.stack[0].items():
                if v.op == "c" and v.w <= 32: m.append((k, 0 if v.a[0] == 0 else 1))
        return (r, frozenset(m))

    def external(self, st, name, args, site, w):
        F = self.p.fns.get(name) if name else None
        for i, a in enumerate(args):
            if F is not None and F.blocks is not None and len(F.ditypes) > i + 1 and F.ditypes[i + 1].startswith("const "): continue
            if a.op in ("ptr",) or (a.op in ("sym", "ld") and a.w == 64 and deref(a) in st.mem):
                o, off = as_ptr(a)
                if o.kind == "global":
                    g = self.p.d["globals"].get(o.key)
                    if g and g["const"]: continue
                self.havoc(st, a, (site, "ext", a.n))
        return [(st, None)]

def m_nop(A, st, name, args, site, w):
    return [(st, None)]
