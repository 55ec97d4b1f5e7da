"""Rights before use.  Every command is interpreted with its callees; where bytes of a key from the key store, or the cipher made from it, reach a
cryptographic operation, the path must have established on that key's own rights: the usage bit the operation needs, the validity period against the
current time, for symmetric ciphers the state of the video output, and for clear output SA_USAGE_FLAG_SVP_OPTIONAL.  The unwrapping of a key from
the store and its export are analysed on their own: the caller is in the list of allowed TAs, the period and the video output allow it, the rights
of the unwrapped key are the stored ones, and a key is exported only when it is cacheable."""
from driver import Job, run_jobs, program, merge, summarise, ta_entries, need
from core import *
import contracts, models, monitors

WEAK.update({"cmpw"})
BITS = {}
VID = (("SVP_OPTIONAL", "svp_enabled"), ("ALLOWED_ANALOG_UNPROTECTED", "analog_unprotected_count"), ("ALLOWED_ANALOG_CGMSA", "analog_cgmsa_count"),
       ("ALLOWED_DIGITAL_UNPROTECTED", "digital_unprotected_count"), ("ALLOWED_DIGITAL_HDCP14", "digital_hdcp14_count"), ("ALLOWED_DIGITAL_HDCP22", "digital_hdcp22_count"))
NOUSE = {"memset", "memory_memset_unoptimizable", "free", "OPENSSL_cleanse", "explicit_bzero", "log_entry", "CRYPTO_clear_free", "CRYPTO_free", "EVP_CIPHER_CTX_free", "EVP_CIPHER_CTX_get_key_length",
         "EVP_CIPHER_CTX_get_iv_length", "EVP_CIPHER_CTX_get_block_size"}


def bits(P):
    if not BITS:
        for n in ("KEY_EXCHANGE", "DERIVE", "UNWRAP", "ENCRYPT", "DECRYPT", "SIGN", "SVP_OPTIONAL", "CACHEABLE") + tuple(b for b, _ in VID): BITS[n] = P.enums["SA_USAGE_FLAG_" + n]
    return BITS


def vst(P):
    return "video_output_state_s" if "video_output_state_s" in P.di else "video_output_state_t"


def m_poll(A, st, name, args, site, w):
    """The state of the video output is whatever it is; each poll may see another one."""
    s0 = st.copy()
    ty = vst(A.p)
    if not isc(args[0]):
        fs = []
        for _, f in VID:
            o, off = as_ptr(args[0])
            n = 1 if f == "svp_enabled" else fw(A.p, ty, f)
            v = A.fresh(st, "call", name, site, w=n * 8, extra=f)
            if f == "svp_enabled": constrain(st, v, ((0, 1),))
            A.store(st, mkptr(o, off + A.p.field(ty, f)) if isinstance(off, int) else mkptr(o, mkbin(None, "add", off, C(A.p.field(ty, f)), 64)), v, n)
            fs.append(v)
        st.mon[("video", fs[0])] = tuple(fs)
    return [(s0, C(0, w)), (st, C(1, w))]


def fw(P, ty, f):
    for n, o, s, t in P.di[ty]["f"]:
        if n == f: return s
    raise KeyError(f)


class Rights:
    """Facts about the rights structure at (object, offset)."""
    def lay(self, A):
        if not hasattr(self, "o"):
            f = lambda *n: A.p.field("sa_rights", *n)
            self.o = {n: f(n) for n in ("usage_flags", "not_before", "not_on_or_after", "allowed_tas")}
        return self.o

    def key(self, st):
        return frozenset((k[0], k[1], v) for k, v in st.mon.items() if isinstance(k, tuple) and k[0] in ("skh", "ref"))

    def on_ext(self, A, st, name, args, ret, site):
        if name == "time" and ret is not None: st.mon[("now", ret)] = True
        c = st.mon.get(("cmp", ret)) if ret is not None else None
        if c is not None: st.mon[("cmpw", ret)] = c
        self.ext(A, st, name, args, ret, site)

    def ext(self, A, st, name, args, ret, site): pass

    def fld(self, A, st, p, n):
        o, off = p
        return A.load(st, mkptr(o, off + self.lay(A)[n]), 8)

    def has(self, A, st, p, b):
        v = mkbin(None, "and", self.fld(A, st, p, "usage_flags"), C(1 << bits(A.p)[b]), 64)
        return truth(st, mkicmp("ne", v, C(0))) is True

    def time(self, A, st, p):
        nb = self.fld(A, st, p, "not_before"); na = self.fld(A, st, p, "not_on_or_after")
        for k in st.mon:
            if isinstance(k, tuple) and k[0] == "now":
                if truth(st, mkicmp("ult", k[1], nb)) is False and truth(st, mkicmp("ult", k[1], na)) is True: return True
        return False

    def video(self, A, st, p):
        """None, or the restriction that was not applied"""
        bad = "any state"
        L = self.fld(A, st, p, "usage_flags")
        for k in list(st.mon):
            if isinstance(k, tuple) and k[0] == "video":
                bad = None
                for i, (b, f) in enumerate(VID):
                    if ("vok", k[1], f, L) not in st.mon and not self.has(A, st, p, b) and not self.stateok(st, st.mon[k][i], f): bad = f; break
                if bad is None: return None
        return bad

    @staticmethod
    def stateok(st, v, f):
        return truth(st, mkicmp("eq", v, C(0, v.w))) is False if f == "svp_enabled" else truth(st, mkicmp("sgt", v, C(0, v.w))) is False

    def candidates(self, A, st):
        """The rights of the keys in use."""
        out = []
        r = A.p.field("sa_header", "rights")
        for k in st.mon:
            if not isinstance(k, tuple): continue
            if k[0] == "skh": out.append(self.sk(A, st, k[1]))
            elif k[0] == "ref":
                if A.entry.name.startswith("key_store_"): out.append(((deref(k[1]), A.p.field("wrapped_key_t", "header") + r), None))
                elif st.mon[k][2].op == "ld" and st.mon[k][2].a[1] == A.p.field("client_s", "cipher_store"):
                    sk = A.load(st, mkptr(deref(k[1]), A.p.field("cipher_s", "stored_key")), 8)
                    if not isc(sk): out.append(self.sk(A, st, sk))
        return out

    def sk(self, A, st, k):
        """(rights, type) of a stored key"""
        h = A.p.field("stored_key_s", "header")
        return (deref(k), h + A.p.field("sa_header", "rights")), A.load(st, mkptr(deref(k), h + A.p.field("sa_header", "type")), 1)

    def on_assume(self, A, st, v, t, site):
        # what holds either way of a branch is recorded as one fact, so that it survives where the ways meet
        iv = list(self.modes(A, st)) + list(self.buffers(A, st))
        cand = self.candidates(A, st)
        dyn = [k for k in st.mon if isinstance(k, tuple) and k[0] in ("video", "now")]
        hit = not v.syms.isdisjoint(iv)
        for k in dyn:
            if k[1] in v.syms or k[0] == "video" and not v.syms.isdisjoint(st.mon[k]): hit = True
        for p, ty in cand:
            L = self.fld(A, st, p, "usage_flags")
            if not hit and L not in v.syms and (ty is None or ty not in v.syms): continue
            for k in dyn:
                if k[0] != "video": continue
                for i, (b, f) in enumerate(VID):
                    x = ("vok", k[1], f, L)
                    if x not in st.mon and (self.stateok(st, st.mon[k][i], f) or self.has(A, st, p, b)): st.mon[x] = True
            self.derive(A, st, p, ty, L)

    def derive(self, A, st, p, ty, L):
        m = st.mon
        if ("period", L) not in m and self.time(A, st, p): m[("period", L)] = True
        if ("output", L) not in m and self.video(A, st, p) is None: m[("output", L)] = True
        if ("output", L) in m or ty is not None and truth(st, mkicmp("eq", ty, C(A.p.enums["SA_KEY_TYPE_SYMMETRIC"], ty.w))) is False: m[("output?", L)] = True
        for mode in self.modes(A, st):
            if ("mode", L, mode) in m: continue
            for n in ("ENCRYPT", "DECRYPT"):
                if truth(st, mkicmp("eq", mode, C(A.p.enums["SA_CIPHER_MODE_" + n], mode.w))) is True and self.has(A, st, p, n): m[("mode", L, mode)] = True
        for t in self.buffers(A, st):
            if ("clear", L, t) in m: continue
            if truth(st, mkicmp("eq", t, C(A.p.enums["SA_BUFFER_TYPE_CLEAR"], t.w))) is False or self.has(A, st, p, "SVP_OPTIONAL"): m[("clear", L, t)] = True

    def modes(self, A, st): return ()
    def buffers(self, A, st): return ()


def chainroot(v):
    """The outermost object a value was loaded from."""
    while v.op in ("ld", "ptr"):
        o = v.a[0]
        if o.kind != "deref": return None
        v = o.base
    return v


class Use(Rights):
    """Key bytes and ciphers reaching cryptographic operations in a command."""
    def __init__(self):
        self.sites = set(); self.done = {}

    def coverage(self):
        return {"key_uses_checked": self.sites}

    def inkey(self, A, st, v):
        """The stored key whose bytes v points into."""
        if v.op not in ("ptr", "sym", "ld"): return None
        o = as_ptr(v)[0]
        if o.kind == "stack": return None
        off = A.p.field("stored_key_s", "key")
        for k in st.mon:
            if isinstance(k, tuple) and k[0] == "skh":
                c = st.mem.get(deref(k[1]), {}).get(off)
                if c is not None and c[0].op != "c" and as_ptr(c[0])[0] is o: return k[1]
        return None

    def cipher(self, A, st, v):
        """The acquired cipher context v comes from."""
        if v.op not in ("ptr", "ld"): return None
        r = chainroot(v)
        if r is None: return None
        x = st.mon.get(("ref", r))
        if x is None or x[2].op != "ld" or x[2].a[1] != A.p.field("client_s", "cipher_store"): return None
        return r

    def ext(self, A, st, name, args, ret, site):
        if name in NOUSE or name not in A.models or name in A.p.fns and A.p.fns[name].blocks is not None and name not in ("memory_memcmp_constant",): return
        for i, a in enumerate(args):
            k = self.inkey(A, st, a)
            if k is not None: self.use(A, st, k, name, site)
        if name.startswith("EVP_") and args:
            c = self.cipher(A, st, args[0])
            if c is not None: self.cuse(A, st, c, name, args, site)
        for a in args:
            c = self.cipher(A, st, a)
            if c is not None and not name.startswith("EVP_") : self.cuse(A, st, c, name, args, site)

    def on_memcpy(self, A, st, d, s, n, site):
        k = self.inkey(A, st, s)
        if k is not None: self.use(A, st, k, "memcpy", site)

    def needed(self, A, st, h, k):
        """Usage bits the command needs of the key with handle h: alternatives of which one must be established"""
        e = A.entry.name
        if e in ("ta_sa_crypto_mac_init", "ta_sa_crypto_sign"): return ("SIGN",)
        if e == "ta_sa_key_derive": return ("DERIVE",)
        if e == "ta_sa_key_unwrap": return ("UNWRAP",)
        if e == "ta_sa_svp_key_check": return ("DECRYPT",)
        if e == "ta_sa_key_exchange": return ("KEY_EXCHANGE",) if h is A.args[A.entry.argnames.index("private_key")] else ("DERIVE",)
        if e == "ta_sa_key_import":
            for f, b in (("khmac", "SIGN"), ("kcipher", "UNWRAP")):
                if h.op == "ld" and h.a[1] == A.p.field("sa_import_parameters_typej", f): return (b,)
            return ("UNWRAP",)
        if e == "ta_sa_crypto_cipher_init": return ("mode",)
        # what reads a key and has no right of its own: its digest, its public part, its being fed to a MAC whose own key has SIGN
        return ()

    def modes(self, A, st):
        e = A.entry
        out = []
        if "cipher_mode" in e.argnames: out.append(A.args[e.argnames.index("cipher_mode")])
        for k in st.mon:
            if isinstance(k, tuple) and k[0] == "ref" and st.mon[k][2].op == "ld" and st.mon[k][2].a[1] == A.p.field("client_s", "cipher_store"):
                out.append(A.load(st, mkptr(deref(k[1]), A.p.field("cipher_s", "cipher_mode")), 4))
        return out

    def buffers(self, A, st):
        """The types of the buffers results go to."""
        e = A.entry
        for n in ("out", "in") if e.name == "ta_sa_svp_key_check" else ("out",):
            if n in e.argnames:
                b = A.args[e.argnames.index(n)]
                if truth(st, mkicmp("eq", b, NULL)) is False and e.ditypes[e.argnames.index(n) + 1].replace(" ", "") == "sa_buffer*": return [A.load(st, b, 4)]
        x = st.mon.get(("sample",))
        if x is not None:
            b = A.load(st, mkptr(as_ptr(x)[0], mkbin(None, "add", as_ptr(x)[1] if isinstance(as_ptr(x)[1], V) else C(as_ptr(x)[1]), C(A.p.field("sa_sample", "out")), 64)), 8)
            if not isc(b): return [A.load(st, b, 4)]
        return []

    def on_call(self, A, st, name, args, site):
        if name is not None and name.startswith("d2i_"):
            # the bytes are passed through a pointer that the call moves on
            for a in args:
                if a.op != "ptr" or a.a[0].kind != "stack": continue
                v = A.load(st, a, 8)
                k = self.inkey(A, st, v); c = self.cipher(A, st, v)
                if k is not None: self.use(A, st, k, name, site)
                if c is not None: self.cuse(A, st, c, name, args, site)
        # the sample being processed
        F = A.p.fns.get(name)
        if F is None or F.blocks is None: return
        for a, t in zip(args, F.ditypes[1:]):
            if t.replace("const ", "").replace(" ", "") == "sa_sample*" and not isc(a): st.mon[("sample",)] = a

    def use(self, A, st, k, name, site):
        h = st.mon[("skh", k)][0]
        self.sites.add("%s %s in %s" % (site.loc(), name, A.entry.name))
        n = self.needed(A, st, h, k)
        if n: self.check(A, st, self.sk(A, st, k), n[0], "bytes of a key are used by %s" % name, site)

    def cuse(self, A, st, c, name, args, site):
        e = A.entry.name
        if e in ("ta_sa_crypto_cipher_update_iv", "ta_sa_crypto_cipher_release", "ta_sa_crypto_cipher_init"): return
        # the operations that process data
        m = re.match(r"(EVP_(Encrypt|Decrypt|Cipher)(Update|Final)|d2i_|EC_|EVP_PKEY_)", name)
        if not m: return
        self.sites.add("%s %s in %s" % (site.loc(), name, A.entry.name))
        sk = A.load(st, mkptr(deref(c), A.p.field("cipher_s", "stored_key")), 8)
        k = self.sk(A, st, sk)
        pk = m.group(2) is None
        self.check(A, st, (k[0], k[1] if pk else None), "DECRYPT" if pk else "mode", "data is processed with a cipher (%s)" % name, site, pk)
        if not pk and not isc(args[1]):
            # where the result goes
            o = as_ptr(args[1])[0]
            if o.kind == "stack": return
            r = chainroot(args[1])
            x = st.mon.get(("ref", r)) if r is not None else None
            if x is not None and x[2].op == "ld" and x[2].a[1] == A.p.field("client_s", "svp_store"): return
            self.nclear += 1
            if not self.has(A, st, k[0], "SVP_OPTIONAL") and not self.clearok(A, st, k[0]):
                A.report("clear-despite-svp", site, "data of a key is processed into a clear buffer (%s) on a path that has not found SA_USAGE_FLAG_SVP_OPTIONAL in its rights" % name)

    nclear = 0

    def clearok(self, A, st, p):
        L = self.fld(A, st, p, "usage_flags")
        return all(("clear", L, t) in st.mon for t in self.buffers(A, st)) and self.buffers(A, st)

    def check(self, A, st, k, b, what, site, pk=False):
        p, ty = k
        L = self.fld(A, st, p, "usage_flags")
        self.derive(A, st, p, ty, L)
        if b == "mode":
            ok = any(("mode", L, m) in st.mon for m in self.modes(A, st)); b = "ENCRYPT or SA_USAGE_FLAG_DECRYPT, as its mode asks,"
        else: ok = self.has(A, st, p, b)
        if not ok: A.report("use-without-right", site, "%s on a path that has not found SA_USAGE_FLAG_%s in the rights of the key" % (what, b))
        if ("period", L) not in st.mon: A.report("use-out-of-period", site, "%s on a path that has not compared the validity period of the key with the current time" % what)
        # the rights of RSA and EC keys do not restrict the outputs
        if not pk and b not in ("SIGN", "DERIVE", "UNWRAP", "KEY_EXCHANGE") and (("output" if ty is None else "output?"), L) not in st.mon:
            A.report("use-despite-output", site, "%s on a path where the state of the video output (%s) has not been found to be allowed" % (what, self.video(A, st, p)))
        if A.entry.name in ("ta_sa_svp_key_check", "ta_sa_crypto_cipher_process", "ta_sa_crypto_cipher_process_last") and not self.clearok(A, st, p):
            A.report("clear-despite-svp", site, "%s for a clear buffer on a path that has not found SA_USAGE_FLAG_SVP_OPTIONAL in the rights of the key" % what)


import re


class Unwrap(Rights):
    """key_store_unwrap: what was established on the wrapped key when a stored key is handed out."""
    def __init__(self):
        self.exits = set()

    def coverage(self):
        return {"unwrap_exits_checked": self.exits}

    def on_exit(self, A, st, site, ret):
        if ret is not None and truth(st, mkicmp("eq", ret, C(0, ret.w))) is False: return
        if isc(A.args[0]): return
        sk = A.load(st, A.args[0], 8)
        self.exits.add(site.loc())
        if truth(st, mkicmp("eq", sk, NULL)) is True:
            A.report("ok-without-key", site, "success is reported without a key"); return
        w = [k for k in st.mon if isinstance(k, tuple) and k[0] == "wref"]
        hoff = A.p.field("wrapped_key_t", "header"); soff = A.p.field("stored_key_s", "header")
        r = A.p.field("sa_header", "rights")
        ok = False
        for k in w:
            p = (deref(k[1]), hoff + r)
            q = (deref(sk), soff + r)
            same = all(self.fld(A, st, p, n) is self.fld(A, st, q, n) for n in ("usage_flags", "not_before", "not_on_or_after"))
            if not same: continue
            ok = True
            self.allowed(A, st, k[1], p, site)
        if not ok: A.report("other-rights", site, "the rights of the unwrapped key are not those of the wrapped key it came from")

    def allowed(self, A, st, wk, p, site):
        self.derive(A, st, p, None, self.fld(A, st, p, "usage_flags"))
        if ("period", self.fld(A, st, p, "usage_flags")) not in st.mon: A.report("use-out-of-period", site, "a key is unwrapped on a path that has not compared its validity period with the current time")
        v = self.video(A, st, p)
        if ("output", self.fld(A, st, p, "usage_flags")) not in st.mon: A.report("use-despite-output", site, "a key is unwrapped on a path where the state of the video output (%s) has not been found to be allowed" % v)
        if ("uuidok", p[0]) not in st.mon: A.report("caller-not-allowed", site, "a key is unwrapped on a path that has not found the caller (or the all-match identity) among the allowed TAs")

    def uuid(self, A, st, p):
        o, off = p
        lo = off + self.lay(A)["allowed_tas"]; n = A.p.di["sa_rights"]["size"] - self.lay(A)["allowed_tas"]
        eq = []; ne = set()
        for k, c in st.mon.items():
            if not (isinstance(k, tuple) and k[0] == "cmpw"): continue
            if c[3] not in ("memory_memcmp_constant", "memcmp", "CRYPTO_memcmp") or c[2] is not C(16): continue
            for x, y in ((c[0], c[1]), (c[1], c[0])):
                e = self.elem(A, st, o, lo, n, x)
                if e is None: continue
                z = rng(st, k[1])
                if z == ((0, 0),): eq.append((e, y))
                elif truth(st, mkicmp("eq", k[1], C(0, k[1].w))) is False: ne.add((e, self.const(A, st, y)))
        for e, y in eq:
            if y is A.args[A.entry.argnames.index("caller_uuid")] and (e, 0) in ne: return True
            if self.const(A, st, y) == 0xff: return True
        return False

    def elem(self, A, st, o, lo, n, x):
        if x.op not in ("ptr", "ld", "sym"): return None
        xo, xf = as_ptr(x)
        if xo is not o: return None
        if isinstance(xf, int):
            d = xf - lo
            return xf if 0 <= d < n and d % 16 == 0 else None
        d = mkbin(None, "sub", xf, C(lo), 64)
        r = rng(st, d)
        return xf if r and r[-1][1] < n else None

    def const(self, A, st, y):
        """The byte all 16 bytes of a constant have."""
        if y.op != "ptr" and y.op != "sym": return None
        o, off = as_ptr(y)
        if o.kind != "global" or not isinstance(off, int): return None
        vs = set()
        for i in range(0, 16):
            v = A.load(st, mkptr(o, off + i), 1)
            if v is None or not isc(v): return None
            vs.add(v.a[0] & 0xff)
        return vs.pop() if len(vs) == 1 else None

    def on_assume(self, A, st, v, t, site):
        Rights.on_assume(self, A, st, v, t, site)
        if any(("cmpw", x) in st.mon for x in v.syms | {v} | set(v.a[:1] if v.op == "icmp" else ())):
            for p, ty in self.candidates(A, st):
                if self.uuid(A, st, p): st.mon[("uuidok", p[0])] = True

    def on_release(self, A, st, o, r, site):
        st.mon[("wref", o)] = True

    def key(self, st):
        return frozenset(k for k in st.mon if isinstance(k, tuple) and k[0] in ("wref",)) | Rights.key(self, st)


class Export(Unwrap):
    """key_store_export: the key is written out only when it is cacheable."""
    def on_memcpy(self, A, st, d, s, n, site):
        out = A.args[0]
        if isc(d) or as_ptr(d)[0] is not deref(out): return
        self.exits.add(site.loc())
        p = None
        for k in st.mon:
            if isinstance(k, tuple) and k[0] == "ref":
                p = (deref(k[1]), A.p.field("wrapped_key_t", "header") + A.p.field("sa_header", "rights"))
                if self.has(A, st, p, "CACHEABLE"): return
        A.report("export-not-cacheable", site, "a key is written out on a path that has not found SA_USAGE_FLAG_CACHEABLE in its rights")

    def on_exit(self, A, st, site, ret): pass


def m_cmp_(A, st, name, args, site, w):
    return models.m_memcmp(A, st, name, args, site, w)


def run(tier):
    P = program("ta")
    bits(P)
    ms = dict(contracts.ALL, video_output_poll=m_poll)
    jobs = []
    for e in ta_entries(P): jobs.append(Job("ta", e, lambda: [Use()], models=ms))
    base = dict(models.MODELS); base.update(contracts.UTIL); base.update(contracts.STORE); base.update(contracts.OTP); base["video_output_poll"] = m_poll
    jobs.append(Job("ta", "key_store_unwrap", lambda: [Unwrap()], models=base, tag="unwrap"))
    jobs.append(Job("ta", "key_store_export", lambda: [Export()], models=base, tag="export"))
    res = run_jobs(jobs)
    cov = summarise(res, jobs)
    need(cov.get("key_uses_checked", 0) >= 25 and cov.get("unwrap_exits_checked", 0) >= 2, "the uses of keys are not where the rule looks for them")
    return {"reports": merge(res), "coverage": cov}
