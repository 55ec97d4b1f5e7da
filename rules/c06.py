"""Secrets are wiped.  Memory of the trusted application (heap or stack) that holds key material - what is read from a stored key, decrypted, derived,
generated for a key or given to a cryptographic function as its key, and every copy of it - is overwritten with zeros over its whole size before it is
given back to the allocator or goes out of scope, on every path including every failure."""
import re
from driver import Job, run_jobs, program, merge, summarise, ta_entries, need
from core import *
import contracts, models, monitors
from rules import c07

# (argument written with a secret)
OUTSEC = {"EVP_PKEY_derive": 1, "EVP_DecryptUpdate": 1, "EVP_DecryptFinal_ex": 1, "EVP_DecryptFinal": 1, "EVP_PKEY_decrypt": 1, "EVP_PKEY_get_raw_private_key": 1, "BN_bn2binpad": None,
          "otp_unwrap_aes_cbc": 0, "otp_unwrap_aes_gcm": 0, "load_pkcs12_secret_key": 0}
# (argument that is a key)
KEYARG = {"EVP_MAC_init": 1, "EVP_EncryptInit_ex": 3, "EVP_DecryptInit_ex": 3, "EVP_EncryptInit_ex2": 2, "EVP_DecryptInit_ex2": 2, "EVP_CipherInit_ex": 3, "EVP_PKEY_new_raw_private_key": 2, "EVP_PKEY_new_raw_private_key_ex": 3,
          "stored_key_create": 6}
WIPES = {"OPENSSL_cleanse": (0, 1), "explicit_bzero": (0, 1), "CRYPTO_clear_free": (0, 1)}


class Wipe:
    def __init__(self):
        self.marked = set(); self.wiped = set(); self.ends = set(); self.keys = set()

    def coverage(self):
        return {"secrets_marked": self.marked, "wipes": self.wiped, "ends_checked": self.ends, "stored_keys": self.keys}

    def key(self, st):
        return frozenset(k for k in st.mon if isinstance(k, tuple) and k[0] in ("sec", "secv"))

    hardkey = key

    # ---- what is secret
    def mine(self, A, st, p):
        """The object p points into, when it is memory of ours that ends."""
        if p is None or isc(p): return None
        if p.op not in ("ptr", "sym", "ld", "bin"): return None
        o, off = as_ptr(p)
        if o.kind == "stack": return o
        if o.kind == "deref" and o.base is not None:
            r = st.mon.get(("res", o.base))
            if r is not None and r[1] == "live" and r[0] == "mem": return o
        return None

    def mark(self, A, st, p, site, why):
        o = self.mine(A, st, p)
        if o is None: return
        self.marko(A, st, o, site, why)

    def marko(self, A, st, o, site, why):
        if ("sec", o) in st.mon: return
        if o.kind == "stack" and o.size and ("vla", o) not in st.mon and self.constant(st, o): return
        s = models.climb(A, site)
        self.marked.add("%s %s" % (s.loc(), why))
        st.mon[("sec", o)] = (s.loc(), why)
        for k in [k for k in st.mon if isinstance(k, tuple) and k[0] == "cp" and k[1] is o]:
            if ("sec", k[2]) not in st.mon and self.alive(st, k[2]): self.marko(A, st, k[2], st.mon[k], "copied into memory that holds a key")

    def constant(self, st, o):
        known = set()
        for lo, hi, k in st.dflt.get(o) or ():
            if k == "zero": known |= set(range(lo, min(hi, o.size)))
        for off, (v, w) in (st.mem.get(o) or {}).items():
            if isinstance(off, V): return False
            r = set(range(off, off + w))
            known = known | r if isc(v) else known - r
        return len(known) >= o.size

    def alive(self, st, o):
        if o.kind == "stack": return True
        r = st.mon.get(("res", o.base))
        return r is not None and r[1] == "live"

    def sec(self, st, p):
        if p is None or isc(p) or p.op not in ("ptr", "sym", "ld", "bin"): return False
        return ("sec", as_ptr(p)[0]) in st.mon

    # ---- events
    def on_alloc(self, A, st, v, kind, size, site):
        """The variable the size is kept in: a wipe over its present value is over what the library says it wrote."""
        if size is None: return
        l = frozenset((o, off, c[1]) for o, cells in st.mem.items() if o.kind == "stack" for off, c in cells.items() if c[0] is size and not isinstance(off, V))
        if size.op == "ld":
            o, off = size.a[:2]
            if o.kind == "stack" and not isinstance(off, V): l |= {(o, off, size.w // 8)}
            if not isinstance(off, V):
                l |= {(so, lo + off - k[2], size.w // 8) for so, d in st.dflt.items() if so.kind == "stack" for lo, hi, k in d if isinstance(k, tuple) and k[0] == "copy" and k[1] is o and k[2] <= off and lo + off - k[2] < hi}
        if l: st.mon[("sizecell", v)] = l

    def whole(self, A, st, o, n):
        if o.kind == "stack": size = st.mon.get(("vla", o)) or (C(o.size, 64) if o.size else None)
        else: size = st.mon.get(("size", o.base)) if o.base is not None else None
        if size is None or n is size or truth(st, mkicmp("ult", n, size)) is False: return True
        if isc(n) or o.base is None: return False
        return any((x := A.load(st, mkptr(c, off), w)) is n for c, off, w in st.mon.get(("sizecell", o.base), ()))

    def on_call(self, A, st, name, args, site):
        if name and name.startswith("i2d_") and len(args) > 1 and not isc(args[1]): st.mon[("i2d", args[1])] = A.load(st, args[1], 8)
        i = KEYARG.get(name)
        if i is not None and i < len(args): self.mark(A, st, args[i], site, "key of %s" % name)
        if name in WIPES and len(args) > 1: self.on_memset(A, st, args[0], C(0, 8), args[1], site, name)

    def on_ext(self, A, st, name, args, ret, site):
        if name in OUTSEC and OUTSEC[name] is not None and OUTSEC[name] < len(args): self.mark(A, st, args[OUTSEC[name]], site, "output of %s" % name)
        elif name == "key_store_unwrap" and not isc(args[0]):
            v = A.load(st, args[0], 8)
            if not isc(v):
                k = A.load(st, mkptr(deref(v), A.p.field("stored_key_s", "key")), 8)
                self.keys.add(site.loc())
                self.mark(A, st, k, site, "key from the store")
        elif name == "EVP_PKEY_get_bn_param":
            if self.string(A, args[1]) != "priv": return
            v = A.load(st, args[2], 8)
            if not isc(v): st.mon[("secv", v)] = (models.climb(A, site).loc(), "private key number")
        elif name in ("EC_POINT_mul", "EC_POINT_add", "EC_POINT_dbl", "EC_POINT_copy", "BN_mod_exp", "BN_mod_mul", "BN_mul", "BN_add", "BN_sub"):
            d = args[0] if name.startswith("BN") or name == "EC_POINT_copy" else args[1]
            f = next((st.mon[("secv", a)] for a in args if ("secv", a) in st.mon), None)
            if f is not None and not isc(d): st.mon[("secv", d)] = (f[0], "computed from the " + f[1].replace("computed from the ", ""))
        elif name in ("EC_POINT_point2oct", "BN_bn2bin", "BN_bn2binpad", "BN_bn2lebinpad"):
            s, d = (args[1], args[3]) if name[0] == "E" else args[:2]
            if ("secv", s) in st.mon: self.mark(A, st, d, site, "output of %s" % name)
        elif name == "EVP_DigestUpdate":
            if self.sec(st, args[1]): st.mon[("secctx", args[0])] = True
        elif name in ("EVP_DigestFinal_ex", "EVP_DigestFinal"):
            if ("secctx", args[0]) in st.mon:
                self.mark(A, st, args[1], site, "digest of a secret")
                del st.mon[("secctx", args[0])]
        elif name and name.startswith("i2d_") and ("rivate" in name or "PKCS8" in name) and len(args) > 1 and not isc(args[1]):
            self.mark(A, st, st.mon.pop(("i2d", args[1]), None), site, "output of %s" % name)

    def on_memcpy(self, A, st, d, s, n, site):
        if isc(d) or isc(s): return
        a, b = self.mine(A, st, d), self.mine(A, st, s)
        if a is None: return
        if b is not None and b is not a:
            if len([1 for k in st.mon if isinstance(k, tuple) and k[0] == "cp"]) < 40: st.mon[("cp", a, b)] = site
        if ("sec", as_ptr(s)[0]) in st.mon: self.marko(A, st, a, site, "copy of a secret")

    def on_memset(self, A, st, p, c, n, site, name):
        if isc(p) or not isc(c) or c.a[0] & 0xff: return
        o, off = as_ptr(p)
        if ("sec", o) not in st.mon: return
        if off != 0 and not (isinstance(off, V) and isc(off) and off.a[0] == 0): return
        if self.whole(A, st, o, n):
            self.wiped.add(site.loc())
            del st.mon[("sec", o)]
        else: st.mon[("partial", o)] = (models.climb(A, site).loc(), show(n))

    def end(self, A, st, o, site, what):
        r = st.mon.get(("sec", o))
        self.ends.add(site.loc())
        if r is None: return
        p = st.mon.get(("partial", o))
        A.report("secret-not-wiped", site, "%s while it holds a secret (%s, %s)%s" % (what, r[1], re.sub(r":\\d+$", "", r[0]).split("/")[-1], ": only %s of its bytes are known to be wiped" % p[1] if p else ""))
        del st.mon[("sec", o)]

    def string(self, A, p):
        if isc(p) or p.op not in ("ptr",): return None
        o, off = as_ptr(p)
        g = A.p.d["globals"].get(o.key) if o.kind == "global" else None
        return (g.get("str") or "").rstrip("\0") if g and off == 0 else None

    def on_free(self, A, st, p, kind, site, name):
        if isc(p): return
        if ("secv", p) in st.mon:
            self.ends.add(site.loc())
            if "clear" not in name:
                s, w = st.mon[("secv", p)]
                A.report("secret-not-wiped", models.climb(A, site), "%s of a number or point that is secret (%s, %s)" % (name, w, s.split("/")[-1]))
            del st.mon[("secv", p)]
        o = as_ptr(p)[0]
        self.end(A, st, o, models.climb(A, site), "memory is freed")

    def on_leave(self, A, st, name, site, outer):
        for k in [k for k in st.mon if isinstance(k, tuple) and k[0] == "sec" and k[1].kind == "stack" and k[1].key[0] == site.ctx]:
            self.end(A, st, k[1], site, "the variable %s goes out of scope" % k[1].name)

    def on_exit(self, A, st, site, ret):
        for k in [k for k in st.mon if isinstance(k, tuple) and k[0] == "sec" and k[1].kind == "stack"]:
            self.end(A, st, k[1], site, "the variable %s goes out of scope" % k[1].name)


def run(tier):
    P = program("ta")
    jobs = c07.jobs_entries(P, lambda: [Wipe()])
    jobs = [j for j in jobs if j.entry not in contracts.JSON]
    res = run_jobs(jobs)
    cov = summarise(res, jobs)
    need(cov.get("secrets_marked", 0) >= 40 and cov.get("wipes", 0) >= 15, "the secrets are not where the rule looks for them")
    return {"reports": merge(res), "coverage": cov}
