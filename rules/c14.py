"""Key material stays inside.  Bytes of stored, root, derived, unwrapped and generated private keys and every copy of them are followed through the
commands; none is copied, stored or written by a library call into memory of the caller, and none is given to the log."""
import re
from driver import Job, run_jobs, program, merge, summarise, need
from core import *
import contracts, models, monitors
from rules import c06, c07

# what holds content that is decrypted for the caller, not a key, unless it turns out to be used as a key
CONTENT = {"EVP_DecryptUpdate", "EVP_DecryptFinal_ex", "EVP_DecryptFinal", "EVP_PKEY_decrypt"}
DATA = re.compile(r"cipher_process|common_encryption|svp|cipher_init|cipher_update")
# library functions that copy their input to their output as it is: (output, input)
PASS = {"BIO_write": (None, 1), "BIO_puts": (None, 1), "printf": (None, 1), "snprintf": (0, 3)}
# the output argument holds ciphertext under the root key from here on
ENCRYPTS = {"otp_wrap_aes_cbc"}


class Leak(c06.Wipe):
    def __init__(self, body=False):
        # the arguments of an internal function that is analysed on its own are not the caller's memory
        c06.Wipe.__init__(self); self.body = body; self.sinks = set(); self.logs = set(); self.encrypted = set()

    def coverage(self):
        return {"key_material": self.marked, "stored_keys": self.keys, "writes_to_the_caller_checked": self.sinks, "log_calls_checked": self.logs, "encrypted_in_place": self.encrypted}

    def root(self, A, o, d=0):
        """The argument of the entry that leads to the object, when it is the caller's."""
        if self.body or o.kind != "deref" or o.base is None or d > 5: return None
        b = o.base
        if b.op == "sym":
            for i, a in enumerate(A.args):
                if a is b and i < len(A.entry.argnames) and "*" in A.entry.ditypes[i + 1] and A.entry.argnames[i] not in OWN: return A.entry.argnames[i]
            return None
        return self.root(A, b.a[0], d + 1) if b.op == "ld" else None

    def mine(self, A, st, p):
        if p is None or isc(p) or p.op not in ("ptr", "sym", "ld", "bin"): return None
        o = c06.Wipe.mine(self, A, st, p)
        if o is not None: return o
        return as_ptr(p)[0] if self.inner(A, as_ptr(p)[0]) else None

    def inner(self, A, o):
        return o.kind == "deref" and o.base is not None and self.root(A, o) is None

    def alive(self, st, o): return True

    def marko(self, A, st, o, site, why):
        if ("logged", o) in st.mon and ("sec", o) not in st.mon:
            self.leak(A, o, st.mon[("logged", o)], "what is given to the log is key material", (None, why))
        c06.Wipe.marko(self, A, st, o, site, why)

    def on_join(self, A, a, b, r):
        for x in (a, b):
            for k, v in x.mon.items():
                if isinstance(k, tuple) and k[0] == "logged": r.mon.setdefault(k, v)

    def end(self, A, st, o, site, what): st.mon.pop(("sec", o), None)

    def on_free(self, A, st, p, kind, site, name):
        if isc(p): return
        st.mon.pop(("secv", p), None); st.mon.pop(("sec", as_ptr(p)[0]), None)

    def leak(self, A, o, site, what, why):
        A.report("key-material-leaves", models.climb(A, site), "%s (%s)" % (what, why[1]))

    def why(self, st, p):
        if p is None or isc(p) or p.op not in ("ptr", "sym", "ld", "bin"): return None
        return st.mon.get(("sec", as_ptr(p)[0]))

    def whyv(self, st, v):
        """A value computed from key bytes."""
        if v is None or isc(v): return None
        for x in v.syms | {v}:
            if x.op == "ld" and ("sec", x.a[0]) in st.mon and (x.w <= 32 or isinstance(x.a[0], Obj) and x.a[0].kind == "deref"): return st.mon[("sec", x.a[0])]
        return None

    # ---- sinks
    def mark(self, A, st, p, site, why):
        if p is None or isc(p) or p.op not in ("ptr", "sym", "ld", "bin"): return
        r = self.root(A, as_ptr(p)[0])
        if r is not None:
            self.sinks.add(site.loc())
            if "digest of" not in why and "key of" not in why: self.leak(A, as_ptr(p)[0], site, "key material is written to %s of the caller" % r, (None, why))
            return
        c06.Wipe.mark(self, A, st, p, site, why)

    def on_ext(self, A, st, name, args, ret, site):
        if name == "log_entry":
            self.logs.add(site.loc())
            for a in args:
                w = self.whyv(st, a) or self.why(st, a)
                if w is not None: self.leak(A, None, site, "key material is given to the log", w)
                else:
                    # what is logged now may turn out to be a key later on
                    for x in a.syms | {a}:
                        o = self.mine(A, st, x if x.w == 64 else mkptr(x.a[0], C(0, 64)) if x.op == "ld" and isinstance(x.a[0], Obj) and x.w <= 16 else None)
                        if o is not None and ("sec", o) not in st.mon: st.mon[("logged", o)] = site
            return
        if name == "EVP_MAC_update":
            if self.sec(st, args[1]): st.mon[("secmac", args[0])] = True
        elif name == "EVP_MAC_init": st.mon.pop(("secmac", args[0]), None)
        elif name == "EVP_MAC_final" and ("secmac", args[0]) in st.mon: self.mark(A, st, args[1], site, "digest of a secret")
        if name in CONTENT and DATA.search(A.entry.name): return
        if name in ENCRYPTS:
            if isc(args[0]): return
            o = as_ptr(args[0])[0]
            if ("sec", o) in st.mon: self.encrypted.add(models.climb(A, site).loc()); del st.mon[("sec", o)]
            return
        if name in PASS:
            d, s = PASS[name]
            w = self.why(st, args[s]) if s < len(args) else None
            if w is not None: self.leak(A, None, site, "key material is given to %s" % name, w)
        c06.Wipe.on_ext(self, A, st, name, args, ret, site)

    def on_memcpy(self, A, st, d, s, n, site):
        if isc(d) or isc(s): return
        r = self.root(A, as_ptr(d)[0])
        if r is None: return c06.Wipe.on_memcpy(self, A, st, d, s, n, site)
        self.sinks.add(site.loc())
        w = self.why(st, s)
        if w is not None: self.leak(A, as_ptr(d)[0], site, "key material is copied to %s of the caller" % r, w)

    def on_store(self, A, st, p, v, w, site):
        if isc(p): return
        o = as_ptr(p)[0]
        x = self.whyv(st, v)
        r = self.root(A, o)
        if r is not None:
            self.sinks.add(site.loc())
            if x is not None: self.leak(A, o, site, "a value computed from key material is stored in %s of the caller" % r, x)

    def on_memset(self, A, st, p, c, n, site, name): c06.Wipe.on_memset(self, A, st, p, c, n, site, name)


# arguments of internal functions that are not the caller's memory
OWN = {"store", "stored_key", "client", "stored_key_unwrapped", "svp_store", "client_store"}


def run(tier):
    P = program("ta")
    jobs = [Job(j.prog, j.entry, lambda b=j.tag == "body": [Leak(b)], models=j.models, tag=j.tag) for j in c07.jobs_entries(P, None)]
    res = run_jobs(jobs)
    cov = summarise(res, jobs)
    need(cov.get("key_material", 0) >= 20 and cov.get("log_calls_checked", 0) >= 100 and cov.get("writes_to_the_caller_checked", 0) >= 10, "key material and the caller's memory are not where the rule looks for them")
    return {"reports": merge(res), "coverage": cov}
