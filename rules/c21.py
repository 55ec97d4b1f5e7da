"""Keys are used for what they are.  Where bytes of a stored key, or the key held by a cipher context, reach a cryptographic primitive, the path must have
established that the type of that key is the one the primitive takes, and for block and stream ciphers that its length is the one the cipher reads."""
import re
from driver import Job, run_jobs, program, merge, summarise, ta_entries, need
from core import *
import contracts, models
from rules import c03

# (argument that is the cipher, argument that is the key)
CIPHER = {"EVP_EncryptInit_ex": (1, 3), "EVP_DecryptInit_ex": (1, 3), "EVP_EncryptInit_ex2": (1, 2), "EVP_DecryptInit_ex2": (1, 2), "EVP_CipherInit_ex": (1, 3)}
MAC = {"EVP_MAC_init": 1}
NEED = {"EVP_aes_128": 16, "EVP_aes_256": 32, "EVP_chacha20": 32}
PKEY = {6: "RSA", 28: "DH", 408: "EC", 1034: "EC", 1035: "EC", 1087: "EC", 1088: "EC"}


class Kind(c03.Use):
    def __init__(self):
        c03.Use.__init__(self); self.kinds = set(); self.sizes = set(); self.stores = set(); self.undecided = set(); self.creates = set(); self.encodings = set()

    def coverage(self):
        return {"key_uses_checked_for_type": self.kinds, "cipher_keys_checked_for_length": self.sizes, "contexts_checked_when_stored": self.stores, "cipher_of_unknown_length": self.undecided, "keys_created": self.creates, "encodings_created": self.encodings}

    def T(self, A): return {n: A.p.enums["SA_KEY_TYPE_" + n] for n in ("SYMMETRIC", "EC", "RSA", "DH")}

    def type(self, A, st, k):
        return A.load(st, mkptr(deref(k), A.p.field("stored_key_s", "header") + A.p.field("sa_header", "type")), 1)

    def lens(self, A, st, k):
        yield A.load(st, mkptr(deref(k), A.p.field("stored_key_s", "header") + A.p.field("sa_header", "size")), 2)
        yield A.load(st, mkptr(deref(k), A.p.field("stored_key_s", "key_length")), 8)

    def holder(self, A, st, v):
        """The stored key whose bytes v points to: one from the key store, or the one of an acquired cipher context."""
        k = self.inkey(A, st, v)
        if k is not None: return k
        for m in st.mon:
            if isinstance(m, tuple) and m[0] == "ref" and st.mon[m][2].op == "ld" and st.mon[m][2].a[1] == A.p.field("client_s", "cipher_store"):
                sk = A.load(st, mkptr(deref(m[1]), A.p.field("cipher_s", "stored_key")), 8)
                if isc(sk): continue
                b = A.load(st, mkptr(deref(sk), A.p.field("stored_key_s", "key")), 8)
                if not isc(b) and v.op in ("ptr", "sym", "ld") and as_ptr(v)[0] is as_ptr(b)[0]: return sk
        return None

    def algorithms(self, A):
        e = A.p.enums
        return {e["SA_CIPHER_ALGORITHM_RSA_PKCS1V15"]: "RSA", e["SA_CIPHER_ALGORITHM_RSA_OAEP"]: "RSA", e["SA_CIPHER_ALGORITHM_EC_ELGAMAL"]: "EC"}

    def incipher(self, A, store):
        return store.op == "ld" and store.a[1] == A.p.field("client_s", "cipher_store")

    def implied(self, A, st, k):
        """What the algorithm of the context that holds the key says about its type (on_stored establishes it)."""
        for m in st.mon:
            if not (isinstance(m, tuple) and m[0] == "ref" and self.incipher(A, st.mon[m][2])): continue
            o = deref(m[1])
            if A.load(st, mkptr(o, A.p.field("cipher_s", "stored_key")), 8) is not k: continue
            g = A.load(st, mkptr(o, A.p.field("cipher_s", "cipher_algorithm")), 4)
            c = {t for x, t in self.algorithms(A).items() if truth(st, mkicmp("eq", g, C(x, g.w))) is not False}
            # only these algorithms have a stored key that is used as one
            if len(c) == 1 and any(truth(st, mkicmp("eq", g, C(x, g.w))) is True for x in self.algorithms(A)): return c
            r = st.rg.get(g)
            if len(c) == 1 and r is not None and all(hi - lo < 8 and all(x in self.algorithms(A) for x in range(lo, hi + 1)) for lo, hi in r): return c
        return set()

    def on_stored(self, A, st, o, store, uuid, site):
        if not self.incipher(A, store): return
        k = A.load(st, mkptr(deref(o), A.p.field("cipher_s", "stored_key")), 8)
        if isc(k): return
        g = A.load(st, mkptr(deref(o), A.p.field("cipher_s", "cipher_algorithm")), 4)
        t = self.type(A, st, k)
        self.stores.add(site.loc())
        for x, n in self.algorithms(A).items():
            if truth(st, mkicmp("eq", g, C(x, g.w))) is False: continue
            if truth(st, mkicmp("eq", t, C(self.T(A)[n], t.w))) is not True:
                A.report("context-of-another-type", models.climb(A, site), "a cipher context is stored whose algorithm may be %d, which takes a key of the type %s, on a path that has not found its key to be one" % (x, n))

    def want(self, A, st, k, names, name, site):
        t = self.type(A, st, k)
        self.kinds.add("%s %s in %s" % (site.loc(), name, A.entry.name))
        r = self.implied(A, st, k)
        ok = [self.T(A)[n] for n in names]
        if r and r <= set(names): return
        if not any(truth(st, mkicmp("eq", t, C(x, t.w))) is True for x in ok):
            A.report("key-of-another-type", models.climb(A, site) if name != "evp_pkey_from_pkcs8" else site, "a key is used by %s on a path that has not found its type to be %s" % (name, " or ".join(names)))

    def long(self, A, st, k, n):
        """The key has n bytes: size and key_length are the same number (stored_key_create), what is known of either is known of both."""
        l = list(self.lens(A, st, k))
        if any(truth(st, mkicmp("eq", x, C(n, x.w))) is True for x in l): return True
        r = [rng(st, x) for x in l]
        small = [x for x in r if x and sum(hi - lo + 1 for lo, hi in x) <= 64]
        if not small: return False
        c = {y for lo, hi in small[0] for y in range(lo, hi + 1)}
        return {y for y in c if not any(truth(st, mkicmp("eq", x, C(y, x.w))) is False for x in l)} <= {n}

    def restored(self, st, size):
        """The size is the one in the header of an object of the key store: the key was created before, and is restored as it was (C05)."""
        r = c03.chainroot(size.a[1] if size.op == "cast" else size)
        return r is not None and ("ref", r) in st.mon

    # ---- sinks
    def on_call(self, A, st, name, args, site):
        if name is not None and re.match(r"(i2d|d2i)_.*(PRIV_?KEY|rivateKey)", name) and len(args) > 1 and not isc(args[1]):
            v = A.load(st, args[1], 8)
            if not isc(v): st.mon[("enc", args[1])] = as_ptr(v)[0]
        if name == "stored_key_create":
            # the length of a symmetric key is what its header says
            self.creates.add(site.loc())
            t, size, n = args[3], args[5], args[7]
            if truth(st, mkicmp("eq", t, C(self.T(A)["SYMMETRIC"], t.w))) is not True and not self.restored(st, size):
                # another key is the encoding of a key: one that the library wrote or has read
                o = as_ptr(args[6])[0] if not isc(args[6]) else None
                if ("encoding", o) not in st.mon: A.report("not-an-encoding", site, "a key is created with a type other than SYMMETRIC on a path where the library has neither written nor read its bytes as a private key")
                else: self.encodings.add(site.loc())
            if truth(st, mkicmp("eq", t, C(self.T(A)["SYMMETRIC"], t.w))) is False: return
            if size is not n and truth(st, mkicmp("eq", size, n)) is not True and not self.restored(st, size):
                A.report("length-differs", site, "a symmetric key is created on a path that has not found the size in its header (%s) to be the number of its bytes (%s)" % (show(size), show(n)))
        if name == "evp_pkey_from_pkcs8":
            k = self.holder(A, st, args[1])
            if k is None: return
            t = args[0]
            if isc(t): n = {PKEY.get(t.a[0], "?")}
            else: n = {PKEY[x] for x in PKEY if truth(st, mkicmp("eq", t, C(x, t.w))) is not False}
            if "?" in n: return
            if len(n) > 1: n = {"EC"} if not any(truth(st, mkicmp("eq", t, C(x, t.w))) is not False for x in (6, 28)) else n
            self.want(A, st, k, sorted(n), name, site)

    def key(self, st):
        return c03.Use.key(self, st), frozenset((k, v) for k, v in st.mon.items() if isinstance(k, tuple) and k[0] == "cipher")

    def ext(self, A, st, name, args, ret, site):
        if len(args) > 1 and ("enc", args[1]) in st.mon and re.match(r"(i2d|d2i)_", name):
            o = st.mon.pop(("enc", args[1]))
            if ret is not None and not (isc(ret) and ret.a[0] == 0): st.mon[("encoding", o)] = True
        if name.startswith("EVP_") and name in models.CONSTPTR and ret is not None and not isc(ret):
            for k in [k for k in st.mon if isinstance(k, tuple) and k[0] == "cipher"]: del st.mon[k]
            st.mon[("cipher", ret)] = name
            return
        if name in CIPHER:
            c, i = CIPHER[name]
            if not isc(args[c]): st.mon[("cctx", args[0])] = args[c]
            if isc(args[i]): return
            k = self.inkey(A, st, args[i])
            if k is None: return
            self.want(A, st, k, ("SYMMETRIC",), name, site)
            c = st.mon.get(("cctx", args[0]))
            c = st.mon.get(("cipher", c))
            n = next((l for p, l in NEED.items() if c is not None and c.startswith(p)), None)
            if n is None: self.undecided.add("%s %s" % (site.loc(), c or "?")); return
            self.sizes.add(site.loc() + " " + c)
            if not self.long(A, st, k, n):
                A.report("key-of-another-length", models.climb(A, site), "a key is used by %s with %s on a path that has not found its length to be %d" % (name, c, n))
        elif name in MAC:
            k = self.inkey(A, st, args[MAC[name]])
            if k is not None: self.want(A, st, k, ("SYMMETRIC",), name, site)

    def on_memcpy(self, A, st, d, s, n, site): pass


def run(tier):
    P = program("ta")
    ms = dict(contracts.ALL, video_output_poll=c03.m_poll)
    jobs = [Job("ta", e, lambda: [Kind()], models=ms) for e in ta_entries(P)]
    res = run_jobs(jobs)
    cov = summarise(res, jobs)
    need(cov.get("key_uses_checked_for_type", 0) >= 20 and cov.get("cipher_keys_checked_for_length", 0) >= 10, "the uses of keys are not where the rule looks for them")
    return {"reports": merge(res), "coverage": cov}
