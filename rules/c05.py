"""Authenticity before use.  The commands that take in protected data, the functions under them that verify it and the commands that are themselves a
verification are interpreted; a key, a rights structure, plaintext or an answer that depends on protected data is produced with success only on paths on
which the tag or code over that data was compared, over its whole length, and found right."""
import re
from driver import Job, run_jobs, program, merge, summarise, need
from core import *
import contracts, models

MAC = 32  # every message authentication code of the formats is a whole HMAC-SHA256
AEAD = re.compile(r"EVP_(aes_\d+_(gcm|ccm|ocb)|chacha20_poly1305)$")
SET_TAG, GCM, CHACHA = 0x11, "SA_CIPHER_ALGORITHM_AES_GCM", "SA_CIPHER_ALGORITHM_CHACHA20_POLY1305"


def tup(k): return isinstance(k, tuple)


class Verified:
    def __init__(self):
        self.macs = set(); self.compares = set(); self.tags = set(); self.uses = set(); self.finals = set()

    def coverage(self):
        return {"codes_computed": self.macs, "codes_compared": self.compares, "tags_given": self.tags, "decryptions_finished": self.finals, "uses_checked": self.uses}

    def key(self, st):
        return frozenset((k, v) for k, v in st.mon.items() if tup(k) and k[0] in ("macok", "unver", "tagset", "final", "vp", "macdata", "mac", "parsed", "authentic", "cmparg", "aeadby", "made", "unfinished")
                         or tup(k) and k[0] == "pend" and v[0] == "final")

    hardkey = key

    # ---- when the result of a call says that it worked
    def later(self, A, st, ret, what, *arg):
        if ret is None: return
        if isc(ret):
            if ret.a[0] == (0 if what == "cmp" else 1): self.done(A, st, what, arg)
            elif what == "final": st.mon[("unfinished",)] = arg[1]
            return
        st.mon[("pend", ret)] = (what,) + arg
        self.settle(A, st, ret)

    def settle(self, A, st, v):
        p = st.mon.get(("pend", v))
        if p is None: return
        if p[0] == "cmp": t = truth(st, mkicmp("eq", v, C(0, v.w)))
        else:
            t = truth(st, mkicmp("sgt", v, C(0, v.w)))
            if t is None and truth(st, mkicmp("eq", v, C(0, v.w))) is False and v.w == 1: t = True
        if t is None: return
        del st.mon[("pend", v)]
        if t: self.done(A, st, p[0], p[1:])
        elif p[0] == "final": st.mon[("unfinished",)] = p[2]

    def on_assume(self, A, st, v, t, site):
        for x in v.syms:
            if ("pend", x) in st.mon: self.settle(A, st, x)

    def on_call(self, A, st, name, args, site):
        if name == "stored_key_create": self.create(A, st, args, site)
        elif name == "b64_decode" and not isc(args[0]): st.mon[("b64", as_ptr(args[0])[0])] = (args[2], args[3])

    def done(self, A, st, what, a):
        if what == "tag":
            ctx, p, n, loc = a
            self.tags.add(loc)
            st.mon[("tagset", ctx)] = (p, n)
        elif what == "final":
            ctx, loc = a
            self.finals.add(loc)
            st.mon[("final", ctx)] = st.mon.get(("tagset", ctx), ())
            for k in [k for k in st.mon if tup(k) and k[0] == "unver" and st.mon[k][0] is ctx]:
                del st.mon[k]
                st.mon[("aeadby", k[1])] = (st.mon.get(("tagset", ctx)), st.mon.get(("aad", ctx)))
        elif what == "cmp":
            x, y, n, loc = a
            for p, q in ((x, y), (y, x)):
                if p in A.args and not isc(q):
                    self.compares.add(loc)
                    st.mon[("cmparg", p)] = (n, st.mon.get(("made", as_ptr(q)[0])))
            if as_ptr(x)[0] is as_ptr(y)[0]: return
            for p in (x, y):
                o, off = as_ptr(p)
                m = st.mon.get(("mac", o))
                if m is None or off != 0: continue
                r = rng(st, n)
                if not r or r[0][0] < MAC: continue
                self.compares.add(loc)
                st.mon[("macok", m[0])] = m[1]
                for k in [k for k in st.mon if tup(k) and k[0] == "b64"]:
                    q, k_ = st.mon[k]
                    if rng(st, k_) == ((0, 0),) or any(a is q and same(b, k_) for a, b in m[1]): st.mon[("authentic", k[1])] = m[0]
        elif what == "pkcs12": st.mon[("vp",)] = True

    # ---- events
    def on_ext(self, A, st, name, args, ret, site):
        loc = site.loc()
        if name is None: return
        if name == "EVP_MAC_init":
            st.mon[("mackey", args[0])] = args[1]; st.mon[("macdata", args[0])] = ()
        elif name == "EVP_MAC_update":
            d = st.mon.get(("macdata", args[0]))
            if d is not None and len(d) < 12: st.mon[("macdata", args[0])] = d + ((args[1], args[2]),)
        elif name == "EVP_MAC_final":
            d = st.mon.pop(("macdata", args[0]), None)
            if d is not None and not isc(args[1]):
                self.macs.add(loc)
                st.mon[("mac", as_ptr(args[1])[0])] = (st.mon.get(("mackey", args[0])), d)
        elif name == "otp_hmac_sha256":
            if not isc(args[0]):
                self.macs.add(loc)
                st.mon[("mac", as_ptr(args[0])[0])] = (args[1], ((args[2], args[3]), (args[4], args[5]), (args[6], args[7])))
        elif name in ("memory_memcmp_constant", "memcmp", "CRYPTO_memcmp"):
            if not isc(args[0]) and not isc(args[1]): self.later(A, st, ret, "cmp", args[0], args[1], args[2], loc)
        elif name == "EVP_DigestUpdate": st.mon[("hashed", args[0])] = st.mon.get(("hashed", args[0]), ()) + ((args[1], args[2]),)
        elif name == "EVP_DigestInit_ex": st.mon[("hashed", args[0])] = ()
        elif name in ("EVP_DigestFinal_ex", "EVP_DigestFinal"):
            if not isc(args[1]): st.mon[("made", as_ptr(args[1])[0])] = ("digest",) + st.mon.get(("hashed", args[0]), ())[:6]
        elif name == "object_store_acquire":
            v, q = A.load(st, args[0], 8), args[1]
            if not isc(v) and q.op == "ld" and q.a[1] == A.p.field("client_s", "cipher_store"): st.mon[("was", v)] = True
        elif name == "otp_unwrap_aes_gcm":
            r = rng(st, args[10])
            self.uses.add(loc)
            if not r or r[0][0] < 16: A.report("success-without-verification", models.climb(A, site), "the container decides how long the tag is that is compared")
            if rng(st, args[8]) and rng(st, args[8])[0][0] == 0: A.report("success-without-verification", models.climb(A, site), "the tag does not have to cover the header and the rights of the container")
        elif AEAD.match(name): st.mon[("aead", site.ctx)] = name
        elif name == "EVP_CIPHER_CTX_ctrl":
            if isc(args[1]) and args[1].a[0] == SET_TAG and not isc(args[3]): self.later(A, st, ret, "tag", args[0], args[3], args[2], loc)
        elif name in ("EVP_DecryptFinal_ex", "EVP_DecryptFinal", "EVP_CipherFinal_ex"):
            if A.entry.name == "ta_sa_crypto_cipher_process_last": last(self, A, st, args[0], site)
            self.later(A, st, ret, "final", args[0], loc)
        elif name == "EVP_DecryptUpdate":
            if not isc(args[1]) and not isc(args[3]): st.mon[("made", as_ptr(args[1])[0])] = ("decrypted", (args[3], args[4]))
            if args[1] is NULL: st.mon[("aad", args[0])] = (args[3], args[4])
            elif ("aead", site.ctx) in st.mon and not isc(args[1]):
                st.mon[("unver", as_ptr(args[1])[0])] = (args[0], loc)
        elif name == "otp_unwrap_aes_cbc":
            if isc(args[0]): return
            ok = self.covered(st, args[2])
            o = as_ptr(args[0])[0]
            if ok is None: st.mon[("unver", o)] = (args[0], loc)
            else: st.mon[("verby", o)] = ok
            if ok is not None and self.covered(st, args[4]) is None:
                st.mon[("unver", o)] = (args[0], loc)
        elif name == "PKCS12_verify_mac": self.later(A, st, ret, "pkcs12")
        elif name == "json_parse_bytes":
            if ret is not NULL: st.mon[("parsed", as_ptr(args[0])[0] if not isc(args[0]) else None)] = True

    def covered(self, st, p, n=None):
        """The data a right code was computed over, when p points into it."""
        if isc(p): return None
        o, off = as_ptr(p)
        for k, data in st.mon.items():
            if tup(k) and k[0] == "macok" and isinstance(data, tuple):
                for q, m in data:
                    if isc(q): continue
                    qo, qoff = as_ptr(q)
                    if qo is not o: continue
                    if isinstance(off, int) and isinstance(qoff, int):
                        if off < qoff: continue
                        if isc(m) and off >= qoff + m.a[0]: continue
                    elif off is not qoff: continue
                    return data
        return None

    def create(self, A, st, args, site):
        p = args[6]
        if isc(p): return
        o = as_ptr(p)[0]
        self.uses.add(site.loc())
        if ("unver", o) in st.mon:
            A.report("used-before-verified", models.climb(A, site), "a key is made from data that was decrypted at %s and whose authenticity is not established on this path" % st.mon[("unver", o)][1].split("/")[-1])
        elif ("aeadby", o) in st.mon and A.entry.name == "ta_sa_key_unwrap":
            t, d = st.mon[("aeadby", o)]
            if not t or not self.given(A, t[0]) or not self.given(A, t[1], True): A.report("used-before-verified", models.climb(A, site), "the tag that was compared is not the caller's tag over its whole length")
        elif ("verby", o) in st.mon:
            for i, w in ((1, "rights"), (4, "type parameters")):
                if not isc(args[i]) and self.covered(st, args[i]) is None:
                    A.report("used-before-verified", models.climb(A, site), "the %s of an imported key come from memory that the verified code does not cover" % w)
            for i, w in ((3, "type"), (5, "size")):
                for x in self.loads(args[i]):
                    if self.covered(st, mkptr(x.a[0], x.a[1])) is None:
                        A.report("used-before-verified", models.climb(A, site), "the %s of an imported key comes from memory that the verified code does not cover" % w)

    def given(self, A, v, number=False):
        """Is v a field of a structure the caller gave?"""
        while v.op == "cast": v = v.a[1]
        if number and isc(v) and v.a[0] == 16: return True
        return v.op == "ld" and v.a[0].base in A.args

    def loads(self, v):
        return [x for x in v.syms | {v} if x.op == "ld"]

    # ---- what success means
    def on_exit(self, A, st, site, ret):
        f = A.entry.name
        if ret is None: return
        if A.entry.ditypes[0] == "sa_status": ok = truth(st, mkicmp("eq", ret, C(0, ret.w)))
        else: ok = truth(st, mkicmp("ne", ret, C(0, ret.w)))
        if ok is False: return
        if f == "ta_sa_crypto_cipher_process_last" and (("unfinished",) in st.mon or any(tup(k) and k[0] == "pend" and v[0] == "final" for k, v in st.mon.items())):
            A.report("success-without-verification", site, "the operation can report success when the end of a decryption failed")
        g = globals().get("exit_" + f)
        if g: g(self, A, st, site)


def field(A, st, p, ty, *f):
    return mk("ld", deref(p), A.p.field(ty, *f), None, w=64)


def final(M, A, st):
    for k in st.mon:
        if tup(k) and k[0] == "final": return k[1], st.mon[k]
    return None, None


def exit_otp_unwrap_aes_gcm(M, A, st, site):
    a = A.args
    M.uses.add(site.loc())
    c, t = final(M, A, st)
    if not t: return A.report("success-without-verification", site, "success without a finished authenticated decryption for which the tag was given")
    if t[0] is not a[9] or not same(t[1], a[10]): A.report("success-without-verification", site, "the tag that is compared is not the caller's tag over its whole length")
    d = st.mon.get(("aad", c))
    if truth(st, mkicmp("eq", a[8], C(0, a[8].w))) is not True and not (d and d[0] is a[7] and same(d[1], a[8])):
        A.report("success-without-verification", site, "the tag does not cover the additional data")


def same(x, y):
    """the same number, whatever its width"""
    while x.op == "cast": x = x.a[1]
    while y.op == "cast": y = y.a[1]
    return x is y


def exit_otp_hmac_sha256(M, A, st, site):
    a = A.args
    m = st.mon.get(("mac", as_ptr(a[0])[0]))
    M.uses.add(site.loc())
    if m is None: return A.report("success-without-verification", site, "success without a computed code")
    for p, n in ((a[2], a[3]), (a[4], a[5]), (a[6], a[7])):
        if truth(st, mkicmp("eq", n, C(0, n.w))) is True: continue
        if not any(q is p and same(k, n) for q, k in m[1]):
            A.report("success-without-verification", site, "the code is not computed over all of the data it stands for (%s)" % A.entry.argnames[[2, 4, 6].index([2, 4, 6][[a[2], a[4], a[6]].index(p)]) * 2 + 2])


def exit_load_pkcs12_secret_key(M, A, st, site):
    M.uses.add(site.loc())
    if ("vp",) not in st.mon: A.report("success-without-verification", site, "a key is loaded from the key store file on a path on which its code was not found right")


def exit_typej_unwrap(M, A, st, site):
    a = A.args
    M.uses.add(site.loc())
    oks = [(k, d) for k, d in st.mon.items() if tup(k) and k[0] == "macok"]
    key = field(A, st, a[3], "stored_key_s", "key")
    if not any(k[1] is key for k, d in oks):
        return A.report("success-without-verification", site, "a container is accepted on a path on which its code, computed with the integrity key given, was not found right over its whole length")
    for k in [k for k in st.mon if tup(k) and k[0] == "parsed"]:
        if st.mon.get(("authentic", k[1])) is not key:
            A.report("success-without-verification", site, "what is parsed is not what the verified code covers")


def last(M, A, st, ctx, site):
    """The end of a decryption of the caller's: with an algorithm that authenticates, the tag has to be there."""
    M.uses.add(site.loc())
    site = models.climb(A, site)
    for o in [x[1] for x in st.mon if tup(x) and x[0] == "was"]:
        alg = A.load(st, mkptr(deref(o), A.p.field("cipher_s", "cipher_algorithm")), 4)
        if all(truth(st, mkicmp("eq", alg, C(A.p.enums[n], alg.w))) is False for n in (GCM, CHACHA)): continue
        t = st.mon.get(("tagset", ctx))
        if not t: A.report("success-without-verification", site, "an authenticated decryption ends without a tag to compare")
        else:
            if not M.given(A, t[0]): A.report("success-without-verification", site, "the tag that is compared is not the one the caller gave")
            if not M.given(A, t[1], True): A.report("success-without-verification", site, "the tag is not compared over the length the caller gave")


def named(A, n):
    return A.args[A.entry.argnames.index(n)]


def exit_ta_sa_svp_buffer_check(M, A, st, site):
    M.uses.add(site.loc())
    c = st.mon.get(("cmparg", named(A, "hash")))
    if c is None or not (same(c[0], named(A, "hash_length")) or rng(st, named(A, "hash_length")) == rng(st, c[0]) and len(rng(st, c[0])) == 1 and rng(st, c[0])[0][0] == rng(st, c[0])[0][1]):
        return A.report("success-without-verification", site, "the check succeeds on a path on which the digest was not found equal to the caller's over its whole length")
    if not c[1] or c[1][0] != "digest" or truth(st, mkicmp("eq", named(A, "length"), C(0, 64))) is not True and not any(same(n, named(A, "length")) and named(A, "offset") in p.syms for p, n in c[1][1:]) and len(c[1]) > 1:
        A.report("success-without-verification", site, "what is compared is not the digest of the region of the buffer that the caller named")


def exit_ta_sa_svp_key_check(M, A, st, site):
    M.uses.add(site.loc())
    c = st.mon.get(("cmparg", named(A, "expected")))
    if c is None or not same(c[0], named(A, "bytes_to_process")):
        return A.report("success-without-verification", site, "the check succeeds on a path on which the decrypted bytes were not found equal to the expected ones over their whole length")
    if not c[1] or c[1][0] != "decrypted" or not same(c[1][1][1], named(A, "bytes_to_process")):
        A.report("success-without-verification", site, "what is compared is not the decryption of the caller's bytes")


def run(tier):
    P = program("ta")
    names = {"ta_sa_key_import", "ta_sa_key_unwrap", "ta_sa_crypto_cipher_process_last", "ta_sa_svp_buffer_check", "ta_sa_svp_key_check", "otp_unwrap_aes_gcm", "otp_hmac_sha256", "key_store_unwrap", "key_store_import_exported",
             "load_pkcs12_secret_key"}
    from rules import c07
    jobs = [j for j in c07.jobs_entries(P, lambda: [Verified()]) if j.entry in names]
    jobs.append(Job("ta", "typej_unwrap", lambda: [Verified()]))
    res = run_jobs(jobs)
    cov = summarise(res, jobs)
    need(cov.get("codes_compared", 0) >= 4 and cov.get("tags_given", 0) >= 3 and cov.get("uses_checked", 0) >= 10, "the verifications are not where the rule looks for them")
    return {"reports": merge(res), "coverage": cov}
