"""Property monitors for the abstract interpreter."""
import re
from core import *
import models


def reachable(A, st, roots, extra_objs=()):
    """Values reachable from root values through memory; every non-stack, non-resource object is a root as well."""
    seen = set(); work = list(roots); objs = set()
    for o in st.mem:
        if o.kind == "global": work.append(mkptr(o, 0))
        elif o.kind == "deref":
            x = st.mon.get(("res", o.base))
            if x is None or x[1] == "stored": objs.add(o)
    work_o = list(objs) + list(extra_objs)
    out = set()
    done = set()
    while work or work_o:
        while work:
            v = work.pop()
            if v in seen: continue
            seen.add(v)
            out |= v.syms
            for s in v.syms:
                if s not in seen: work.append(s)
            if v.op == "ptr":
                o = v.a[0]
                work_o.append(o)
            elif v.op in ("sym", "ld"):
                work_o.append(deref(v))
        while work_o:
            o = work_o.pop()
            if o in done: continue
            done.add(o)
            for off, (v, w) in (st.mem.get(o) or {}).items():
                if w == 8 and v not in seen: work.append(v)
    return seen | out


class Resources:
    """Ownership typestate of every heap object and library handle: freed exactly once, never used afterwards, never lost."""
    def __init__(self, leaks=True):
        self.leaks = leaks
        self.sites = set(); self.frees = set(); self.checked = 0

    def coverage(self):
        return {"allocation_sites": self.sites, "release_sites": self.frees}

    def key(self, st):
        r = []
        for k, v in st.mon.items():
            if isinstance(k, tuple) and k[0] == "res": r.append((k[1], v[1], v[4]))
        return frozenset(r)

    def hardkey(self, st):
        return frozenset((k[1], v[1]) for k, v in st.mon.items() if isinstance(k, tuple) and k[0] == "res" and v[1] == "live")

    def on_alloc(self, A, st, v, kind, size, site):
        self.sites.add(site.loc())

    def on_free(self, A, st, p, kind, site, name):
        self.frees.add(site.loc())
        site = models.climb(A, site)
        if p.op == "ptr":
            o, off = p.a
            if o.kind in ("stack", "global"):
                A.report("free-of-non-heap", site, "%s of %s" % (name, showobj(o)))
            elif off != 0:
                A.report("free-of-interior-pointer", site, "%s of %s" % (name, show(p)))
            return
        r = st.mon.get(("res", p))
        if r is None: return
        if r[1] == "freed":
            A.report("double-free", site, "%s of an object already released at %s" % (name, r[2]))
        elif r[1] == "stored":
            A.report("double-free", site, "%s of an object handed over at %s" % (name, r[2]))
        elif r[0] != kind and not (r[0], kind) in OKPAIR:
            A.report("wrong-deallocator", site, "%s object from %s released with %s" % (r[0], r[2], name))

    def on_deref(self, A, st, p, w, site, what):
        self.checked += 1
        if isc(p):
            if p.a[0] < 4096:
                A.report("null-dereference", site, "%s through a null pointer" % what)
            return False
        o = as_ptr(p)[0]
        if o.kind == "deref":
            b = o.base
            while b is not None:
                r = st.mon.get(("res", b))
                if r is not None and r[1] == "freed":
                    A.report("use-after-free", site, "%s of an object released at %s" % (what, r[2]))
                    return False
                if b.op == "c":
                    A.report("null-dereference", site, "%s through a null pointer" % what)
                    return False
                b = None
        return None

    def on_memcpy(self, A, st, d, s, n, site):
        for p, w in ((d, "write"), (s, "read")):
            if isc(p):
                if truth(st, mkicmp("eq", n, C(0, n.w))) is not True and inter(rng(st, n), ((1, (1 << 64) - 1),)):
                    A.report("null-dereference", site, "memcpy %s through a null pointer" % w)
                continue
            r = st.mon.get(("res", as_ptr(p)[0].base)) if as_ptr(p)[0].base is not None else None
            if r is not None and r[1] == "freed":
                A.report("use-after-free", site, "memcpy %s of an object released at %s" % (w, r[2]))

    def on_memset(self, A, st, p, c, n, site, name):
        if isc(p):
            if inter(rng(st, n), ((1, (1 << 64) - 1),)) and rng(st, n)[0][0] > 0 or (p is NULL and truth(st, mkicmp("eq", n, C(0, n.w))) is not True):
                A.report("null-dereference", site, "%s of a null pointer" % name)
            return
        b = as_ptr(p)[0].base
        r = st.mon.get(("res", b)) if b is not None else None
        if r is not None and r[1] == "freed":
            A.report("use-after-free", site, "%s of an object released at %s" % (name, r[2]))

    def on_call(self, A, st, name, args, site):
        F = A.p.fns.get(name)
        if F is None or F.blocks is not None: return
        for i in nonnull(name):
            if i < len(args) and args[i] is NULL:
                A.report("null-dereference", models.climb(A, site), "argument %d of %s is a null pointer" % (i + 1, name))
                return False

    def on_ext(self, A, st, name, args, ret, site):
        if name in FREEFN or name in ("log_entry",): return
        for i, a in enumerate(args):
            if a.op in ("sym", "ptr", "ld"):
                b = as_ptr(a)[0].base
                r = st.mon.get(("res", b)) if b is not None else None
                if r is not None and r[1] == "freed" and not (name == "realloc"):
                    A.report("use-after-free", site, "argument %d of %s was released at %s" % (i + 1, name, r[2]))

    def on_exit(self, A, st, site, ret):
        for o, cells in st.mem.items():
            if o.kind == "stack": continue
            if o.kind == "deref":
                x = st.mon.get(("res", o.base))
                if x is not None and x[1] != "stored": continue
            for off, (v, w) in cells.items():
                x = st.mon.get(("res", v))
                if w == 8 and x is not None and x[1] == "freed":
                    F = A.p.fns[x[3]]
                    s2 = Site(A, F, int(x[2].rsplit(":", 1)[1]), site.ctx, None)
                    A.report("dangling-reference", s2, "object released here is still referenced by memory that outlives %s" % A.entry.name, {"exit": site.loc()})
        if not self.leaks: return
        live = [k[1] for k, v in st.mon.items() if isinstance(k, tuple) and k[0] == "res" and v[1] == "live" and not v[0].startswith("ext:")]
        if not live: return
        roots = list(A.args)
        if ret is not None: roots.append(ret)
        reach = reachable(A, st, roots)
        for v in live:
            if v not in reach:
                r = st.mon[("res", v)]
                s2 = Site(A, A.p.fns[r[3]], int(r[2].rsplit(":", 1)[1]), site.ctx, None)
                A.report("leak", s2, "%s object acquired here is neither released nor handed over when %s returns" % (r[0], A.entry.name), {"exit": site.loc()})


# arguments a library function may not be given null
NONNULL = {n: p for p, ns in {
    (0,): "ASN1_OCTET_STRING_set ASN1_item_unpack PKCS8_decrypt BN_bn2bin BN_num_bits BIO_push BIO_read BIO_set_flags ECDSA_SIG_get0 EC_GROUP_get_degree i2d_PKCS8_PRIV_KEY_INFO i2d_PUBKEY "
          "PKCS12_SAFEBAG_get0_attr PKCS12_SAFEBAG_get_nid PKCS12_unpack_authsafes PKCS12_unpack_p7data PKCS12_unpack_p7encdata PKCS12_verify_mac d2i_PKCS12_fp fclose fflush strlen strftime yajl_complete_parse yajl_parse "
          "EVP_PKCS82PKEY EVP_PKEY2PKCS8 EVP_MD_get_type EVP_PKEY_get_bits EVP_PKEY_get_id RAND_bytes localtime_r OBJ_obj2nid pthread_mutex_lock pthread_mutex_unlock pthread_mutex_init pthread_mutex_destroy",
    (0, 1): "strcmp strncmp strcpy strncpy EC_POINT_invert EC_POINT_mul EC_POINT_oct2point EC_POINT_point2oct EVP_DigestInit_ex EVP_MAC_init",
    (4,): "PKCS8_pkey_get0", (0, 1, 2, 3): "EC_POINT_add"}.items() for n in ns.split()}
EVPFN = re.compile(r"EVP_(?:CIPHER_CTX|MAC|MAC_CTX|PKEY_CTX|PKEY|Encrypt|Decrypt|Digest|Cipher)_?[A-Za-z0-9_]*$")


def nonnull(name):
    r = NONNULL.get(name)
    if r is not None: return r
    if EVPFN.match(name) and not re.search(r"_free$|_new(_|$)|_fetch$|_dup$", name): return (0,)
    return ()


OKPAIR = {("PKCS8", "PKCS8"), ("mem", "ossl"), ("ossl", "mem")}
FREEFN = set(models.FREE) | {"realloc", "object_store_shutdown", "json_value_free"}


class Locks:
    def __init__(self):
        self.sites = set()

    def key(self, st):
        return frozenset((k, v) for k, v in st.mon.items() if isinstance(k, tuple) and k[0] == "lock")
    hardkey = key

    def on_mutex(self, A, st, name, m, site):
        k = ("lock", m)
        if name == "pthread_mutex_lock":
            self.sites.add(site.loc())
            n = st.mon.get(k)
            c = (n[1] if n else 0) + 1
            if c > 3:
                A.report("locked-again-and-again", models.climb(A, site), "a mutex is locked over and over without being unlocked"); c = 3
            st.mon[k] = (site.loc(), c)
        elif name == "pthread_mutex_unlock":
            self.sites.add(site.loc())
            n = st.mon.get(k)
            if n is None: A.report("unlock-not-held", site, "mutex %s unlocked without being held" % show(m))
            elif n[1] == 1: del st.mon[k]
            else: st.mon[k] = (n[0], n[1] - 1)

    def on_exit(self, A, st, site, ret):
        for k, v in st.mon.items():
            if isinstance(k, tuple) and k[0] == "lock":
                A.report("lock-held-at-exit", site, "mutex locked at %s is still held" % v[0])
