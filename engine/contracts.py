"""Contracts of the store layer.  An analysed entry uses them at its calls; each function they stand for is analysed
on its own as well (see rules.py), so what an entry assumes of the layer is what the layer's own analysis establishes."""
from core import *
import models

NZ32 = compl(((0, 0),), 32)
NN = ((1, (1 << 64) - 1),)


def fail(A, st, name, site):
    r = A.fresh(st, "call", name, site, w=32)
    constrain(st, r, NZ32)
    models.fail_mark(A, st, name, r, site)
    return r


def nonnull(st, v):
    if isc(v): return v.a[0] != 0
    return constrain(st, v, NN)


def c_acquire(A, st, name, args, site, w):
    out, store, slot, uuid = args
    if isc(out): return [(st, fail(A, st, name, site))]
    A.store(st, out, NULL, 8)
    s0 = st.copy()
    r = fail(A, s0, name, site)
    res = [(s0, r)]
    if nonnull(st, store) and nonnull(st, uuid):
        v = st.mon.get(("slot", slot))
        if v is None:
            v = A.fresh(st, "alloc", name, site, extra="obj")
            st.rg[v] = NN
        A.store(st, out, v, 8)
        st.mon[("ref", v)] = (site.loc(), site.F.name, store, slot, uuid)
        res.append((st, C(0, 32)))
    return res


def c_release(A, st, name, args, site, w):
    store, slot, o, uuid = args
    if o is NULL or truth(st, mkicmp("eq", o, NULL)): return [(st, fail(A, st, name, site))]
    k = ("ref", o)
    r = st.mon.get(k)
    if r is None:
        # a release without an acquisition seen here fails or is the callee's business
        for m in A.monitors:
            if hasattr(m, "on_badrelease"): m.on_badrelease(A, st, o, None, args, site)
        s0 = st.copy()
        return [(s0, fail(A, s0, name, site)), (st, C(0, 32))]
    if r[2] is not store or r[3] is not slot or not same_uuid(st, r[4], uuid):
        for m in A.monitors:
            if hasattr(m, "on_badrelease"): m.on_badrelease(A, st, o, r, args, site)
    del st.mon[k]
    for m in A.monitors:
        if hasattr(m, "on_release"): m.on_release(A, st, o, r, site)
    return [(st, C(0, 32))]


def same_uuid(st, a, b):
    return a is b


def c_add(A, st, name, args, site, w):
    out, store, o, uuid = args
    if isc(out): return [(st, fail(A, st, name, site))]
    A.store(st, out, C(0xffffffffffffffff, 64), slotw(A))
    s0 = st.copy()
    r = fail(A, s0, name, site)
    res = [(s0, r)]
    if nonnull(st, store) and nonnull(st, o) and nonnull(st, uuid):
        h = A.fresh(st, "call", name, site, w=slotw(A) * 8, extra="slot")
        constrain(st, h, ((0, (1 << (slotw(A) * 8)) - 2),))
        A.store(st, out, h, slotw(A))
        k = ("res", o)
        x = st.mon.get(k)
        if x is not None:
            st.mon[k] = (x[0], "stored", site.loc(), site.F.name, 0)
            st.mon[("slot", h)] = o
        for m in A.monitors:
            if hasattr(m, "on_stored"): m.on_stored(A, st, o, store, uuid, site)
        res.append((st, C(0, 32)))
    return res


def slotw(A):
    return 8


def c_remove(A, st, name, args, site, w):
    s0 = st.copy()
    r = fail(A, s0, name, site)
    res = [(s0, r)]
    if nonnull(st, args[0]) and nonnull(st, args[2]): res.append((st, C(0, 32)))
    return res


def c_size(A, st, name, args, site, w):
    v = A.fresh(st, "call", name, site, w=64)
    return [(st, v)]


def c_init(A, st, name, args, site, w):
    s0 = st.copy()
    v = models.new_res(A, st, name, "store", site)
    st.dflt.pop(deref(v), None)
    if args and args[0].op == "fn": st.mon[("freefn", v)] = args[0].a[0]
    models.fail_mark(A, s0, name, NULL, site)
    return [(s0, NULL), (st, v)]


def c_shutdown(A, st, name, args, site, w):
    p = args[0]
    if p is NULL: return [(st, None)]
    models.do_free(A, st, p, "store", site, name)
    return [(st, None)]


def c_global(A, st, name, args, site, w):
    s0 = st.copy()
    v = sym("const", "client_store")
    st.rg[v] = NN
    models.fail_mark(A, s0, name, NULL, site)
    return [(s0, NULL), (st, v)]


def stored_key_value(A, st, name, site):
    """A stored key as stored_key_create builds it: the structure and the key buffer it owns."""
    D = A.p.di.get("stored_key_s") or A.p.di.get("stored_key_t")
    v = models.new_res(A, st, name, "mem", site, extra="sk")
    st.dflt.pop(deref(v), None)
    k = models.new_res(A, st, name, "mem", site, extra="key")
    st.dflt.pop(deref(k), None)
    A.store(st, mkptr(deref(v), A.p.field("stored_key_s", "key")), k, 8)
    n = mk("ld", deref(v), A.p.field("stored_key_s", "key_length"), None, w=64)
    st.mon[("size", k)] = n
    return v


def c_key_unwrap(A, st, name, args, site, w):
    out, store, key, uuid = args
    if isc(out): return [(st, fail(A, st, name, site))]
    A.store(st, out, NULL, 8)
    s0 = st.copy()
    r = fail(A, s0, name, site)
    res = [(s0, r)]
    if nonnull(st, store) and nonnull(st, uuid):
        v = stored_key_value(A, st, name, site)
        A.store(st, out, v, 8)
        st.mon[("skh", v)] = (key, store, uuid)
        res.append((st, C(0, 32)))
    return res


def c_key_import(A, st, name, args, site, w):
    """key_store_import_stored_key / _exported: a new key handle; the argument stays the caller's."""
    out, store, src = args[0], args[1], args[2]
    uuid = args[-1]
    if isc(out): return [(st, fail(A, st, name, site))]
    A.store(st, out, C(0xffffffffffffffff, 64), 8)
    s0 = st.copy()
    r = fail(A, s0, name, site)
    res = [(s0, r)]
    if nonnull(st, store) and nonnull(st, src) and nonnull(st, uuid):
        h = A.fresh(st, "call", name, site, w=64, extra="slot")
        constrain(st, h, ((0, (1 << 64) - 2),))
        A.store(st, out, h, 8)
        for m in A.monitors:
            if hasattr(m, "on_key_stored"): m.on_key_stored(A, st, name, args, site)
        res.append((st, C(0, 32)))
    return res


def c_status_out(*outs):
    """A status function that writes the given (argument, bytes) and nothing else."""
    def f(A, st, name, args, site, w):
        for i, n in outs:
            if i < len(args) and not isc(args[i]):
                A.havoc_range(st, args[i], C(n) if n is not None else None, (site, "out", i))
        s0 = st.copy()
        r = fail(A, s0, name, site)
        return [(s0, r), (st, C(0, 32))]
    return f


STORE = {
    "object_store_acquire": c_acquire, "object_store_release": c_release, "object_store_add": c_add, "object_store_remove": c_remove,
    "object_store_size": c_size, "object_store_init": c_init, "object_store_shutdown": c_shutdown, "client_store_global": c_global,
}
KEYS = {
    "key_store_unwrap": c_key_unwrap, "key_store_import_stored_key": c_key_import, "key_store_import_exported": c_key_import,
}


def c_otp_wrap(A, st, name, args, site, w):
    # (out, inputs, in, in_length[, iv])
    A.havoc_range(st, args[0], args[3], (site, "out", 0)) if not isc(args[0]) else None
    s0 = st.copy()
    r = fail(A, s0, name, site)
    return [(s0, r), (st, C(0, 32))]


def c_otp_hmac(A, st, name, args, site, w):
    if not isc(args[0]): A.havoc_range(st, args[0], C(32), (site, "out", 0))
    s0 = st.copy()
    r = fail(A, s0, name, site)
    return [(s0, r), (st, C(0, 32))]


def c_otp_gcm(A, st, name, args, site, w):
    # (out, inputs, root key type, in, in_length, iv, iv_length, aad, aad_length, tag, tag_length)
    if not isc(args[0]): A.havoc_range(st, args[0], args[4], (site, "out", 0))
    s0 = st.copy()
    r = fail(A, s0, name, site)
    return [(s0, r), (st, C(0, 32))]


OTP = {"otp_wrap_aes_cbc": c_otp_wrap, "otp_unwrap_aes_cbc": c_otp_wrap, "otp_hmac_sha256": c_otp_hmac, "otp_unwrap_aes_gcm": c_otp_gcm}
ALL = {}
for d in (models.MODELS, STORE, KEYS, OTP): ALL.update(d)
VERIFIED = sorted(set(STORE) | set(KEYS) | set(OTP))


# ---------------------------------------------------------------- JSON values (json.c is analysed on its own)
def c_json_parse(A, st, name, args, site, w):
    s0 = st.copy()
    models.fail_mark(A, s0, name, NULL, site)
    v = models.new_res(A, st, name, "json", site)
    st.dflt.pop(deref(v), None)
    return [(s0, NULL), (st, v)]


def c_json_free(A, st, name, args, site, w):
    p = args[0]
    if p is NULL or truth(st, mkicmp("eq", p, NULL)): return [(st, None)]
    models.do_free(A, st, p, "json", site, name)
    return [(st, None)]


def c_json_list(A, st, name, args, site, w):
    """json_value_as_map / _as_array: NULL without writing the count, or a new array of that many entries."""
    s0 = st.copy()
    models.fail_mark(A, s0, name, NULL, site)
    v = models.new_res(A, st, name, "mem", site)
    st.dflt.pop(deref(v), None)
    if not isc(args[0]):
        n = A.fresh(st, "call", name, site, extra="count")
        A.store(st, args[0], n, 8)
    return [(s0, NULL), (st, v)]


def c_json_string(A, st, name, args, site, w):
    s0 = st.copy()
    models.fail_mark(A, s0, name, NULL, site)
    v = A.fresh(st, "call", name, site)
    st.rg[v] = NN
    if not isc(args[0]):
        n = A.fresh(st, "call", name, site, extra="length")
        A.store(st, args[0], n, 8)
    st.mon[("jsonstr", v)] = True
    return [(s0, NULL), (st, v)]


def c_json_scalar(A, st, name, args, site, w):
    return [(st, A.fresh(st, "call", name, site, w=w))]


def c_json_find(A, st, name, args, site, w):
    s0 = st.copy()
    v = A.fresh(st, "call", name, site)
    st.rg[v] = NN
    return [(s0, NULL), (st, v)]


WEAK.add("jsonstr")
JSON = {
    "json_parse_bytes": c_json_parse, "json_value_free": c_json_free, "json_value_as_map": c_json_list, "json_value_as_array": c_json_list,
    "json_value_as_string": c_json_string, "json_value_as_number": c_json_string, "json_value_as_integer": c_json_scalar, "json_value_as_bool": c_json_scalar,
    "json_value_as_double": c_json_scalar, "json_key_value_find": c_json_find,
}
ALL.update(JSON)


def c_keystore(A, st, name, args, site, w):
    # (key, key_length, name, name_length)
    for s in (st,):
        for i in (0, 2):
            if not isc(args[i]): A.havoc(s, args[i], (site, "out", i))
        for i in (1, 3):
            if not isc(args[i]): A.havoc_range(s, args[i], C(8), (site, "out", i))
    s0 = st.copy()
    models.fail_mark(A, s0, name, FALSE, site)
    return [(s0, C(0, w)), (st, C(1, w))]


UTIL = {"load_pkcs12_secret_key": c_keystore}
ALL.update(UTIL)
VERIFIED = sorted(set(STORE) | set(KEYS) | set(OTP) | set(JSON) | set(UTIL))
