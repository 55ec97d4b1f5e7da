"""Models of what is outside the analysed sources: libc, pthread, OpenSSL, and the repo's two primitive memory routines."""
import re
from core import *
from core import _ctxinfo

# allocator -> resource kind
ALLOC = {
    "malloc": "mem", "calloc": "mem", "CRYPTO_malloc": "ossl", "CRYPTO_zalloc": "ossl", "CRYPTO_strdup": "ossl",
    "EVP_CIPHER_CTX_new": "EVP_CIPHER_CTX", "EVP_MD_CTX_new": "EVP_MD_CTX", "EVP_PKEY_CTX_new": "EVP_PKEY_CTX",
    "EVP_PKEY_CTX_new_id": "EVP_PKEY_CTX", "EVP_PKEY_CTX_new_from_name": "EVP_PKEY_CTX", "EVP_MAC_fetch": "EVP_MAC", "EVP_MAC_CTX_new": "EVP_MAC_CTX",
    "EVP_PKEY_new": "EVP_PKEY", "EVP_PKEY_dup": "EVP_PKEY", "EVP_PKCS82PKEY": "EVP_PKEY", "d2i_PUBKEY": "EVP_PKEY", "d2i_PrivateKey": "EVP_PKEY",
    "d2i_AutoPrivateKey": "EVP_PKEY",
    "EVP_PKEY2PKCS8": "PKCS8", "d2i_PKCS8_PRIV_KEY_INFO": "PKCS8", "PKCS8_decrypt": "PKCS8",
    "EC_GROUP_new_by_curve_name": "EC_GROUP", "EC_POINT_new": "EC_POINT", "BN_new": "BN", "BN_bin2bn": "BN",
    "d2i_ECDSA_SIG": "ECDSA_SIG", "ECDSA_SIG_new": "ECDSA_SIG", "BIO_new": "BIO", "BIO_new_mem_buf": "BIO",
    "d2i_PKCS12_fp": "PKCS12", "fopen": "FILE", "PKCS12_unpack_authsafes": "sk", "PKCS12_unpack_p7data": "sk", "PKCS12_unpack_p7encdata": "sk",
    "ASN1_OCTET_STRING_new": "ASN1_OCTET_STRING", "ASN1_item_unpack": "X509_SIG",
    "EVP_MD_fetch": "EVP_MD", "OSSL_LIB_CTX_new": "OSSL_LIB_CTX", "OSSL_PROVIDER_load": "OSSL_PROVIDER", "yajl_alloc": "yajl",
    "OSSL_PARAM_merge": "OSSL_PARAM", "OSSL_PARAM_dup": "OSSL_PARAM", "strdup": "mem",
}
FREE = {
    "free": "mem", "CRYPTO_free": "ossl", "CRYPTO_clear_free": "ossl", "EVP_CIPHER_CTX_free": "EVP_CIPHER_CTX", "EVP_MD_CTX_free": "EVP_MD_CTX", "EVP_PKEY_CTX_free": "EVP_PKEY_CTX",
    "EVP_MAC_free": "EVP_MAC", "EVP_MAC_CTX_free": "EVP_MAC_CTX", "EVP_PKEY_free": "EVP_PKEY", "PKCS8_PRIV_KEY_INFO_free": "PKCS8",
    "EC_GROUP_free": "EC_GROUP", "EC_POINT_free": "EC_POINT", "EC_POINT_clear_free": "EC_POINT", "BN_free": "BN", "BN_clear_free": "BN", "ECDSA_SIG_free": "ECDSA_SIG", "BIO_free": "BIO", "BIO_free_all": "BIO",
    "PKCS12_free": "PKCS12", "fclose": "FILE", "OPENSSL_sk_pop_free": "sk", "ASN1_OCTET_STRING_free": "ASN1_OCTET_STRING", "X509_SIG_free": "X509_SIG",
    "EVP_MD_free": "EVP_MD", "OSSL_LIB_CTX_free": "OSSL_LIB_CTX", "OSSL_PROVIDER_unload": "OSSL_PROVIDER", "yajl_free": "yajl", "OSSL_PARAM_free": "OSSL_PARAM",
}
SIZEARG = {"malloc": 0, "CRYPTO_malloc": 0, "CRYPTO_zalloc": 0}

# function -> {argument index: bytes written (int), ("arg", k) = value of argument k, None = unknown}
OUT = {
    "EVP_EncryptUpdate": {1: None, 2: 4}, "EVP_DecryptUpdate": {1: None, 2: 4}, "EVP_EncryptFinal": {1: None, 2: 4}, "EVP_EncryptFinal_ex": {1: None, 2: 4},
    "EVP_DecryptFinal": {1: None, 2: 4}, "EVP_DecryptFinal_ex": {1: None, 2: 4}, "EVP_CipherUpdate": {1: None, 2: 4}, "EVP_CipherFinal_ex": {1: None, 2: 4},
    "EVP_DigestFinal_ex": {1: None, 2: 4}, "EVP_DigestFinal": {1: None, 2: 4}, "EVP_MAC_final": {1: None, 2: 8}, "EVP_DigestSignFinal": {1: None, 2: 8}, "EVP_DigestSign": {1: None, 2: 8},
    "EVP_PKEY_decrypt": {1: None, 2: 8}, "EVP_PKEY_encrypt": {1: None, 2: 8}, "EVP_PKEY_sign": {1: None, 2: 8}, "EVP_PKEY_derive": {1: None, 2: 8},
    "EVP_PKEY_verify": {}, "EVP_DigestVerify": {},
    "RAND_bytes": {0: ("arg", 1)}, "BN_bn2bin": {1: None}, "BN_bn2nativepad": {1: ("arg", 2)}, "BN_bn2binpad": {1: ("arg", 2)}, "EC_POINT_point2oct": {3: None},
    "EVP_PKEY_get_utf8_string_param": {2: None, 4: 8}, "ECDSA_SIG_get0": {1: 8, 2: 8}, "time": {0: 8}, "localtime_r": {1: 56}, "strptime": {2: 56},
    "snprintf": {0: None}, "strftime": {0: None}, "strcpy": {0: None}, "strncpy": {0: ("arg", 2)}, "BIO_read": {1: None},
    "i2d_PKCS8_PRIV_KEY_INFO": {1: 8}, "i2d_PUBKEY": {1: 8}, "i2d_ECDSA_SIG": {1: 8},
    "OSSL_PARAM_construct_BN": {0: None}, "OSSL_PARAM_construct_end": {0: None}, "OSSL_PARAM_construct_utf8_string": {0: None}, "OSSL_PARAM_construct_uint64": {0: None},
    "EVP_PKEY_get_params": {}, "OSSL_PARAM_get_int": {1: 4}, "OSSL_PARAM_get_uint": {1: 4}, "OSSL_PARAM_get_size_t": {1: 8}, "OSSL_PARAM_get_uint64": {1: 8},
    "getenv": {}, "EVP_MD_CTX_copy": {}, "i2d_PKCS12_SAFEBAG": {1: 8}, "ASN1_STRING_to_UTF8": {0: 8}, "PKCS8_pkey_get0": {0: 8, 1: 8, 2: 4, 3: 8},
    "pthread_mutexattr_init": {0: None}, "pthread_mutexattr_settype": {}, "pthread_mutexattr_destroy": {},
    "CRYPTO_set_mem_functions": {}, "atexit": {}, "ASN1_OCTET_STRING_set": {}, "vfprintf": {}, "fflush": {}, "sleep": {},
    "EVP_MD_CTX_get_params": {}, "EVP_MD_CTX_set_params": {}, "EVP_MD_get_params": {},
}
# calls that write nothing the analysis sees
for n in """EVP_CIPHER_CTX_set_padding EVP_DecryptInit_ex EVP_EncryptInit_ex EVP_CipherInit_ex EVP_DigestInit_ex EVP_DigestInit_ex2 EVP_DigestSignInit EVP_DigestSignUpdate
EVP_DigestUpdate EVP_DigestVerifyInit EVP_MAC_init EVP_MAC_update EVP_MD_get_type EVP_PKEY_CTX_set_dh_pad EVP_PKEY_CTX_set_ec_param_enc
EVP_PKEY_CTX_set_ec_paramgen_curve_nid EVP_PKEY_CTX_set_rsa_keygen_bits EVP_PKEY_CTX_set_rsa_mgf1_md EVP_PKEY_CTX_set_rsa_oaep_md EVP_PKEY_CTX_set_rsa_padding
EVP_PKEY_CTX_set_rsa_pss_saltlen EVP_PKEY_CTX_set_signature_md EVP_PKEY_decrypt_init EVP_PKEY_encrypt_init EVP_PKEY_derive_init EVP_PKEY_derive_set_peer EVP_PKEY_fromdata_init
EVP_PKEY_get_bits EVP_PKEY_get_id EVP_PKEY_get_size EVP_PKEY_get_base_id EVP_PKEY_keygen_init EVP_PKEY_paramgen_init EVP_PKEY_sign_init EVP_PKEY_verify_init
EC_POINT_add EC_POINT_invert EC_POINT_mul EC_POINT_oct2point EC_GROUP_get_degree BN_num_bits OBJ_obj2nid OPENSSL_sk_num PKCS12_SAFEBAG_get_nid PKCS12_verify_mac
ECDSA_SIG_set0 BIO_set_flags ffs memchr memcmp strcmp strlen strncmp strnlen timegm tolower EVP_MD_get_size EVP_MD_get_block_size EVP_MD_is_a EVP_PKEY_set_type
OSSL_PARAM_locate OSSL_PARAM_locate_const OSSL_PARAM_set_int OSSL_PARAM_set_uint OSSL_PARAM_set_size_t OSSL_PARAM_set_ulong OSSL_PARAM_set_octet_string OSSL_PARAM_set_utf8_string
OSSL_PARAM_set_octet_ptr OSSL_PARAM_set_utf8_ptr OSSL_PROVIDER_add_builtin atoi EVP_PKEY_CTX_set0_rsa_oaep_label log_entry CRYPTO_memcmp""".split():
    OUT.setdefault(n, {})
# never-null results
CONSTPTR = set("EVP_aes_128_cbc EVP_aes_128_ctr EVP_aes_128_ecb EVP_aes_128_gcm EVP_aes_256_cbc EVP_aes_256_ctr EVP_aes_256_ecb EVP_aes_256_gcm EVP_chacha20 EVP_chacha20_poly1305 EVP_sha1 EVP_sha256 EVP_sha384 EVP_sha512 X509_SIG_it BIO_f_base64 PKCS12_SAFEBAG_it".split())
# creators through an out parameter: name -> (arg index, kind, success test)
OUTALLOC = {
    "EVP_PKEY_keygen": (1, "EVP_PKEY"), "EVP_PKEY_paramgen": (1, "EVP_PKEY"), "EVP_PKEY_generate": (1, "EVP_PKEY"), "EVP_PKEY_fromdata": (1, "EVP_PKEY"),
    "EVP_PKEY_get_bn_param": (2, "BN"), "OSSL_PARAM_get_BN": (1, "BN"), "EVP_PKEY_todata": (2, "OSSL_PARAM"),
}
# out-parameter creators that reuse *out when it is not NULL
REUSE = {"EVP_PKEY_keygen", "EVP_PKEY_paramgen", "EVP_PKEY_generate", "EVP_PKEY_fromdata", "EVP_PKEY_get_bn_param", "OSSL_PARAM_get_BN"}
OUTALLOC_STR = {"OSSL_PARAM_get_utf8_string": 1, "OSSL_PARAM_get_octet_string": 1}
# takes ownership of an argument on success
TAKES = {"EVP_PKEY_CTX_set0_rsa_oaep_label": (1,), "ECDSA_SIG_set0": (1, 2)}
UPREF = {"EVP_MD_up_ref": "EVP_MD", "EVP_PKEY_up_ref": "EVP_PKEY"}
# success is exactly 1 (what they return otherwise is a failure)
ONE = set(k for k in OUT if k.startswith(("EVP_", "RAND_", "EC_POINT", "ASN1_OCTET_STRING_set", "OSSL_PARAM_", "PKCS12_verify", "ECDSA_SIG_set0"))) - set(
    "EVP_MD_get_type EVP_MD_get_size EVP_MD_get_block_size EVP_PKEY_get_bits EVP_PKEY_get_id EVP_PKEY_get_size EVP_PKEY_get_base_id OSSL_PARAM_locate OSSL_PARAM_locate_const OSSL_PARAM_construct_BN OSSL_PARAM_construct_end OSSL_PARAM_construct_utf8_string OSSL_PARAM_construct_uint64 EC_POINT_point2oct".split()) | set(OUTALLOC) - {"EVP_PKEY_todata"} | {"EVP_PKEY_todata"}


def climb(A, site):
    """The first frame outside the allocation wrappers."""
    F, line, c = site.F, site.line, site.ctx
    while F.file.endswith("/memory.c") and c is not None and c >= 0:
        p, fn, ln = _ctxinfo[c]
        if p is None or p < 0: break
        line = ln
        F = A.p.fns[_ctxinfo[p][1]]
        c = p
    return Site(A, F, line, c, site.ins)


def where(A, site):
    s = climb(A, site)
    return s.loc(), s.F.name


def new_res(A, st, name, kind, site, size=None, extra=None):
    v = A.fresh(st, "alloc", name, site, extra=extra)
    st.rg[v] = ((1, (1 << 64) - 1),)
    st.mem.pop(deref(v), None); st.ver.pop(deref(v), None)
    st.dflt[deref(v)] = ((0, 1 << 40, "undef"),)
    st.mon[("res", v)] = (kind, "live") + where(A, site) + (1,)
    if size is not None: st.mon[("size", v)] = size
    for h in A.hooks["alloc"]: h(A, st, v, kind, size, site)
    return v


def m_alloc(A, st, name, args, site, w):
    size = args[SIZEARG[name]] if name in SIZEARG else None
    if name == "EC_POINT_new" and args[0] is NULL: return [(st, NULL)]
    s0 = st.copy()
    v = new_res(A, st, name, ALLOC[name], site, size)
    if name == "CRYPTO_zalloc": st.dflt[deref(v)] = ((0, 1 << 40, "zero"),)
    if name not in SIZEARG:
        st.dflt.pop(deref(v))
    if name in ("d2i_PUBKEY", "d2i_PrivateKey", "d2i_PKCS8_PRIV_KEY_INFO", "d2i_ECDSA_SIG"):
        for s in (st, s0):
            for i in (0, 1):
                if i < len(args) and args[i].op == "ptr" and args[i].a[0].kind == "stack":
                    if i == 1 and not isc(args[1]): A.havoc_range(s, args[1], C(8), (site, "d2i"))
    return [(s0, NULL), (st, v)]


def m_realloc(A, st, name, args, site, w):
    s0 = st.copy()
    old = args[0]
    v = new_res(A, st, name, "mem", site, args[1])
    if not isc(old) and ("res", old) in st.mon:
        # contents survive
        o = deref(old); n = deref(v)
        if o in st.mem: st.mem[n] = st.mem.pop(o)
        if o in st.dflt: st.dflt[n] = st.dflt[o]
        if o in st.ver: st.ver[n] = st.ver[o]
        for h in A.hooks["call"]:
            pass
        do_free(A, st, old, "mem", site, name)
    elif not isc(old):
        st.dflt.pop(deref(v))
    return [(s0, NULL), (st, v)]


def do_free(A, st, p, kind, site, name):
    for m in A.monitors:
        if hasattr(m, "on_free"): m.on_free(A, st, p, kind, site, name)
    if isc(p): return
    r = st.mon.get(("res", p))
    if r is not None:
        if r[4] > 1: st.mon[("res", p)] = r[:4] + (r[4] - 1,)
        else:
            st.mon[("res", p)] = (r[0], "freed") + where(A, site) + (0,)
            for k in [k for k, o in st.mon.items() if isinstance(k, tuple) and k[0] == "given" and o is p]:
                del st.mon[k]; st.mon[("res", k[1])] = st.mon[("res", k[1])][:1] + ("freed",) + where(A, site) + (0,)
    elif p.op in ("ld", "sym"):
        st.mon[("res", p)] = (kind, "freed") + where(A, site) + (0,)


def m_free(A, st, name, args, site, w):
    p = args[0]
    t = truth(st, mkicmp("eq", p, NULL)) if not isc(p) else (p is NULL)
    if t is True: return [(st, None)]
    outs = []
    if t is None and ("res", p) not in st.mon:
        pass
    do_free(A, st, p, FREE[name], site, name)
    return [(st, None)]


def m_memset(A, st, name, args, site, w):
    p, c, n = args[0], args[1], args[2]
    for m in A.monitors:
        if hasattr(m, "on_memset"): m.on_memset(A, st, p, c, n, site, name)
    if isc(c) and (c.a[0] & 0xff) == 0: A.setregion(st, p, n, "zero", site)
    else: A.havoc_range(st, p, n, (site, "memset"))
    return [(st, p if w == 64 else None)]


def m_memcpy(A, st, name, args, site, w):
    A.memcpy(st, args[0], args[1], args[2], site)
    return [(st, args[0])]


def bytes_of(A, st, p, n):
    o, off = as_ptr(p)
    return (o, off if isinstance(off, V) else off, st.ver.get(o))


def m_memcmp(A, st, name, args, site, w):
    # an expression over the two buffers, so that the same comparison has the same answer
    a, b, n = args[0], args[1], args[2]
    v = A.fresh(st, "call", name, site, w=32)
    st.mon[("cmp", v)] = (a, b, n, name)
    return [(st, v)]


def m_strncmp(A, st, name, args, site, w):
    return m_memcmp(A, st, name, (args + [NULL, NULL, NULL])[:3], site, w)


BOOL = re.compile(r"EC_POINT_|OSSL_PARAM_|ECDSA_SIG_|EVP_(Encrypt|Decrypt|Cipher)|EVP_Digest(?!Verify)|EVP_MD_CTX_copy|EVP_CIPHER_CTX_(?!ctrl)|EVP_MAC_|EVP_PKEY_(fromdata_init|get_|todata)|ASN1_|PKCS12_verify")


def fails(name):
    """What a function whose success is 1 returns when it fails."""
    return ((0, 0),) if BOOL.match(name) else ((0, 0), (1 << 31, (1 << 32) - 1))


def m_outalloc(A, st, name, args, site, w):
    i, kind = OUTALLOC[name]
    s0 = st.copy()
    r = A.fresh(s0, "call", name, site, w=32)
    constrain(s0, r, fails(name))
    fail_mark(A, s0, name, r, site)
    if name in REUSE and not isc(args[i]):
        old = A.load(st, args[i], 8)
        if truth(st, mkicmp("eq", old, NULL)) is False: return [(s0, r), (st, C(1, 32))]
        if truth(st, mkicmp("eq", old, NULL)) is None and old.op != "sym":
            pass
    v = new_res(A, st, name, kind, site, extra="o")
    st.dflt.pop(deref(v))
    if not isc(args[i]): A.store(st, args[i], v, 8)
    return [(s0, r), (st, C(1, 32))]


def m_outstr(A, st, name, args, site, w):
    i = OUTALLOC_STR[name]
    s0 = st.copy()
    fail_mark(A, s0, name, FALSE, site)
    p = args[i]
    old = A.load(st, p, 8) if not isc(p) else NULL
    if truth(st, mkicmp("eq", old, NULL)) is not False and not isc(p):
        v = new_res(A, st, name, "ossl", site, extra="o")
        st.dflt.pop(deref(v))
        A.store(st, p, v, 8)
    elif not isc(p):
        A.havoc(st, old, (site, "outstr"))
    if name == "OSSL_PARAM_get_octet_string" and not isc(args[3]): A.havoc_range(st, args[3], C(8), (site, "outstr"))
    return [(s0, C(0, 32)), (st, C(1, 32))]


def fail_mark(A, st, name, r, site):
    for m in A.monitors:
        if hasattr(m, "on_extfail"): m.on_extfail(A, st, name, r, site)


def m_out(A, st, name, args, site, w):
    spec = OUT[name]
    for i, n in spec.items():
        if i < len(args) and not isc(args[i]):
            if n is None:
                if args[i].op == "ptr" and isinstance(args[i].a[1], int) and args[i].a[1] > 0:
                    A.havoc_range(st, args[i], None, (site, "out", i))
                else: A.havoc(st, args[i], (site, "out", i))
            elif isinstance(n, int): A.havoc_range(st, args[i], C(n), (site, "out", i))
            else: A.havoc_range(st, args[i], args[n[1]], (site, "out", i))
    if w == 0 or name.startswith("OSSL_PARAM_construct"): return [(st, None)]
    rv = A.fresh(st, "call", name, site, w=w)
    if name in ("EVP_DigestSignInit", "EVP_DigestVerifyInit") and not isc(args[1]):
        # a context that belongs to the digest context
        x = A.fresh(st, "call", name + ".pctx", site, w=64)
        constrain(st, x, ((1, (1 << 64) - 1),))
        A.store(st, args[1], x, 8)
    if name in ONE and w == 32: constrain(st, rv, ((0, 1),) + fails(name)[1:])
    if name in TAKES:
        s0 = st.copy()
        constrain(s0, rv, fails(name))
        constrain(st, rv, ((1, 1),))
        for i in TAKES[name]:
            x = st.mon.get(("res", args[i]))
            if x is not None and x[1] == "live":
                # from now on the taker's, and released with it
                st.mon[("res", args[i])] = (x[0], "stored") + where(A, site) + (0,)
                st.mon[("given", args[i])] = args[0]
        return [(s0, rv), (st, rv)]
    if name in ("strlen", "strnlen") and False: pass
    return [(st, rv)]


def m_constptr(A, st, name, args, site, w):
    v = sym("const", name)
    st.rg[v] = ((1, (1 << 64) - 1),)
    return [(st, v)]


def m_upref(A, st, name, args, site, w):
    s0 = st.copy()
    r = st.mon.get(("res", args[0]))
    if r is not None and r[1] == "live": st.mon[("res", args[0])] = r[:4] + (r[4] + 1,)
    elif not isc(args[0]): st.mon[("res", args[0])] = (UPREF[name], "live", site.loc(), site.F.name, 1)
    return [(s0, C(0, 32)), (st, C(1, 32))]


def m_mutex(A, st, name, args, site, w):
    rv = C(0, 32)
    s0 = st.copy()
    fr = A.fresh(s0, "call", name, site, w=32)
    constrain(s0, fr, compl(((0, 0),), 32))
    s0.mon[("nolock",)] = True
    for m in A.monitors:
        if hasattr(m, "on_mutex"): m.on_mutex(A, st, name, args[0], site)
    return [(st, rv)] if name == "pthread_mutex_unlock" or name == "pthread_mutex_destroy" else [(s0, fr), (st, rv)]


def m_overflow(A, st, name, args, site, w):
    a, b = args[0], args[1]
    s = mkbin(st, "add", a, b, a.w)
    # overflow flag: sum < a
    o = mkicmp("ult", s, a)
    return [(st, mk("ovf", s, o))]


def m_once(A, st, name, args, site, w):
    return [(st, C(0, 32))]


def m_biopush(A, st, name, args, site, w):
    # the chain is freed through the head
    for x in args[1:2]:
        st.mon.pop(("res", x), None)
    return [(st, args[0])]


def m_log(A, st, name, args, site, w):
    return [(st, None)]


MODELS = {}
for n in ALLOC: MODELS[n] = m_alloc
for n in FREE: MODELS[n] = m_free
for n in OUT: MODELS[n] = m_out
for n in OUTALLOC: MODELS[n] = m_outalloc
for n in OUTALLOC_STR: MODELS[n] = m_outstr
for n in CONSTPTR: MODELS[n] = m_constptr
for n in UPREF: MODELS[n] = m_upref
for n in ("pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_init", "pthread_mutex_destroy"): MODELS[n] = m_mutex
MODELS.update({"realloc": m_realloc, "memset": m_memset, "memory_memset_unoptimizable": m_memset, "OPENSSL_cleanse": m_memset_c if False else m_memset,
               "memcpy": m_memcpy, "memmove": m_memcpy, "memcmp": m_memcmp, "memory_memcmp_constant": m_memcmp, "CRYPTO_memcmp": m_memcmp,
               "strncmp": m_strncmp, "strcmp": m_strncmp, "uadd": m_overflow, "pthread_once": m_once, "BIO_push": m_biopush, "log_entry": m_log, "stacksave": m_nop, "stackrestore": m_nop, "va_start": m_nop, "va_end": m_nop})
MODELS.pop("memory_memset_unoptimizable")
MODELS["memory_memset_unoptimizable"] = m_memset


def m_cleanse(A, st, name, args, site, w):
    return m_memset(A, st, name, [args[0], C(0, 8), args[1]], site, w)


MODELS["OPENSSL_cleanse"] = m_cleanse
MODELS["explicit_bzero"] = m_cleanse
