"""The command dispatcher: each handler with the ta_sa_* commands it calls summarised (they are analysed on their own)."""
from driver import Job, NoAnswer, ta_entries
from core import *
import contracts, models


def handlers(P):
    """The functions of the command dispatcher, one for each command."""
    d = P.fns.get("ta_invoke_command_handler")
    hs = sorted({i[3][1] for b in d.blocks for i in b if i[1] == "call" and i[3][0] == "f" and "params" in getattr(P.fns.get(i[3][1]), "argnames", ())}) if d is not None else []
    if len(hs) < 25: raise NoAnswer("only %d command handlers found" % len(hs))
    return hs


def command(F):
    """A command: it fails, or it succeeds; it has written what its pointers refer to."""
    def m(A, st, name, args, site, w):
        for i, a in enumerate(args):
            t = F.ditypes[i + 1]
            if "*" not in t or t.startswith("const ") or isc(a) or t == "sa_sample*": continue
            if a.op in ("ptr", "sym", "ld"):
                if t in ("size_t*", "sa_key*", "sa_svp_buffer*", "sa_crypto_cipher_context*", "sa_crypto_mac_context*", "ta_client*"): A.havoc_range(st, a, C(8), (site, "out", i))
                else: A.havoc(st, a, (site, "out", i))
        if F.ditypes[0] != "sa_status": return [(st, A.fresh(st, "call", name, site, w=w) if w else None)]
        s0 = st.copy()
        return [(s0, contracts.fail(A, s0, name, site)), (st, C(0, 32))]
    return m


def passed(A, st):
    """What the dispatcher itself passes is there; what the parameters refer to may not be."""
    for a in A.args:
        if a.w == 64: constrain(st, a, ((1, (1 << 64) - 1),))


def jobs(P, mon, only=None):
    base = dict(models.MODELS); base.update({n: command(P.fns[n]) for n in ta_entries(P)})
    js = [Job("ta", n, mon, models=base, pre=passed, tag="handler") for n in handlers(P)]
    top = dict(base); top.update({n: command(P.fns[n]) for n in handlers(P)})
    js.append(Job("ta", "ta_invoke_command_handler", mon, models=top, tag="handler"))
    js.append(Job("ta", "ta_open_session_handler", mon, models=base, tag="handler"))
    js.append(Job("ta", "ta_close_session_handler", mon, models=base, pre=passed, tag="handler"))
    return js


class Identity:
    """Commands run for the session's client and the caller that the transport has authenticated."""
    def __init__(self):
        self.sites = set()

    def coverage(self):
        return {"identities_checked": self.sites}

    def src(self, A, st, v, name):
        """v is what the entry got as its argument of this name."""
        n = A.entry.argnames
        return name in n and v is A.args[n.index(name)]

    def on_call(self, A, st, name, args, site):
        F = A.p.fns.get(name)
        if F is None or F.blocks is None or F.name == A.entry.name: return
        n = F.argnames
        for x in ("caller_uuid", "uuid"):
            if x in n and F.ditypes[n.index(x) + 1].startswith("const sa_uuid"):
                v = args[n.index(x)]
                self.sites.add(site.loc())
                ok = self.src(A, st, v, "uuid") or not isc(v) and ("auth", v) in st.mon
                if not ok: A.report("not-the-caller", models.climb(A, site), "%s is given an identity that is not the one the transport has authenticated" % name)
        for x in ("client_slot", "context"):
            if x not in n or not (x == "client_slot" and F.ditypes[n.index(x) + 1] == "ta_client" or "ta_session_context" in F.ditypes[n.index(x) + 1]): continue
            v = args[n.index(x)]
            self.sites.add(site.loc())
            if x == "client_slot":
                b = v.a[0].base if v.op == "ld" and v.a[0].kind == "deref" and v.a[1] == 0 else None
                ok = b is not None and (self.src(A, st, b, "context") or self.src(A, st, b, "session_context"))
            else: ok = self.src(A, st, v, "session_context")
            if not ok: A.report("not-the-session", models.climb(A, site), "%s is not given the client of the session" % name)

    def touched(self, st, p):
        o = as_ptr(p)[0] if not isc(p) else None
        for k in [k for k in st.mon if isinstance(k, tuple) and k[0] == "auth" and as_ptr(k[1])[0] is o]: del st.mon[k]

    def on_store(self, A, st, p, v, w, site): self.touched(st, p)
    def on_memcpy(self, A, st, d, s, n, site): self.touched(st, d)
    def on_memset(self, A, st, p, c, n, site, name): self.touched(st, p)


def m_auth(A, st, name, args, site, w):
    s0 = st.copy()
    A.havoc(st, args[0], (site, "out", 0))
    st.mon[("auth", args[0])] = True
    return [(s0, contracts.fail(A, s0, name, site)), (st, C(0, 32))]


def identity_jobs(P):
    js = jobs(P, lambda: [Identity()])
    for j in js: j.models = dict(j.models, transport_authenticate_caller=m_auth); j.tag = "identity"
    return js
