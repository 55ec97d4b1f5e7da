#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "reference/src/taimpl/src/"
I = T + "internal/"
P = T + "porting/"
props = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, state=(), observe=()):
    props.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, na=na, state=state, observe=observe))


NOTE = "Decided by a path-sensitive abstract interpretation of the LLVM IR that clang makes of /repo's current sources, all callees inlined and every modelled library failure explored; sound for the rule stated up to the assumptions in the evidence file (library models, no aliasing between differently named pointers)."

prop("C01", "Handles are confined to the application that created them",
     "A handle (client, key, cipher context, MAC context, SVP buffer) obtained by one trusted application is never usable, releasable or observable by another: every operation on a handle succeeds only if the caller's identity equals the identity that created the object, the handle is within the store and it names an object of the right kind in the caller's own session. Adding an object records exactly the caller as its owner.",
     ["inputs", "histories", "schedules"], "All sequences of calls, with any handle values, from any set of applications and threads.",
     "Tests use one application identity and handles they created themselves; a wrong owner check in one of the many paths, or a check of the wrong slot or store, shows only with a second identity or an aliasing handle.",
     [I + "object_store.c", I + "client_store.c", I + "key_store.c", I + "cipher_store.c", I + "mac_store.c", I + "svp_store.c", T + "ta_sa_*.c"],
     [("owner comparison before an object is handed out, released or removed", I + "object_store.c: object_store_acquire, object_store_release, store_remove"), ("owner recorded on add", I + "object_store.c: object_store_add"), ("caller identity passed on by every command", T + "ta_sa_*.c")],
     "path-sensitive abstract interpretation: guard facts dominate every slot effect; provenance of the arguments of store calls", NOTE)
prop("C02", "Store references and locks are balanced and shared state is race free",
     "Whatever the interleaving, an object is destroyed only after its last user has released it and never while another thread uses it: every reference and every lock taken by an operation is given back exactly once on every path including every failure, state shared between threads is only touched under its lock, and lazily created global state is created once.",
     ["schedules", "fault_sequences", "histories"], "All interleavings of commands on shared objects, with every failure of a library call, allocation or lock on the way.",
     "The tests are single threaded and hardly inject failures, so a path that keeps a reference or a lock (a later release then hangs for ever), or an unlocked access, goes unnoticed.",
     [I + "object_store.c", I + "client_store.c", I + "cipher_store.c", I + "mac_store.c", I + "svp_store.c", P + "otp.c", "reference/src/clientimpl/src/internal/client.c", "reference/src/util/src/log.c", "reference/src/client/src/sa_provider.c"],
     [("store mutex and reference counts", I + "object_store.c"), ("exclusive acquisition of contexts", I + "cipher_store.c, mac_store.c, svp_store.c"), ("once initialisation of globals", I + "client_store.c, " + P + "otp.c, reference/src/clientimpl/src/internal/client.c")],
     "lockset and typestate analysis by path-sensitive abstract interpretation", NOTE)
prop("C07", "Memory and library objects are owned by exactly one party until released",
     "No sequence of inputs and failures makes an operation release an object twice, use it after its release, dereference a null pointer it obtained from a failed call, lose the last reference to it, or leave a released object reachable from a store. Destroying a handle releases everything the object owned.",
     ["inputs", "fault_sequences"], "Every input to every command and every combination of failures of allocations and library calls on the way.",
     "Every one of the hundreds of failure branches would need its own fault to be injected; the tests inject none, and sanitizers see only the paths that run.",
     [T + "ta_sa_*.c", I + "*.c", P + "*.c", "reference/src/util/src/*.c"],
     [("single exit clean up of every function", T), ("transfer of ownership to the stores", I + "object_store.c: object_store_add"), ("destructors of the stores", I + "key_store.c, cipher_store.c, mac_store.c, svp_store.c, client_store.c")],
     "ownership typestate by path-sensitive abstract interpretation with fault branches", NOTE)

exec(open(os.path.join(V, "tools", "catalogue_more.py")).read()) if os.path.exists(os.path.join(V, "tools", "catalogue_more.py")) else None


def main():
    props.sort(key=lambda p: p["id"])
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in props:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]],
                                            "observe_at": list(p["observe"]) or ["return status and outputs of the commands"], "hook_needed": None}}) + "\n")
    m = {"version": 1, "setup_cmd": "python3 engine/build_ir.py ta ci cl",
         "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"], "evidence_file": "evidence/%s.json" % p["id"],
                     "technique": p["technique"], "level": "other", "level_note": p["note"] or NOTE} for p in props if not p["na"]],
         "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in props if p["na"]],
         "notes": "Static analysis only: no part of the system under test is executed. Exit 2 or 3 of a check means it has no answer (an anchor is gone, or /repo does not compile)."}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)


main()
