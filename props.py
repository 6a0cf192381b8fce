"""What check.py knows about each property; `python3 props.py` writes MANIFEST.json."""
import json, os

_H = "one evaluation = one oracle decision; distinct_nontrivial = number of distinct recorded run histories (hash of the event log: generated operations, fault and scheduling effects, results); a run's history contains at least one call into the library"
_A = ["parameter names are unreserved characters and not protocol parameter names (the library leaves encoding names to the caller)",
      "base URIs are normalised and without query, as documented",
      "the operating system's entropy is modelled as independent pseudo-random streams per node and life"]
_S = "shape of the operation (entry point, signature method, request kind, number of parameters, options)"

PROPS = {
    "C01": {
        "rule": _H, "assumptions": _A + ["the model's RFC 5849 server (sim/model) is right; its primitives are tested against published vectors"],
        "technique": "deterministic simulation: clients and RFC 5849 servers over a faulty simulated network, seeded search",
        "note": "Seeded sampling of inputs, schedules and faults against an independent RFC 5849 server; no exhaustiveness. Trusts sim/model and the interposed clock/entropy seams.",
        "state_measure": _S,
    },
    "C02": {
        "rule": _H, "assumptions": _A + ["a collision of SHA-1, and a forged RSA signature, are taken as impossible", "fields are moved or changed after decoding (the wire syntax itself is the server's business)"],
        "technique": "deterministic simulation: a network adversary alters messages between a client and a server that recomputes signatures with the library",
        "note": "Seeded sampling of alterations; the server recomputes with the library, an independent model double-checks. No exhaustiveness.",
        "state_measure": _S,
    },
    "C03": {
        "rule": _H, "assumptions": _A + ["two equal nonces among the runs' streams are a defect, not chance (at least 2^-40 for the sample sizes used)"],
        "technique": "deterministic simulation: processes, forks, restarts and threads over simulated entropy sources and clocks; collisions searched within and across all runs",
        "note": "Collisions are looked for in every run and across all runs; entropy use is measured by flipping single bits of the simulated source and by starving it. Seeded sampling.",
        "state_measure": _S,
    },
    "C04": {
        "rule": _H, "assumptions": _A,
        "technique": "deterministic simulation: simulated clocks that jump, drift and tick during the call",
        "note": "The set of readings the simulated clock showed during each call is the oracle. Seeded sampling of histories.",
        "state_measure": _S,
    },
    "C05": {
        "rule": _H, "assumptions": _A + ["a value displays the same text every time"],
        "technique": "deterministic simulation: the same operation under a fault-free and a fragmenting caller, compared byte for byte",
        "note": "Differential against the unfragmented run of the same library. Seeded sampling of fragmentations.",
        "state_measure": _S,
    },
    "C06": {
        "rule": _H, "assumptions": _A + ["the model server (sim/model) for the unrelated call afterwards"],
        "technique": "deterministic simulation with fault injection: the n-th write fails, is torn, loses its acknowledgement or panics",
        "note": "Any write of any call may fail; fault points are sampled, not enumerated. Compared with the fault-free run.",
        "state_measure": _S,
    },
    "C07": {
        "rule": _H, "assumptions": _A + ["a Display error while a parameter list is being constructed is out of scope (sorting needs the text)"],
        "technique": "deterministic simulation with fault injection: the n-th callback into caller code fails or panics",
        "note": "Any callback of any call may fail; fault points are sampled, not enumerated. Compared with the fault-free run.",
        "state_measure": _S,
    },
    "C08": {
        "rule": _H, "assumptions": _A + ["preemption happens at instrumented edges, callbacks, locks and system calls; memory is sequentially consistent"],
        "technique": "deterministic simulation: real threads under a seeded cooperative scheduler with edge-level preemption, reentrant callers, failing callers",
        "note": "Seeded sampling of interleavings (preemption at any instrumented edge of the library), compared with the same calls alone. No weak-memory effects.",
        "state_measure": _S,
    },
    "C09": {
        "rule": _H, "assumptions": _A,
        "technique": "deterministic simulation: histories of builders (settings, clones, consuming and failing calls) against a small reference model",
        "note": "Seeded sampling of histories; every message is decoded and verified by the model's server. ",
        "state_measure": _S,
    },
    "C10": {
        "rule": _H, "assumptions": _A + ["a value displays the same text every time", "the calls of a serializer are ordered, as its contract demands"],
        "technique": "deterministic simulation: histories of lists and serializer calls against a reference model, with fragmented and failing values",
        "note": "Seeded sampling of histories and of serializer call sequences.",
        "state_measure": "operation and length of the list; shape of the operation",
    },
    "C11": {
        "rule": _H, "assumptions": _A + ["a piece of 12 characters (at least 7 random ones) of a secret, its percent-encodings, hex, base64 or list of bytes, or 18 digits of a key's integers, does not occur by chance"],
        "technique": "deterministic simulation with fault injection: everything the library outputs, formats or panics with is searched for the secrets of the run, half-way through and after failures",
        "note": "Seeded sampling of operations, half-done states and faults; encodings other than the listed ones (raw, percent, hex, base64, byte and limb lists, decimal, HMAC pads) are not recognised.",
        "state_measure": _S,
    },
    "C12": {
        "rule": _H, "assumptions": ["serde_json, serde_urlencoded and serde's derive are right", "bytes that a stream reports as transferred are right (no bit flips)", "form-encoded text does not say where it ends, so only truncations of JSON are expected to be noticed"],
        "technique": "deterministic simulation with fault injection: stores and responses over streams that deliver short, are interrupted, fail, and lose power between syncs; serde formats whose n-th call fails",
        "note": "Seeded sampling of texts, field sets, encodings, stream and format faults, crash points and thread schedules, against the generated fields.",
        "state_measure": "format, way of decoding, names of the fields",
        "real": ["oauth-credentials", "serde, serde_json, serde_urlencoded"],
        "stubs": ["disk and network streams (simulated Read and Write)", "a serde format of the simulator's (Deserializer, Serializer)", "caller-supplied text types", "thread scheduling (seeded baton)"],
    },
    "C13": {
        "rule": _H, "assumptions": _A + ["the six feature sets stand for the others: features that the signed message could depend on are std, alloc, hmac-sha1, rsa-sha1-*, derive and either"],
        "technique": "deterministic simulation with fault injection: a fleet of nodes built with six feature sets, in debug and release, inside one process; the same calls, full buffers, failing values, clocks and entropy failures",
        "note": "Seeded sampling of calls and faults over twelve builds; each message is also verified by the model's server. How the crates compile is C18's.",
        "state_measure": _S,
        "real": ["oauth1-request and oauth-credentials, built with full, default, alloc, alloc+derive, no-alloc and no features, each in debug and release", "their dependencies"],
        "stubs": ["kernel clock and entropy (interposed libc symbols)", "caller-supplied Display values and buffers"],
    },
    "C14": {
        "rule": _H, "assumptions": _A + ["HTTP methods in these scenarios are unreserved characters, so that the method callback's argument is unambiguous", "how often `use_nonce`, `use_timestamp` and the name are asked for is not part of the protocol"],
        "technique": "deterministic simulation with fault injection: recording signature methods (complete, minimal, inside Either) that read values as they like, ignore them, stop reading and fail",
        "note": "Seeded sampling of operations and faults; the calls are compared with those that the model derives from the operation and the message.",
        "state_measure": _S + ", kind of method, declined parameters",
    },
    "C15": {
        "rule": _H, "assumptions": ["hyper (HTTP/1) is right", "a message with a nonce that was seen before may be authorized (the example does not store nonces, as it says)", "attackers do not know the secrets, but may guess any part of them"],
        "technique": "deterministic simulation with fault injection: the example client and server, over hyper, as tasks of a seeded executor on simulated connections, with crashes of the server, wrong clocks and an attacker",
        "note": "Seeded sampling of values, task schedules, network faults and forged messages; every answer of the server is compared with an independent verdict on the message's meaning. The two `main` functions (sockets, routing) are replaced.",
        "state_measure": "method, path, model's verdict and the server's status",
        "real": ["examples/src/server/handler.rs, authorization.rs, examples/src/client/auth.rs, request.rs", "oauth1-request, oauth1-request-derive, oauth-credentials", "hyper's HTTP/1 server and client, nom, http, hmac, serde_urlencoded"],
        "stubs": ["sockets (simulated byte streams), tokio's runtime (seeded executor and timers)", "the `main` functions of the examples", "kernel clock and entropy (interposed libc symbols)", "the attacker"],
    },
    "C16": {
        "rule": _H, "assumptions": _A + ["the explicit list is right (checked against the model's server in every run)", "two fields of a struct do not have the same name"],
        "technique": "deterministic simulation with fault injection: 88 derived structs over the attributes' combinations against explicit lists, with fragmented, failing, reentrant and shared fields",
        "note": "A fixed family of generated structs (sim/gen/derived.py); values, faults and schedules are sampled. Whether invalid input is rejected is C17.",
        "state_measure": _S + ", struct",
    },
    "C19": {
        "rule": _H, "assumptions": _A + ["memory that grows in each of 6 equal windows of rounds (8 for ever other messages) keeps growing"],
        "technique": "deterministic simulation with fault injection: the same (failing) calls over and over, under an allocator that knows which memory the library holds",
        "note": "Growth is judged over windows of equal rounds after a warm-up, so caches and spare buffers of bounded size are no violation. Seeded sampling of calls and fault points; up to 800 rounds.",
        "state_measure": _S,
    },
}

NOT_APPLICABLE = {
    "C17": "Compile-time diagnostics: a pure function of the source text, with no schedule, clock, I/O or fault to simulate.",
    "C18": "Whether the crates compile in a configuration is a fact about the build, with no execution to simulate (C13 simulates the behaviour of the configurations that can run here).",
}


def manifest():
    checks = [{
        "property": p,
        "quick_cmd": "python3 check.py " + p,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": m["technique"],
        "level": "exploration",
        "level_note": m["note"],
    } for p, m in sorted(PROPS.items())]
    return {
        "version": 1,
        "setup_cmd": "python3 check.py --build",
        "checks": checks,
        "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NOT_APPLICABLE.items())],
        "notes": "No hooks in /repo: the seams are interposed libc symbols (clock, entropy, futex), caller-supplied trait objects, and compiler-inserted edge callbacks. Replay a violation with: python3 check.py --replay FILE",
    }


if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "MANIFEST.json"), "w") as f:
        json.dump(manifest(), f, indent=1)
        f.write("\n")
