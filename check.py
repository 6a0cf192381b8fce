#!/usr/bin/env python3
"""check.py ID: builds the simulator against /repo's working tree, runs the property's scenarios over
many seeds, writes evidence/ID.json and prints a VIOLATION line per violation (exit 1).

check.py --replay FILE [--trace]: replays a replay file.    check.py --build: builds only.
Environment: VERIF_SEED (default 1), VERIF_TIER (quick|thorough), SIM_WORKERS, SIM_SCALE."""
import json, os, re, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS  # noqa: E402

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
WORKERS = int(os.environ.get("SIM_WORKERS", "0")) or min(16, os.cpu_count() or 8)
SCALE = float(os.environ.get("SIM_SCALE", "1"))
EV = os.path.join(HERE, "evidence")
REPLAYS = os.path.join(HERE, "replays")
TARGET = os.environ.get("SIM_TARGET", os.path.join(HERE, "sim", "target"))


def die(msg):
    print("ERROR: " + msg, file=sys.stderr)
    sys.exit(2)


def cargo(profiles, options=()):
    """Builds; the output of the first failing build."""
    ps = [(p, subprocess.Popen([os.path.join(HERE, "sim", "build.sh"), p, *options], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)) for p in profiles]
    outs = [(p, proc.communicate()[0], proc.returncode) for p, proc in ps]
    return next((o for p, o, rc in outs if rc != 0), None)


def build(profiles=("debug", "release")):
    """Builds the simulator. If it is (only) the derived requests or the example programs that do not
    compile, leaves them out, and returns which, and what the compiler says about them."""
    # Again, if it fails: the compiler may have been short of memory.
    out = cargo(profiles) and cargo(profiles)
    if out is None:
        return {}
    for left in ["derived"], ["examples"], ["derived", "examples"]:
        rest = [f for f in ("derived", "examples") if f not in left]
        if cargo(profiles, ["--no-default-features", "--features", ",".join(rest)]) is None:
            return {f: out for f in left}
    print(out[-6000:], file=sys.stderr)
    die("building the simulator against /repo failed")


def build_nodes(again=True):
    """Builds the nodes of C13; what a failing build says."""
    ps = [subprocess.Popen([os.path.join(HERE, "sim", "cfgnodes.sh"), p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
          for p in ("debug", "release")]
    outs = [(p.communicate()[0], p.returncode) for p in ps]
    out = next((o for o, rc in outs if rc != 0), None)
    return build_nodes(False) if out and again else out


def nodes_broken(out):
    """The violation that a configuration does not build."""
    replay = os.path.join(REPLAYS, "C13-build.json")
    v = {"class": "configuration-does-not-build", "message": out[-2500:].strip(), "replay": replay, "replay_cmd": [sys.executable, "check.py", "--nodes"]}
    with open(replay, "w") as f:
        json.dump(v, f, indent=1)
    return v


def derive_broken(out):
    """The violation that valid derived requests do not compile."""
    m = re.search(r"^error(?!: could not compile).*?(?=^\S|\Z)", out, re.M | re.S)
    replay = os.path.join(REPLAYS, "C16-derive.json")
    v = {"class": "derive-does-not-compile", "message": "valid structs with the derived request do not compile: " + (m.group(0) if m else out[-1500:]).strip(),
         "replay": replay, "replay_cmd": [sys.executable, "check.py", "--derive"]}
    with open(replay, "w") as f:
        json.dump(v, f, indent=1)
    return v


def binary(profile):
    return os.path.join(TARGET, profile, "sim")


def known():
    ks = []
    with open(os.path.join(HERE, "known_findings.txt")) as f:
        for line in f:
            m = re.match(r"known: property=(\S+) class=(\S+) match=(.*?) -- (.*)$", line.strip())
            if m:
                ks.append(m.groups())
    return ks


def set_known(prop):
    """Tells the simulator which findings do not end a run."""
    os.environ["SIM_KNOWN"] = ",".join(k[1] for k in known() if k[0] == prop)


def scenarios(prop):
    out = subprocess.run([binary("release"), "list"], capture_output=True, text=True, check=True).stdout
    rows = [l.split() for l in out.splitlines()]
    return [(r[1], int(r[2]), int(r[3])) for r in rows if r[0] == prop]


def run_scenario(name, profile, runs, max_secs, tmp):
    procs = []
    for w in range(WORKERS):
        out = os.path.join(tmp, "%s-%s-%d.json" % (name, profile, w))
        # The profiles explore different seeds.
        base = SEED if profile == "debug" else SEED + 1_000_003
        err = open(out + ".err", "w")
        procs.append((out, err, subprocess.Popen(
            [binary(profile), "worker", "--scenario", name, "--seed", str(base), "--worker", str(w),
             "--workers", str(WORKERS), "--runs", str(runs), "--max-secs", str(max_secs), "--out", out,
             "--replay-dir", REPLAYS], stdout=err, stderr=err)))
    res = []
    for out, err, p in procs:
        p.wait()
        err.close()
        if p.returncode != 0 or not os.path.exists(out):
            die("a worker of %s ended with %s: %s" % (name, p.returncode, open(out + ".err").read()[-2000:]))
        with open(out) as f:
            res.append(json.load(f))
        os.unlink(out)
        os.unlink(out + ".err")
    return res


def sample(name, profile, index):
    out = subprocess.run([binary(profile), "one", "--scenario", name, "--seed", str(SEED), "--index", str(index)],
                         capture_output=True, text=True).stdout
    lines = [l[:400] for l in out.splitlines()]
    return {"scenario": name, "base_seed": SEED, "run_index": index, "history": lines[:14] + (["..."] if len(lines) > 14 else [])}


def check(prop):
    t0 = time.time()
    meta = PROPS[prop]
    set_known(prop)
    os.makedirs(EV, exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    for f in os.listdir(REPLAYS):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(REPLAYS, f))
    extra_violations, extra_cov = [], {}
    broken = build()
    t_built = time.time()
    tmp = os.path.join(EV, ".tmp-" + prop)
    os.makedirs(tmp, exist_ok=True)
    scs = scenarios(prop)
    for f in broken:
        print("does not compile: " + f, file=sys.stderr)
    if "examples" in broken and prop == "C15":
        print(broken["examples"][-3000:], file=sys.stderr)
        die("the example programs do not compile")
    if "derived" in broken:
        if prop == "C16":
            v = derive_broken(broken["derived"])
            print(v["message"])
            print("VIOLATION property=C16 replay=" + v["replay"])
            return 1
    if prop == "C13":
        out = build_nodes()
        if out:
            v = nodes_broken(out)
            print(v["message"])
            print("VIOLATION property=C13 replay=" + v["replay"])
            return 1
        t_built = time.time()
    if not scs and "extra" not in meta:
        die("no scenario for " + prop)
    budget = 300.0 if TIER == "quick" else 3600.0 * 6
    results = []
    for name, quick, thorough in scs:
        n = int((quick if TIER == "quick" else thorough) * SCALE)
        for profile, share in (("debug", 0.4), ("release", 0.6)):
            results.append((name, profile, run_scenario(name, profile, max(WORKERS, int(n * share)),
                                                        budget / len(scs) * share, tmp)))
    if "extra" in meta:
        extra_violations, extra_cov = meta["extra"](TIER, SEED, REPLAYS, WORKERS, SCALE)
    try:
        os.rmdir(tmp)
    except OSError:
        pass
    sim_wall = time.time() - t_built

    tot = dict(runs=0, evals=0, sim_ns=0, events=0, recheck=0, mismatch=0)
    probes, hist, states, edges, scheds, per = {}, set(), set(), set(), 0, {}
    violations = []
    for name, profile, res in results:
        for r in res:
            tot["runs"] += r["runs"]
            tot["evals"] += r["evals"]
            tot["sim_ns"] += int(r["sim_ns"])
            tot["events"] += r["events"]
            tot["recheck"] += r["determinism_rechecked"]
            tot["mismatch"] += r["determinism_mismatches"]
            scheds += r["distinct_schedules"]
            for k, v in r["probes"].items():
                probes[k] = probes.get(k, 0) + v
            hist.update(r["history_hashes"])
            states.update(r["state_hashes"])
            if profile == "debug":
                edges.update(r["edges"])
            p = per.setdefault(name, {"runs": 0, "oracle_evaluations": 0})
            p["runs"] += r["runs"]
            p["oracle_evaluations"] += r["evals"]
            for v in r["violations"]:
                violations.append((name, profile, v))
    violations += [("extra", "", v) for v in extra_violations]
    if tot["mismatch"] and not violations:
        die("%d of %d re-executed runs were not reproduced: the simulation is not deterministic" % (tot["mismatch"], tot["recheck"]))

    ks, seen, bad = known(), set(), []
    for kp, kc, _, kd in ks:
        if kp == prop and probes.get("known." + kc):
            seen.add(kd)
            print("KNOWN-FINDING: property=%s %s" % (prop, kd))
    for name, profile, v in violations:
        for (kp, kc, km, kd) in ks:
            if kp == prop and kc == v["class"] and re.search(km, v["message"]):
                if kd not in seen:
                    seen.add(kd)
                    print("KNOWN-FINDING: property=%s %s" % (prop, kd))
                break
        else:
            bad.append(v)
    # One report per kind of violation.
    uniq = {}
    for v in bad:
        uniq.setdefault(v["class"], v)

    evals = tot["evals"] + extra_cov.get("evaluations", 0)
    faults = {k[6:]: v for k, v in probes.items() if k.startswith("fault.")}
    cov = {
        "evaluations": evals,
        "distinct_nontrivial": len(hist) + extra_cov.get("distinct_nontrivial", 0),
        "rule": meta["rule"],
        "samples": [sample(scs[0][0], "debug", 0), sample(scs[-1][0], "release", 1)] if scs else extra_cov.get("samples", []),
        "simulated_runs": tot["runs"],
        "seeds_per_hour": int(tot["runs"] / max(sim_wall, 1e-9) * 3600),
        "simulated_seconds": round(tot["sim_ns"] / 1e9, 3),
        "logged_events": tot["events"],
        "faults_injected": faults,
        "fault_kinds": len(faults),
        "distinct_schedule_and_fault_sequences": scheds,
        "distinct_histories": len(hist),
        "distinct_states": {"count": len(states), "measure": meta.get("state_measure", "hash of the operation's shape")},
        "instrumented_edges_reached": len(edges),
        "probes": {k: v for k, v in sorted(probes.items()) if not k.startswith("fault.")},
        "per_scenario": per,
        "determinism": {"runs_re_executed": tot["recheck"], "mismatches": tot["mismatch"]},
        "real_code": meta.get("real", ["oauth1-request (all features)", "oauth1-request-derive", "oauth-credentials", "rand, getrandom, sha1, hmac, rsa, base64, percent-encoding, fmt-cmp, either, serde"]),
        "stubs": meta.get("stubs", ["kernel clock and entropy (interposed libc symbols)", "network and servers (discrete-event simulation)", "thread scheduling (seeded baton)", "caller-supplied Display/AsRef/Iterator/Write values"]),
        "workers": WORKERS,
        "build_s": round(t_built - t0, 1),
    }
    cov.update({k: v for k, v in extra_cov.items() if k not in ("evaluations", "distinct_nontrivial", "samples")})
    ev = {
        "property": prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": "exploration",
        "coverage": cov, "assumptions": meta["assumptions"], "wall_s": round(time.time() - t0, 2),
        "violations": len(uniq),
    }
    path = os.path.join(EV, prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)
    for c, v in uniq.items():
        print("%s: %s" % (c, v["message"][:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
    if not uniq:
        print("%s: held in %d runs (%d evaluations, %d distinct histories) in %.0f s" % (prop, tot["runs"], evals, cov["distinct_nontrivial"], time.time() - t0))
    return 1 if uniq else 0


def main():
    if len(sys.argv) < 2:
        die(__doc__)
    if sys.argv[1] == "--build":
        build()
        build_nodes()
        return 0
    if sys.argv[1] == "--nodes":
        out = build_nodes()
        print(out[-3000:] if out else "every configuration builds")
        return 1 if out else 0
    if sys.argv[1] == "--derive":
        out = build(("release",)).get("derived")
        print(out[:3000] if out else "the derived requests compile")
        return 1 if out else 0
    if sys.argv[1] == "--replay":
        with open(sys.argv[2]) as f:
            v = json.load(f)
        if "replay_cmd" in v:
            return subprocess.run(v["replay_cmd"], cwd=HERE).returncode
        build((v["profile"],))
        set_known(v.get("property"))
        if v.get("property") == "C13":
            build_nodes()
        return subprocess.run([binary(v["profile"]), "replay", sys.argv[2]]).returncode
    return check(sys.argv[1])


sys.exit(main())
