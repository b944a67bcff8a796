#!/usr/bin/env python3
"""check.py <property> [--thorough] [--replay FILE] [--only SPACE-REGEX]

Builds what the property's explorers need from /repo's working tree, runs them,
writes evidence/<property>.json, prints KNOWN-FINDING / VIOLATION lines."""
import json, os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "mc"))
import build as B
from checks import CHECKS

KNOWN = os.path.join(HERE, "known_findings.txt")


def load_known(prop):
    """finding: property=<id> key=<regex over 'space/case :: tag'> :: <text>"""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.rstrip("\n")
            if line.startswith("finding: property=%s " % prop):
                rest = line.split(" key=", 1)[1]
                key, text = rest.split(" ::: ", 1)
                out.append((text, key))
    return out


def main():
    a = sys.argv[1:]
    prop = a[0]
    thorough = "--thorough" in a or os.environ.get("VERIF_TIER") == "thorough"
    replay = a[a.index("--replay") + 1] if "--replay" in a else None
    only = a[a.index("--only") + 1] if "--only" in a else None
    C = CHECKS[prop]
    t0 = time.time()
    known = load_known(prop)
    if replay:
        R = json.load(open(replay))
    total = dict(states=0, transitions=0, traces=0, evaluations=0, trivial=0, checks=0)
    spaces, counters, viols, unconf, hits = [], {}, [], [], {}
    exhaustive = True
    errors = []
    scratch = tempfile.mkdtemp(prefix="adolc-mc-%s-" % prop)
    try:
        for ri, run in enumerate(C["runs"]):
            if run.get("tier") == "thorough" and not thorough:
                continue
            if replay and R["run"] != ri:
                continue
            src = [os.path.join(HERE, "mc", s) for s in run["src"]]
            flavour = run.get("flavour", "asan")
            exe = B.build(src, flavour=flavour, cif=run.get("cif", False),
                          extra_flags=run.get("flags", ()), libs=run.get("libs", ()), edits=run.get("edits"))
            env = dict(os.environ)
            env["ASAN_OPTIONS"] = ("detect_leaks=0:max_malloc_fill_size=268435456:malloc_fill_byte=255:"
                                   "allocator_may_return_null=1:detect_stack_use_after_return=0:"
                                   "abort_on_error=0:exitcode=99:quarantine_size_mb=16:handle_abort=0:" + run.get("asan", ""))
            env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66"
            env["OMP_NUM_THREADS"] = "1"
            env["LC_ALL"] = "C"
            env.update(run.get("env", {}))
            d = os.path.join(scratch, "r%d" % ri)
            os.makedirs(d)
            kf = os.path.join(d, "known.txt")
            with open(kf, "w") as f:
                for t, k in known:
                    f.write(t + "\t" + k + "\n")
            out = os.path.join(d, "result.json")
            cmd = [exe, "--known", kf, "--out", out] + run.get("args", [])
            cmd += ["--workers", str(run.get("workers", os.cpu_count() or 8))]
            cmd += ["--deadline", str(run.get("deadline", 3600 if thorough else 400))]
            if thorough:
                cmd.append("--thorough")
            if only:
                cmd += ["--only", only]
            if replay:
                cmd += ["--replay", str(R["space"]), str(R["from"]), str(R["idx"])]
                if R.get("tier") == "thorough" and not thorough:
                    cmd.append("--thorough")
                r = subprocess.run(cmd, cwd=d, env=env)
                print("VIOLATION property=%s replay=%s" % (prop, replay) if r.returncode == 1 else "no violation on replay")
                return r.returncode
            r = subprocess.run(cmd, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               errors="replace")
            if r.returncode != 0 or not os.path.exists(out):
                errors.append("explorer %s ended with %s: %s" % (run["src"][0], r.returncode, r.stdout[-3000:]))
                continue
            J = json.load(open(out))
            for k in total:
                total[k] += J[k]
            exhaustive = exhaustive and J["exhaustive"]
            for k, v in J["counters"].items():
                counters[k] = counters.get(k, 0) + v
            spaces += J["spaces"]
            unconf += J["unconfirmed"]
            for k in J["known"]:
                hits[k["label"]] = hits.get(k["label"], 0) + k["hits"]
            for v in J["violations"]:
                v["run"] = ri
                viols.append(v)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if errors:
        print("\n".join(errors))
        return 2
    out = os.environ.get("VERIF_OUT", HERE)  # development: keep evidence and replays elsewhere
    rdir = os.path.join(out, "replays")
    lines = []
    for i, v in enumerate(viols):
        os.makedirs(rdir, exist_ok=True)
        p = os.path.join(rdir, "%s-%d.json" % (prop, i))
        v["property"] = prop
        v["tier"] = "thorough" if thorough else "quick"
        v["how"] = "python3 check.py %s --replay %s" % (prop, p)
        with open(p, "w") as f:
            json.dump(v, f, indent=1)
        lines.append("VIOLATION property=%s replay=%s" % (prop, p))
        print("  [%s] %s" % (v["key"], v["msg"]))
    level = C.get("level", "model_checking")
    cov = dict(states=total["states"], transitions=total["transitions"],
               traces_validated_against_impl=total["traces"],
               evaluations=total["evaluations"],
               distinct_nontrivial=total["evaluations"] - total["trivial"],
               comparisons=total["checks"],
               rule="; ".join("%s: %s" % (s["name"], s["rule"]) for s in spaces),
               samples=[s["name"] + "/" + x for s in spaces for x in s["samples"]][:24],
               exhaustive=bool(exhaustive),
               spaces={s["name"]: s["cases"] for s in spaces})
    if counters:
        cov["counters"] = counters
    if unconf:
        cov["unreproduced_observations"] = unconf
    if C.get("explanation"):
        cov["explanation"] = C["explanation"]
    ev = dict(property=prop, tier="thorough" if thorough else "quick",
              seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=level, coverage=cov,
              assumptions=C.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(viols))
    os.makedirs(os.path.join(out, "evidence"), exist_ok=True)
    with open(os.path.join(out, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for t, k in known:
        # a recorded finding is announced whether or not this tier's bounds reach it
        print("KNOWN-FINDING: property=%s %s (%d cases this run)" % (prop, t, hits.get(t, 0)))
    print("%s %s: %d cases, %d states, %d transitions, %d traces on the implementation, exhaustive=%s, %.1fs%s" % (
        prop, ev["tier"], total["evaluations"], total["states"], total["transitions"], total["traces"], exhaustive,
        ev["wall_s"], "" if not counters else " " + json.dumps(counters)))
    if unconf:
        print("note: %d observations did not reproduce and are listed in the evidence" % len(unconf))
    for l in lines:
        print(l)
    return 1 if viols else 0


if __name__ == "__main__":
    sys.exit(main())
