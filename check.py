#!/usr/bin/env python3
"""Run one check:  check.py <property id> [quick|thorough]

Builds the harness of the property from the current working tree of Engabra
(/repo, or $ENGABRA_REPO), runs it, writes evidence/<id>.json and says what was
found. Exit 0: holds on everything explored. Exit 1: VIOLATION. Exit 2: the
check itself could not give an answer.

  check.py --replay <replay file>    re-run a recorded violation
"""
import json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("ENGABRA_REPO", "/repo")
sys.path.insert(0, HERE)
import registry


def say(text):
    print(text, flush=True)


def findings():
    """known findings: {property: {key: text}} (fixed entries suppress nothing)"""
    out = {}
    path = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                out.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return out


def build(entry, bdir):
    """compile all harness units in parallel, link; raises on failure"""
    procs = []
    objs = []
    for unit in entry.get("units") or [entry["source"]]:
        src = os.path.join(HERE, "harness", unit) if not unit.startswith("repo:") \
            else os.path.join(REPO, unit[5:])
        obj = os.path.join(bdir, os.path.basename(unit) + ".o")
        flags = entry.get("flags", []) + entry.get("unit_flags", {}).get(unit, [])
        cmd = ["g++", "-std=c++17", "-O1", "-D_GLIBCXX_ASSERTIONS", "-w",
               "-DEngabra_Project_Version=\"0.2.1-as-built-for-the-verification\"",
               "-DEngabra_Source_Identity=\"a-source-identity-that-needs-memory-of-its-own\"",
               "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(HERE, "harness")]
        cmd += flags + ["-c", src, "-o", obj]
        procs.append((cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE,
                                            stderr=subprocess.STDOUT, text=True)))
        objs.append(obj)
    for cmd, p in procs:
        text, _ = p.communicate()
        if p.returncode:
            raise RuntimeError("%s\n%s" % (" ".join(cmd), text[:6000]))
    exe = os.path.join(bdir, "explore")
    cmd = ["g++"] + objs + ["-o", exe] + entry.get("link", [])
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise RuntimeError("%s\n%s" % (" ".join(cmd), (p.stdout + p.stderr)[:6000]))
    return exe


def main():
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        rec = json.load(open(sys.argv[2]))
        entry = registry.CHECKS[rec["property"]]
        if "script" in entry:
            say(rec["message"])
            return subprocess.call([sys.executable, os.path.abspath(__file__),
                                    rec["property"], rec["tier"]])
        bdir = os.path.join(HERE, "build", "replay-" + rec["property"])
        shutil.rmtree(bdir, ignore_errors=True)
        os.makedirs(bdir)
        exe = build(entry, bdir)
        return subprocess.call([exe, "--dir", bdir, "--tier", rec["tier"]] + rec["replay_args"].split())
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    entry = registry.CHECKS[pid]
    t0 = time.time()
    bdir = os.path.join(HERE, "build", "%s-%s" % (pid, tier))
    shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(bdir)
    if "script" in entry:
        import importlib
        mod = importlib.import_module(entry["script"])
        try:
            res = mod.run(REPO, HERE, bdir, tier, seed)
        except mod.CannotAnswer as ex:
            say("ERROR: no answer: %s" % ex)
            return 2
    else:
        try:
            exe = build(entry, bdir)
        except RuntimeError as ex:
            say("ERROR: the harness does not build against the current tree, no answer\n%s" % ex)
            return 2
        tb = time.time() - t0
        p = subprocess.run([exe, "--dir", bdir, "--tier", tier, "--seed", str(seed)],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        text = p.stdout.decode("latin-1")
        try:
            res = json.load(open(os.path.join(bdir, "result.json")))
        except Exception:
            say("ERROR: the explorer left no result (exit %d)\n%s" % (p.returncode, text[:3000]))
            return 2
        res["build_s"] = round(tb, 2)
        if text.strip():
            say(text[:2000])

    listed = findings().get(pid, {})
    unlisted = sorted(k for k in res["known"] if k not in listed)
    status = res["status"]
    message = res["message"]
    if status == 0 and unlisted:
        status = 1
        k = unlisted[0]
        message = "deviation %s is not a listed finding: %s" % (k, res["known"][k]["msg"])
        res["replay_args"] = ""

    cov = {
        "states": res["states"],
        "transitions": res["transitions"],
        "traces_validated_against_impl": res["traces"],
        "samples": res["samples"],
        "distinct_outcomes_seen": res["distinct_outcomes"],
        "exhaustive": status == 0,
        "bound": entry["bound"][tier] if isinstance(entry["bound"], dict) else entry["bound"],
        "counts_mean": entry.get("counts_mean", registry.COUNTS_MEAN),
        "extra_counts": res["info"],
    }
    if res["known"]:
        cov["known_findings_observed"] = {k: v["count"] for k, v in res["known"].items()}
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": entry["level"],
        "coverage": cov,
        "assumptions": entry.get("assumptions", registry.ASSUMPTIONS),
        "wall_s": round(time.time() - t0, 3),
        "violations": 1 if status == 1 else 0,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    path = os.path.join(HERE, "evidence", pid + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)

    for k in sorted(res["known"]):
        if k in listed:
            say("KNOWN-FINDING: property=%s %s (%s)" % (pid, k, listed[k]))
    say("%s %s: %d states, %d transitions, %d traces, %d distinct outcomes, %.1f s"
        % (pid, tier, res["states"], res["transitions"], res["traces"],
           res["distinct_outcomes"], time.time() - t0))
    if status == 1:
        rdir = os.path.join(HERE, "build", "replay")
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, "%s-%s.json" % (pid, tier))
        json.dump({"property": pid, "tier": tier, "message": message,
                   "confirmed": res.get("confirm", ""),
                   "replay_args": res.get("replay_args", ""),
                   "how": "python3 %s --replay %s" % (os.path.abspath(__file__), rp)},
                  open(rp, "w"), indent=1)
        say(message)
        if res.get("confirm"):
            say("(" + res["confirm"] + ")")
        say("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if status != 0:
        say("ERROR: no answer: " + res["verdict"])
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
