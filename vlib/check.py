#!/usr/bin/env python3
"""check.py <PROPERTY> <quick|thorough> [--replay FILE]: builds the harnesses of one property from
/repo, explores, writes evidence/<PROPERTY>.json and prints the verdict."""
import json, os, re, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as B

VERIF = B.VERIF
REG = json.load(open(os.path.join(VERIF, "checks.json")))


def symbolize(exe, text):
    pcs = sorted(set(re.findall(r"pc (0x[0-9a-f]+)", text)))
    if not pcs:
        return text
    try:
        out = subprocess.run(["addr2line", "-fCsi", "-e", exe] + pcs, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                             timeout=60).stdout.decode()
        # one call per pc keeps inlined frames apart
        for pc in pcs:
            o = subprocess.run(["addr2line", "-fCsip", "-e", exe, pc], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                               timeout=60).stdout.decode().strip().replace("\n", " ")
            text = text.replace("pc " + pc, "pc %s [%s]" % (pc, o[:300]))
    except Exception:
        pass
    return text


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    spec = REG[prop]
    t0 = time.time()
    if "--replay" in sys.argv:
        f = sys.argv[sys.argv.index("--replay") + 1]
        h = None
        for line in open(f):
            if line.startswith("harness "):
                h = line.split()[1]
        exe = B.build(h)
        r = subprocess.run([exe, "--replay", f, "--tier", tier], stdout=subprocess.PIPE)
        print(symbolize(exe, r.stdout.decode(errors="replace")))
        sys.exit(r.returncode)
    known = [k for k in json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"] if k["property"] == prop]
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    os.makedirs(VERIF + "/replays", exist_ok=True)
    kf = VERIF + "/_build/known_%s.txt" % prop
    os.makedirs(VERIF + "/_build", exist_ok=True)
    open(kf, "w").write("".join(k["signature"] + "\n" for k in known))
    total_budget = spec.get("budget", {}).get(tier, 300 if tier == "quick" else 3000)
    rc, results, violations, known_hits = 0, [], 0, set()
    replay_path = None
    hs = spec["harnesses"]
    exes = []
    for h in hs:
        exes.append(B.build(h["name"]))
    build_s = time.time() - t0
    for i, (h, exe) in enumerate(zip(hs, exes)):
        if tier == "quick" and h.get("thorough_only"):
            continue
        out = VERIF + "/_build/out_%s_%s.json" % (prop, h["name"])
        rp = VERIF + "/replays/%s-%s.replay" % (prop, h["name"])
        for f in (out, rp):
            if os.path.exists(f):
                os.unlink(f)
        budget = max(20, (total_budget - (time.time() - t0 - build_s)) / (len(hs) - i))
        cmd = [exe, "--out", out, "--replay-out", rp, "--tier", tier, "--jobs", str(os.cpu_count() or 4), "--budget", "%.0f" % budget,
               "--known", kf]
        if h.get("scenario"):
            cmd += ["--scenario", h["scenario"]]
        env = dict(os.environ)
        for k, v in h.get("env", {}).items():
            env[k] = v
        errf = VERIF + "/_build/err_%s_%s.txt" % (prop, h["name"])
        with open(errf, "wb") as ef:
            r = subprocess.run(cmd, stdout=ef, stderr=ef, env=env)
        err = open(errf, "rb").read().decode(errors="replace")
        sys.stderr.write(symbolize(exe, err[-6000:]))
        if os.path.exists(out):
            res = json.load(open(out))
            res["harness"] = h["name"]
            results.append(res)
            known_hits |= set(res["known_hits"])
        if r.returncode == 1:
            violations += 1
            txt = open(rp).read()
            open(rp, "w").write("harness %s\n" % h["name"] + symbolize(exe, txt) + "\n# stderr tail:\n" +
                                "".join("# " + l + "\n" for l in err[-4000:].splitlines()))
            replay_path = rp
            rc = 1
            print("violation: " + symbolize(exe, results[-1]["violation"] if results else err[-500:]))
            break
        if r.returncode != 0:
            sys.stderr.write("check error: %s exited with %d\n" % (h["name"], r.returncode))
            rc = 2
            break
    sc = [dict(s, harness=r["harness"]) for r in results for s in r["scenarios"]]
    samples = []
    for s in sc:
        for x in s["samples"][-2:]:
            samples.append(dict(x, harness=s["harness"]))
    samples = samples[:24]
    execs = sum(s["executions"] for s in sc)
    cov = {
        "states": sum(s["states"] for s in sc) or sum(s["outcomes"] for s in sc),
        "transitions": sum(s["transitions"] for s in sc),
        "traces_validated_against_impl": execs,
        "samples": samples,
        "evaluations": sum(s["evaluations"] for s in sc),
        "exhaustive": all(not s["capped"] and s["completed_bound"] == s["max_bound"] for s in sc),
        "explanation": spec.get("explanation", ""),
        "scenarios": [{k: s[k] for k in ("harness", "name", "max_bound", "completed_bound", "capped", "executions",
                                         "executions_beyond", "transitions", "evaluations", "states", "outcomes", "wall_s")} |
                      {"outcome_samples": s["outcome_samples"][:4]} for s in sc],
        "meaning": "states: distinct fingerprints of observed (implementation + reference model) states; transitions: "
                   "choice points executed (environment answers, operations, scheduling decisions); "
                   "traces_validated_against_impl: complete executions, each of which ran the real code; an execution "
                   "bound is the number of deviations (preemptions, stale reads, faults) completed exhaustively.",
    }
    if spec["level"] in ("exploration", "fault_enumeration"):
        cov["distinct_nontrivial"] = sum(s["outcomes"] for s in sc)
        cov["rule"] = spec.get("rule", "each execution is a distinct choice sequence; non-trivial = distinct observed outcome")
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": spec["level"],
          "coverage": cov, "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
          "violations": violations, "build_s": round(build_s, 2)}
    with open(VERIF + "/evidence/%s.json" % prop, "w") as f:
        json.dump(ev, f, indent=1)
    for k in known:
        if k["signature"] in known_hits:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if rc == 1:
        print("VIOLATION property=%s replay=%s" % (prop, replay_path))
    elif rc == 0:
        print("OK property=%s executions=%d transitions=%d states=%d %.1fs" %
              (prop, execs, cov["transitions"], cov["states"], time.time() - t0))
    sys.exit(rc)


if __name__ == "__main__":
    main()
