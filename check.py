#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough] : decides one property on /repo's current working tree.
   check.py --replay FILE                : plays a recorded violation again.

Builds the conformance driver from /repo, model-checks the specification (spec/*.tla, TLC), drives the real code
through histories (behaviours of the specification and seeded walks) and lets TLC judge every recorded trace.
"""
import os, sys, json, time, random, subprocess, argparse, resource
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import tlc, runner, families, plan      # noqa

EVID = os.path.join(VERIF, "evidence")


def known():
    """[(kind, id, text)] from known_findings.txt"""
    r = []
    p = os.path.join(VERIF, "known_findings.txt")
    for l in open(p) if os.path.exists(p) else ():
        l = l.strip()
        for k in ("finding", "fixed"):
            if l.startswith(k + ": property="):
                pid, _, rest = l[len(k) + 11:].partition(" ")
                r.append((k, pid, rest))
    return r


def build():
    t = time.time()
    rc = subprocess.run([sys.executable, os.path.join(VERIF, "harness", "build.py")]).returncode
    return rc, time.time() - t


def write_evidence(pid, tier, seed, d, t0):
    os.makedirs(EVID, exist_ok=True)
    d = dict({"property": pid, "tier": tier, "seed": seed}, **d)
    d["wall_s"] = round(time.time() - t0, 1)
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(d, f, indent=1)
        f.write("\n")


def short(o, n=6000):
    s = json.dumps(o)
    return json.loads(s) if len(s) < n else s[:n]


def replay(path):
    v = json.load(open(path))
    if build()[0]:
        return 3
    scn = (v["scenario"][0], v["scenario"][1], v["scenario"][2])
    hist = [tuple(x) for x in v.get("prefix", [])]
    for slow in (0, 1, 2, 1):
        r = runner.batch((hist + [scn], v.get("hash_seed", 100), None, slow))
        if r["error"]:
            print(r["error"])
            return 3
        if r["crashes"] or r["devs"]:
            for c in r["crashes"]:
                print("CRASH", c["crash"])
            for d in r["devs"][:3]:
                print("DEVIATION", json.dumps(d["dev"]), "\n  event", json.dumps(d["event"])[:1500], "\n  expected", json.dumps(d["exp"])[:1500])
            print("VIOLATION property=%s replay=%s" % (v["property"], path))
            return 1
    print("not reproduced")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    pid, tier = a.id, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    P = plan.PLAN[pid]
    rc, tb = build()
    if rc:
        print("the driver does not build from /repo's working tree")
        return 2
    # ---- the specification itself
    mcs = []
    for module, cfg, *broken in P["mc"] + (P.get("mc_thorough", []) if tier == "thorough" else []):
        r = tlc.run(module, cfg=cfg, workers=8, timeout=700, mem="8g")
        if broken:
            # a configuration the invariant must not hold in (the specification is able to tell the difference)
            if r["rc"] != 12 or "Invariant %s is violated" % broken[0] not in r["out"]:
                print("TLC: %s/%s was expected to violate %s:\n%s" % (module, cfg, broken[0], r["out"][-3000:]))
                return 2
        elif r["rc"] != 0:
            print("TLC: the specification %s/%s does not have its properties:\n%s" % (module, cfg, r["out"][-3000:]))
            return 2
        mcs.append({"config": cfg, "distinct": r["distinct"], "generated": r["generated"], "wall": round(r["wall"], 1), **({"violates_as_expected": broken[0]} if broken else {})})
    # ---- the real code
    scns = []
    groups = P["quick"]() if tier == "quick" else P["thorough"]()
    for gi, g in enumerate(groups):
        fam, params, n = g[0], g[1], g[2]
        if isinstance(params, list):
            scns += [(fam, p, seed * 1000003 + gi * 10007 + i) for i, p in enumerate(params)]
        else:
            scns += [(fam, params, seed * 1000003 + gi * 10007 + i) for i in range(n)]
    # long ones first, the rest mixed
    head = [s for s in scns if s[0] in ("churn",)]
    rest = [s for s in scns if s[0] not in ("churn",)]
    random.Random(seed).shuffle(rest)
    budget = P.get("budget", {}).get(tier, 150 if tier == "quick" else 600)
    rs = []
    if head:
        # one worker each, beside the others
        k = min(4, len(head))
        jobs = [[s for s in head[i::k]] for i in range(k)] + [rest[i::8 - k] for i in range(8 - k)]
        rs = runner.run_jobs([j for j in jobs if j], seed=seed, budget=budget)
    else:
        n = min(8, len(rest)) or 1
        rs = runner.run_jobs([rest[i::n] for i in range(n)], seed=seed, budget=budget)
    err = [r["error"] for r in rs if r["error"]]
    if err:
        print("machinery error:\n" + err[0])
        return 2
    devs = [d for r in rs for d in r["devs"]]
    crashes = [dict(c, crash_=True) for r in rs for c in r["crashes"]]
    cand = []
    other = {}
    for d in devs:
        if plan.attributed(pid, d):
            cand.append(d)
        else:
            key = "%s/%s" % (d["scn"][0], d["dev"]["dev"])
            other[key] = other.get(key, 0) + 1
    cand = crashes + cand
    viol, unconf = [], 0
    tc = time.time()
    seen = {}
    for d in cand:
        if len(viol) >= 2 or time.time() - tc > 150:
            break
        sig = (d["scn"][0], d.get("dev", {}).get("dev"), d.get("dev", {}).get("e"), d.get("dev", {}).get("o"), json.dumps(sorted(plan.stimuli(d["event"]))) if "event" in d else d["crash"][:60])
        if seen.get(sig, 0) >= 3:       # enough of these: reported, or three of them tried in vain
            continue
        seen[sig] = seen.get(sig, 0) + 1
        real = runner.FAMILIES[d["scn"][0]][2]
        c = None
        for slow, prefix in ([(1, 0), (2, 0), (1, 0)] if real else [(0, 0), (0, 1)]):
            pre = d["prefix"] if prefix else []
            if prefix and not pre:
                continue
            r = runner.batch((pre + [d["scn"]], d["hash_seed"], None, slow))
            if r["error"]:
                continue
            hits = [x for x in r["crashes"]] + [x for x in r["devs"] if plan.attributed(pid, x)]
            if hits:
                c = dict(hits[0], prefix=pre)
                break
        if c is None:
            unconf += 1
            print("not reproduced when played again: %s %s" % (list(d["scn"])[::2], d.get("crash") or json.dumps(d["dev"])[:300]))
            continue
        seen[sig] = 3
        os.makedirs(EVID, exist_ok=True)
        path = os.path.join(EVID, "replay-%s-%d.json" % (pid, len(viol) + 1))
        with open(path, "w") as f:
            json.dump({"property": pid, "scenario": list(c["scn"]), "hash_seed": d["hash_seed"], "prefix": [list(x) for x in c["prefix"]], "deviation": c.get("dev"), "crash": c.get("crash"),
                       "event": c.get("event"), "expected": c.get("exp"), "events": c.get("events", [])[-60:]}, f, indent=1)
        viol.append(path)
        print("property %s: %s" % (pid, c.get("crash") or json.dumps(c["dev"])[:600]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        sys.stdout.flush()
    # ---- listed findings
    for k, fid, text in known():
        if k == "finding" and fid == pid:
            print("KNOWN-FINDING: property=%s %s" % (pid, text))
    per = {}
    for r in rs:
        for k, (n, e) in r["per"].items():
            p = per.setdefault(k, [0, 0])
            p[0] += n
            p[1] += e
    played = sum(r["scenarios"] for r in rs)
    cov = {"states": sum(m["distinct"] for m in mcs), "transitions": sum(m["generated"] for m in mcs), "traces_validated_against_impl": played,
           "samples": [r["sample"] for r in rs if r["sample"]][:3], "events_judged": sum(r["events"] for r in rs), "scenarios_planned": len(scns),
           "families": {k: {"scenarios": v[0], "events": v[1]} for k, v in sorted(per.items())}, "model_checking": mcs,
           "trace_states": sum(r["states"] for r in rs), "build_s": round(tb, 1)}
    write_evidence(pid, tier, seed, {"level": P["level"], "coverage": cov, "violations": len(viol), "assumptions": P.get("assumptions", plan.ASSUME),
                                     "unconfirmed": unconf, "deviations_of_other_properties": other}, t0)
    print("%s %s: %d scenarios, %d events judged, %d violations (%d unconfirmed), other deviations %s, %.0f s" % (pid, tier, played, cov["events_judged"], len(viol), unconf, other or "none", time.time() - t0))
    return 1 if viol else 0


if __name__ == "__main__":
    sys.exit(main())
