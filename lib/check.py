#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE]

Builds what the property needs from /repo's working tree, explores, writes evidence/<id>.json.
exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check itself failed."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(VERIF, "checks"))
import build  # noqa: E402
import specs  # noqa: E402


def known(pid):
    """keys of the recorded findings of the property"""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                d = json.loads(l)
                if d.get("property") == pid:
                    out[d["key"]] = d.get("what", "")
    return out


def main():
    a = sys.argv[1:]
    pid, tier, replay = a[0], os.environ.get("VERIF_TIER", "quick"), None
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if "--replay" in a:
        replay = json.load(open(a[a.index("--replay") + 1]))
        tier = replay.get("tier", tier)
    keep = "--keep" in a
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    spec = specs.SPECS[pid]
    scratch = tempfile.mkdtemp(prefix="vh_%s_" % pid, dir=os.environ.get("TMPDIR", "/tmp"))
    env = dict(os.environ, VH_TIER=tier, LC_ALL="C.UTF-8", VH_PROPERTY=pid)
    rc = 2
    try:
        jobs = []
        for u in spec["units"]:
            if tier == "quick" and u.get("thorough_only"):
                continue
            for c in u.get("configs", [build.Config(1)]):
                jobs.append((u["files"], c, u.get("program", True), u.get("san", [])))
            if tier == "thorough":
                for c in u.get("thorough_configs", []):
                    jobs.append((u["files"], c, u.get("program", True), u.get("san", [])))
        if os.environ.get("VH_ONLY"):  # development: some of the configurations only
            jobs = [j for j in jobs if os.environ["VH_ONLY"] in j[1].name]
        runs_only = os.environ.get("VH_RUNS_ONLY") == "1"
        try:
            try:
                exes = build.Builder(scratch, runs_only=runs_only).build(jobs)
            except build.BuildError as e:
                # the interface of a component differs from the one the harness calls: real runs only
                if runs_only or not any("VH_RUNS_ONLY" in open(os.path.join(VERIF, f)).read() for j in jobs for f in j[0]):
                    raise
                print("without the components called directly, which do not build:\n%s" % str(e)[:1500])
                runs_only = True
                shutil.rmtree(scratch, ignore_errors=True)
                os.makedirs(scratch)
                exes = build.Builder(scratch, runs_only=True).build(jobs)
        except build.BuildError as e:
            print("the program does not build against the stand-ins:\n%s" % e)
            sys.exit(2)
        tb = time.time() - t0
        tot = dict(cases=0, states=0, transitions=0, traces=0, state_visits=0)
        counters, samples, viols, lost, per = {}, [], [], False, []
        for n, exe in enumerate(exes):
            if replay and replay["unit"] != n:
                continue
            out = os.path.join(scratch, "out%d.json" % n)
            if tier == "quick" and not replay:
                # a slow machine: what is left out is said in the evidence
                left = max(0, t0 + 740 - time.time())
                if any(v["key"] not in known(pid) for v in viols) and time.time() - t0 > 400:
                    continue
                env["VH_DEADLINE"] = str(int(time.time() + (left if n + 1 == len(exes) else left / 2)))
            cmd = [exe, "--out", out, "--workers", os.environ.get("VH_WORKERS", "8")]
            if replay:
                cmd += ["--only", replay["case"]]
            r = subprocess.run(cmd, env=env, cwd=scratch, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if r.returncode != 0 or not os.path.exists(out):
                print("explorer %s failed (%s):\n%s" % (os.path.basename(exe), r.returncode, r.stdout[-3000:]))
                sys.exit(2)
            d = json.load(open(out))
            lost = lost or d["lost"]
            for k in tot:
                tot[k] += d[k]
            for k, v in d["counters"].items():
                counters[k] = counters.get(k, 0) + v
            samples += ["%s: %s" % (jobs[n][1].name, s) for s in d["samples"]]
            per.append({"harness": jobs[n][0][0], "config": jobs[n][1].name, "cases": d["cases"], "states": d["states"], "transitions": d["transitions"], "traces": d["traces"]})
            for v in d["violations"]:
                v["unit"], v["config"] = n, jobs[n][1].name
                viols.append(v)
        if lost:
            print("a worker was lost without a verdict")
        if not viols and lost:
            sys.exit(2)
        if not replay and not viols and tot["cases"] == 0:
            print("nothing was explored")
            sys.exit(2)
        for u in spec.get("models", []):
            m = u(tier, scratch)
            for k in tot:
                tot[k] += m.get(k, 0)
            counters.update(m.get("counters", {}))
            samples += m.get("samples", [])
            for v in m.get("violations", []):
                v.setdefault("unit", -1)
                v.setdefault("config", "model")
                viols.append(v)
        kn = known(pid)
        fresh, seen = [], {}
        for v in viols:
            if v["key"] in kn:
                seen[v["key"]] = v
            else:
                fresh.append(v)
        for k in seen:
            print("KNOWN-FINDING: property=%s %s -- %s" % (pid, k, kn[k]))
        if not replay:
            ev = {
                "property": pid, "tier": tier, "seed": seed, "level": spec.get("level", "model_checking"),
                "coverage": {
                    "states": tot["states"], "transitions": tot["transitions"],
                    "traces_validated_against_impl": tot["traces"], "samples": samples[:12],
                    "evaluations": tot["cases"], "exhaustive": not viols and not counters.get("cases left out for lack of time"),
                    "what": spec["what"] + (" (real runs only: the components could not be called directly)" if runs_only else ""), "state_visits": tot["state_visits"], "counters": counters, "per_configuration": per, "build_s": round(tb, 1),
                },
                "assumptions": spec.get("assumptions", []) + specs.COMMON_ASSUMPTIONS,
                "wall_s": round(time.time() - t0, 2), "violations": len(fresh),
            }
            os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
            with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
                json.dump(ev, f, indent=1)
        rd = os.path.join(VERIF, "evidence", "replay")
        first = {}
        for v in fresh:
            first.setdefault((v["config"], v["key"].split(":")[0] if v["key"].startswith("crash") else v["key"]), []).append(v)
        # one of every kind first
        fresh = [v[0] for v in first.values()] + [w for v in first.values() for w in v[1:]]
        for i, v in enumerate(fresh[:max(5, min(12, len(first)))]):
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, "%s_%d.json" % (pid, i))
            if not replay:
                json.dump({"property": pid, "tier": tier, "unit": v["unit"], "config": v["config"], "case": v["case"], "key": v["key"], "detail": v["detail"],
                           "how": "python3 /verif/lib/check.py %s --replay %s" % (pid, path)}, open(path, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("  [%s] %s\n  case: %s\n  %s" % (v["config"], v["key"], v["case"], v["detail"][:1500]))
        print("%s %s: %d cases, %d states, %d transitions, %d traces, %d new violations, %d known, build %.1fs, wall %.1fs" % (
            pid, tier, tot["cases"], tot["states"], tot["transitions"], tot["traces"], len(fresh), len(seen), tb, time.time() - t0))
        if counters:
            print("  " + ", ".join("%s=%d" % kv for kv in sorted(counters.items())))
        rc = 1 if fresh else 0
    finally:
        if keep:
            print("kept", scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


if __name__ == "__main__":
    main()
