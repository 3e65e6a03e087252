#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]   decide one property
   check.py --replay FILE                      run one recorded case again
   check.py --setup                            build everything
"""
import concurrent.futures as cf
import fnmatch
import json
import os
import sys
import time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "lib"))
import build as B  # noqa: E402
import props as P  # noqa: E402
import vfrun as R  # noqa: E402

VERIF = B.VERIF
EVID = os.path.join(VERIF, "evidence")
REPLAY = os.path.join(R.OUT, "replay")
KNOWN = os.path.join(VERIF, "known_findings.txt")


def known_findings(pid):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if not line.startswith("known:"):
                continue
            body, _, text = line[6:].partition("::")
            f = dict(x.split("=", 1) for x in body.split())
            if f.get("property") == pid:
                out.append((f["key"], text.strip()))
    return out


def streams_for(pid, tier, seed, exes):
    out = []
    for w in P.PROPS[pid]["workloads"]:
        n = w["quick"] if tier == "quick" else w["thorough"]
        if n <= 0:
            continue
        # split long streams so that they can share the cores
        parts = max(1, min(w.get("parts", 1), n))
        per = -(-n // parts)
        s = 0
        while s < n:
            k = min(per, n - s)
            out.append(R.Stream(
                exes[(w["harness"], w["variant"])], pid, w["nprocs"],
                w["variant"], seed, s, k, tier, threads=w.get("threads", 1),
                case_limit=w.get("case_limit", 90),
                workload=w.get("workload", pid),
                crash_only=P.PROPS[pid].get("crash_only", False)))
            s += k
    return out


def run_all(streams, cores=8, deadline=None):
    """Longest first, at most `cores` busy processes at a time."""
    import threading
    lock = threading.Condition()
    free = [cores]

    def go(st):
        need = min(cores, st.nprocs * max(1, min(st.threads, 4)))
        with lock:
            while free[0] < need:
                lock.wait()
            free[0] -= need
        try:
            return R.run_stream(st, deadline)
        finally:
            with lock:
                free[0] += need
                lock.notify_all()
    with cf.ThreadPoolExecutor(len(streams) or 1) as ex:
        return list(ex.map(go, streams))


def main():
    args = sys.argv[1:]
    if args and args[0] == "--setup":
        targets = sorted({(w["harness"], w["variant"])
                          for p in P.PROPS.values() for w in p["workloads"]})
        t0 = time.time()
        B.build(targets, verbose=True)
        print(f"setup: {len(targets)} instrumented harnesses in "
              f"{time.time() - t0:.0f}s")
        return 0
    if args and args[0] == "--replay":
        r = json.load(open(args[1]))
        exe = B.build([(r["harness"], r["variant"])])[
            (r["harness"], r["variant"])]
        st = R.Stream(exe, r["property"], r["nprocs"], r["variant"],
                      r["seed"], r["case"], 1, r["tier"],
                      threads=r["threads"], workload=r["workload"],
                      crash_only=P.PROPS[r["property"]].get("crash_only",
                                                            False))
        R.run_stream(st)
        for hook in P.PROPS[r["property"]].get("offline", []):
            hook(st)
        for v in st.viols:
            print(f"key={v['key']} rank={v['rank']}: {v['msg']}")
            print(f"  case: {v['label']}")
        print("VIOLATION reproduced" if st.viols else "no violation")
        return 1 if st.viols else 0

    pid = args[0]
    tier = "quick"
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    elif os.environ.get("VERIF_TIER") in ("quick", "thorough"):
        tier = os.environ["VERIF_TIER"]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = P.PROPS[pid]
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(REPLAY, exist_ok=True)
    targets = sorted({(w["harness"], w["variant"]) for w in spec["workloads"]
                      if w["quick" if tier == "quick" else "thorough"] > 0})
    try:
        exes = B.build(targets)
    except B.BuildError as e:
        print(f"INCONCLUSIVE: cannot build the harness: {e}")
        return 3
    t_build = time.time() - t0
    budget = 780 if tier == "quick" else 6 * 3600
    streams = run_all(streams_for(pid, tier, seed, exes),
                      deadline=t0 + budget)
    harness_of = {os.path.basename(e): t[0] for t, e in exes.items()}

    for hook in spec.get("offline", []):
        for st in streams:
            hook(st)

    known = known_findings(pid)
    viols, hits = [], {}
    for st in streams:
        for v in st.viols:
            for k, text in known:
                if fnmatch.fnmatchcase(v["key"], k):
                    hits[(k, text)] = hits.get((k, text), 0) + 1
                    break
            else:
                viols.append(v)

    # evidence
    obs, states, skips, samples = {}, set(), {}, []
    evaluations = 0
    for st in streams:
        for e in st.events:
            if e["ev"] != "end":
                continue
            for k, x in e["obs"].items():
                if k.startswith("max:"):
                    obs[k] = max(obs.get(k, -1e300), x)
                else:
                    obs[k] = obs.get(k, 0) + x
            if e["rank"] == 0:
                evaluations += 1
                if e["skip"]:
                    skips[e["skip"]] = skips.get(e["skip"], 0) + 1
                    continue
                for s in e["states"]:
                    states.add(f"n{st.nprocs}:{st.threads}:{s}")
                if e["label"] and len(samples) < 400:
                    samples.append({
                        "case": e["case"], "seed": st.seed,
                        "ranks": st.nprocs, "variant": st.variant,
                        "threads": st.threads, "workload": st.workload,
                        "input": e["label"][:300],
                        "observed": {k: x for k, x in
                                     list(e["obs"].items())[:8]}})
    step = max(1, len(samples) // 6)
    inconclusive = [x for st in streams for x in st.inconclusive]
    dead = [f"{st.workload} on {st.nprocs} ranks ({st.variant})"
            for st in streams
            if not st.viols and not any(e["ev"] == "end" and not e["skip"]
                                        for e in st.events)]
    top = dict(sorted(obs.items())[:120])
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": spec["level"],
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(states),
            "rule": spec["rule"],
            "samples": samples[::step][:8] or ["none"],
            "monitor_observations": {k: (round(x, 6) if isinstance(x, float)
                                         else x) for k, x in top.items()},
            "skipped_cases": skips,
            "workloads": [
                {"workload": st.workload, "ranks": st.nprocs,
                 "threads": st.threads, "build": st.variant,
                 "cases": st.count, "first_case": st.start,
                 "wall_s": round(st.wall, 1)} for st in streams][:60],
            "inconclusive": inconclusive[:20],
            "reports_judged_by_other_properties":
                sum(st.reports for st in streams),
            "known_findings_seen": {k: n for (k, _), n in hits.items()},
            "build_s": round(t_build, 1),
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viols),
    }
    tmp = os.path.join(EVID, f"{pid}.json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(EVID, f"{pid}.json"))

    for (k, text), n in sorted(hits.items()):
        print(f"KNOWN-FINDING: property={pid} {text}")
    print(f"{pid}: {evaluations} executions, {len(states)} distinct, "
          f"{int(obs.get('checks', 0))} checks, {time.time() - t0:.1f}s "
          f"(build {t_build:.1f}s)")
    for x in inconclusive[:5]:
        print("  inconclusive:", x[:800])
    keep = bool(os.environ.get("VF_KEEP"))
    rc = 0
    if viols:
        by_key = {}
        for v in viols:
            by_key.setdefault(v["key"], v)
        for i, (k, v) in enumerate(sorted(by_key.items())):
            path = os.path.join(
                REPLAY, f"{pid}-{v['variant']}-n{v['nprocs']}-s{v['seed']}-"
                        f"c{v['case']}-{i}.json")
            with open(path, "w") as f:
                json.dump({
                    "property": pid, "harness": harness_of[v["exe"]],
                    "variant": v["variant"], "nprocs": v["nprocs"],
                    "threads": v["threads"], "seed": v["seed"],
                    "case": v["case"], "workload": v["workload"],
                    "tier": tier, "key": k, "message": v["msg"],
                    "input": v["label"]}, f, indent=1)
            print(f"VIOLATION property={pid} replay={path}")
            print(f"  key={k} ranks={v['nprocs']} case={v['case']} "
                  f"[{v['variant']}]: {v['msg'][:600]}")
            if v["label"]:
                print(f"  case: {v['label'][:400]}")
        rc = 1
    elif dead:
        # a run that observed nothing decides nothing
        print("INCONCLUSIVE: nothing observed by", "; ".join(dead[:4]))
        rc = 3
    if not keep:
        for st in streams:
            R.cleanup(st)
    return rc


if __name__ == "__main__":
    sys.exit(main())
