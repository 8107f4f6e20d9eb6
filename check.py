#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   decide one property
   check.py --replay <file>              run one recorded violation again
   check.py --setup                      warm up (build the driver once)

Exit 0: the property held on everything explored. Exit 1, with a line
"VIOLATION property=<id> replay=<path>": it does not. Anything else: the
check could not run."""
import json, os, sys, time, traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import core
from concurrent.futures import ThreadPoolExecutor
from registry import components_of, named


def load_known():
    with open(os.path.join(core.VERIF, "known_findings.json")) as f:
        return {k["id"]: k for k in json.load(f)["findings"]}


class Part:
    """One component's share of a check."""

    def __init__(self, comp):
        self.comp = comp
        self.name = comp.__name__


def run(pid, tier, seed):
    known = load_known()
    work = core.Work()
    t0 = time.time()
    try:
        parts = [Part(c) for c in components_of(pid)]
        with ThreadPoolExecutor(4) as ex:
            built = ex.submit(core.build_driver, work)
            racing = ex.submit(core.build_driver, work, True) if any(getattr(p.comp, "RACE", 0) for p in parts) else None
            for p in parts:
                p.specs = [ex.submit(lambda s=s, p=p: core.model_check(work, **dict(dict(seed=seed), **dict(s, name=p.name + "-" + s["name"]))))
                           for s in p.comp.specs(pid, tier)]
            exe = built.result()
            exe_race = racing.result() if racing else None
            for p in parts:
                p.mcs = [f.result() for f in p.specs]
        t1 = time.time()
        td = 0
        for p in parts:
            p.behaviours = [b for m in p.mcs for b in sorted(m["behaviours"], key=lambda b: json.dumps(b, sort_keys=True))]  # TLC's workers print in any order
            p.scen = core.passing_faults(p.comp.scenarios(pid, tier, seed, p.behaviours))
            t = time.time()
            p.traces = core.drive(work, exe, [s for s in p.scen if not s.get("race")], tag=p.name + "-")
            if exe_race:
                p.traces += core.drive(work, exe_race, [s for s in p.scen if s.get("race")], tag=p.name + "-race-", race=True)
            td += time.time() - t
            p.res = core.check_traces(work, p.comp.TRACE_MODULE, p.traces, p.comp.TRACE_CONSTS, pid)
        t3 = time.time()
        return finish(pid, tier, seed, known, parts, t0, (t1 - t0, td, t3 - t1 - td))
    finally:
        work.close()


def events_of(traces, sc):
    out = []
    for t in traces:
        with open(t) as f:
            for line in f:
                if line.startswith('{"sc":%d,' % sc) or ('"sc": %d,' % sc) in line[:20]:
                    out.append(json.loads(line))
        if out:
            break
    return out


def finish(pid, tier, seed, known, parts, t0, times):
    bad = [dict(b, part=p) for p in parts for r in p.res for b in r["bad"]]
    cov = {}
    for p in parts:
        for r in p.res:
            for k, v in r["cov"].items():
                cov[k] = cov.get(k, 0) + v
    mcs = [m for p in parts for m in p.mcs]
    events = sum(r["n"] for p in parts for r in p.res)
    nscen = sum(len(p.scen) for p in parts)
    findings = {k.split("KF:")[1]: v for k, v in cov.items() if "/KF:" in k}
    checks = {k: v for k, v in cov.items() if "/KF:" not in k}
    unlisted = [f for f in findings if f not in known]

    samples = []
    for p, s in [(p, s) for p in parts for s in p.scen[:: max(1, len(p.scen) // 3)][:3]]:
        evs = events_of(p.traces, s["sc"])
        txt = json.dumps(evs[:6], separators=(",", ":"))
        samples.append({"scenario": s["sc"], "events": len(evs), "first_events": txt[:1500]})

    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": sum(m["states"] for m in mcs) + sum(r["states"] for p in parts for r in p.res),
            "transitions": sum(m["transitions"] for m in mcs) + events,
            "traces_validated_against_impl": nscen,
            "samples": samples,
            "specification_runs": [{k: m[k] for k in ("module", "name", "states", "transitions", "constants", "invariants")}
                                   for m in mcs],
            "behaviours_from_tlc": sum(len(p.behaviours) for p in parts),
            "implementation_events": events,
            "trace_modules": [p.comp.TRACE_MODULE for p in parts],
            "checks_evaluated": checks,
            "known_findings_observed": findings,
            "seconds": {"specification": round(times[0], 1), "driver": round(times[1], 1), "traces": round(times[2], 1)},
        },
        "assumptions": [a for p in parts for a in getattr(p.comp, "ASSUMPTIONS", [])],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(bad),
    }
    os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(core.VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")

    if not checks:
        raise core.CheckError("no check of %s was evaluated" % pid)
    missing = [c for p in parts for c in getattr(p.comp, "EXPECT", {}).get(pid, []) if pid + "/" + c not in checks]
    if missing and not bad:
        raise core.CheckError("checks never evaluated: " + ", ".join(missing))

    for f in sorted(findings):
        if f in known:
            print("KNOWN-FINDING: property=%s %s: %s (seen %d times)" % (pid, f, known[f]["what"], findings[f]))
    if unlisted and not bad:
        print("  findings that are not listed: " + ", ".join(unlisted))
        print("VIOLATION property=%s replay=none" % pid)
        return 1
    if not bad:
        print("OK property=%s tier=%s states=%d traces=%d events=%d checks=%d in %.1fs" % (
            pid, tier, ev["coverage"]["states"], nscen, events, sum(checks.values()), time.time() - t0))
        return 0

    rd = os.path.join(core.VERIF, "replay")
    os.makedirs(rd, exist_ok=True)
    def scenario(b):
        return next((s for s in b["part"].scen if s["sc"] == b["sc"]), None)

    names = {}
    for b in bad:
        names.setdefault(b["name"], []).append(b)
    first = min(bad, key=lambda b: (len(json.dumps(scenario(b))), b["sc"], b["i"]))
    path = os.path.join(rd, "%s.json" % pid)
    e = next((e for e in events_of(first["part"].traces, first["sc"]) if e["i"] == first["i"]), None)
    with open(path, "w") as f:
        json.dump({"property": pid, "component": first["part"].name, "check": first["name"], "event_index": first["i"],
                   "seed": seed, "tier": tier, "scenario": scenario(first), "event": e}, f)
    for n in sorted(names):
        print("  failed check %s/%s: %d times, e.g. %s scenario %d event %d" % (
            pid, n, len(names[n]), names[n][0]["part"].name, names[n][0]["sc"], names[n][0]["i"]))
    if e:
        print("  event:", json.dumps(e, separators=(",", ":"))[:600])
    print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1


def replay(path):
    with open(path) as f:
        r = json.load(f)
    pid = r["property"]
    comp = named(r["component"])
    work = core.Work()
    try:
        race = bool(r["scenario"].get("race"))
        exe = core.build_driver(work, race)
        traces = core.drive(work, exe, [r["scenario"]], race=race)
        res = core.check_traces(work, comp.TRACE_MODULE, traces, comp.TRACE_CONSTS, pid)
        bad = [b for x in res for b in x["bad"]]
        for b in bad:
            print("  failed check %s/%s at event %d" % (pid, b["name"], b["i"]))
        if bad:
            print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        print("OK property=%s: the scenario holds" % pid)
        return 0
    finally:
        work.close()


def main():
    a = sys.argv[1:]
    try:
        if a and a[0] == "--setup":
            w = core.Work()
            try:
                core.build_driver(w)
            finally:
                w.close()
            print("setup ok")
            return 0
        if len(a) == 2 and a[0] == "--replay":
            return replay(a[1])
        pid = a[0]
        tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1"))
        return run(pid, tier, seed)
    except core.CheckError as e:
        print("ERROR", e, file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
