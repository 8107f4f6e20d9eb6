"""Plumbing shared by all checks: build the driver from /repo's working tree,
run scenarios through it, run TLC on specifications and on recorded traces."""
import glob, json, os, re, resource, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GOAV_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CPUS = max(2, min(8, os.cpu_count() or 4))


class CheckError(Exception):
    """The check itself could not run: an error exit, never a verdict."""


class Work:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="goav-verif-")
        self.t0 = time.time()

    def path(self, *p):
        return os.path.join(self.dir, *p)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def go_env():
    env = dict(os.environ)
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; env -0"], capture_output=True, env=env)
    for kv in out.stdout.split(b"\0"):
        if b"=" in kv:
            k, v = kv.split(b"=", 1)
            env[k.decode()] = v.decode()
    return env


def build_driver(work, race=False):
    """Compiles the driver against /repo's current tree, through an overlay."""
    pkg = os.path.join(REPO, "zz_goavdrv")
    rep = {os.path.join(pkg, os.path.basename(f)): f for f in glob.glob(os.path.join(VERIF, "driver", "*.go"))}
    ov = work.path("overlay-race.json" if race else "overlay.json")
    with open(ov, "w") as f:
        json.dump({"Replace": rep}, f)
    mod = work.path("race" if race else "plain")
    os.makedirs(mod, exist_ok=True)
    for n in ("go.mod", "go.sum"):
        shutil.copy(os.path.join(REPO, n), os.path.join(mod, n))
    exe = os.path.join(mod, "goavdrv")
    env = go_env()
    if race:
        env["CGO_ENABLED"] = "1"
    p = subprocess.run(["go", "build"] + (["-race"] if race else []) + ["-overlay", ov, "-modfile", os.path.join(mod, "go.mod"),
                        "-o", exe, "./zz_goavdrv"], cwd=REPO, env=env, capture_output=True, text=True)
    if p.returncode != 0:
        raise CheckError("building the driver failed:\n" + p.stderr[-4000:])
    return exe


def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def _events(path):
    last, good = None, []
    with open(path) as f:
        for line in f:
            try:
                last = json.loads(line)
                good.append(line)
            except ValueError:
                break
    return last, good


def _drive_shard(exe, scen, base, budget, race=False):
    """Runs scenarios one after another; a process that dies or hangs costs one
    scenario: its unfinished operation becomes a "crash" event."""
    limits = None if race else _limits  # the race detector maps a large address space
    env = dict(os.environ, GORACE="halt_on_error=1 exitcode=66") if race else None
    todo = list(scen)
    trace = base + ".ndjson"
    open(trace, "w").close()
    rounds = hangs = 0
    while todo:
        rounds += 1
        if rounds > (400 if race else 40):
            break
        sf = base + ".in"
        # for races, what happens the first time counts: a process for each
        batch = todo[:1] if race else todo
        with open(sf, "w") as f:
            for s in batch:
                f.write(json.dumps(s, separators=(",", ":")) + "\n")
        part = base + ".part"
        open(part, "w").close()
        try:
            p = subprocess.run([exe, "-in", sf, "-out", part], capture_output=True, text=True,
                               preexec_fn=limits, env=env, timeout=budget)
            rc, err = p.returncode, p.stderr
        except subprocess.TimeoutExpired:
            raise CheckError("driver did not finish within its budget")
        if rc == 4:
            raise CheckError("driver: " + err[-2000:])
        last, good = _events(part)
        if last is not None and last["r"]["k"] == "hang" and hangs:
            rounds = 1000  # enough is known
        elif last is not None and last["r"]["k"] == "hang":
            # a loaded machine is slow: believe it only when the scenario alone, given long, does not end either
            k = [s["sc"] for s in todo].index(last["sc"])
            with open(sf, "w") as f:
                f.write(json.dumps(todo[k], separators=(",", ":")) + "\n")
            open(part, "w").close()
            try:
                p = subprocess.run([exe, "-in", sf, "-out", part, "-optimeout", "100s"], capture_output=True, text=True,
                                   preexec_fn=limits, env=env, timeout=budget)
            except subprocess.TimeoutExpired:
                raise CheckError("driver did not finish within its budget")
            if p.returncode == 0:
                again = _events(part)[1]
                with open(trace, "a") as f:
                    f.writelines([g for g in good if json.loads(g)["sc"] != last["sc"]] + again)
                todo = todo[k + 1:]
                continue
            hangs += 1
        with open(trace, "a") as f:
            f.writelines(good)
        if rc == 0:
            todo = todo[len(batch):]
            continue
        # which operation did not finish?
        idx = {s["sc"]: n for n, s in enumerate(todo)}
        if last is None:
            n, i = 0, 0
        else:
            n = idx[last["sc"]]
            i = last["i"] + 1
            if last["r"]["k"] in ("hang", "panic") or i >= len(todo[n]["ops"]):
                if last["r"]["k"] != "hang":
                    n, i = n + 1, 0
                else:
                    i = None
        if i is None:
            todo = todo[n + 1:]
            continue
        if n >= len(todo):
            raise CheckError("driver died outside of an operation: " + err[-2000:])
        s = todo[n]
        if not (race or s["c"] == "weave" or "concurrent map" in err):
            # confirm on its own, so that only the scenario itself can be at fault
            with open(sf, "w") as f:
                f.write(json.dumps(s, separators=(",", ":")) + "\n")
            open(part, "w").close()
            try:
                p = subprocess.run([exe, "-in", sf, "-out", part], capture_output=True, text=True,
                                   preexec_fn=limits, env=env, timeout=budget)
            except subprocess.TimeoutExpired:
                raise CheckError("driver did not finish within its budget")
            if p.returncode == 0:
                raise CheckError("driver death not reproduced: " + err[-2000:])
        # keep what was recorded of it before
        with open(trace, "a") as f:
            f.write(json.dumps({"sc": s["sc"], "i": i, "a": s["ops"][i],
                                "r": {"k": "crash", "msg": err[:1500] if race else err.splitlines()[0][:300] if err else str(rc)}},
                               separators=(",", ":")) + "\n")
        todo = todo[n + 1:]
    return trace


def passing_faults(scen):
    """Scenarios with failing writers come a second time, with writers that fail once and then recover."""
    out = list(scen)
    for s in scen:
        if s["c"] != "gop" and any(isinstance(o.get("fail"), int) and o["fail"] >= 0 for o in s["ops"]):
            out.append(dict(s, sc=len(out), ops=[dict(o, once=1) if o.get("fail", -1) >= 0 else o for o in s["ops"]]))
    return out


def split_by_weight(scen, n):
    shards = [[] for _ in range(n)]
    load = [0] * n
    for s in sorted(scen, key=lambda s: -s["_w"]):
        k = load.index(min(load))
        shards[k].append(s)
        load[k] += s["_w"]
    out = []
    for sh in shards:
        if sh:
            out.append([{k: v for k, v in s.items() if k != "_w"} for s in sorted(sh, key=lambda s: s["sc"])])
    return out


def weigh(s):
    return len(json.dumps(s)) + 60 * len(s["ops"]) + 200


def drive(work, exe, scen, tag="t", budget=600, race=False):
    for s in scen:
        s["_w"] = weigh(s)
    shards = split_by_weight(scen, CPUS)
    for s in scen:
        s.pop("_w", None)
    with ThreadPoolExecutor(CPUS) as ex:
        return list(ex.map(lambda a: _drive_shard(exe, a[1], work.path("%s%d" % (tag, a[0])), budget, race),
                           enumerate(shards)))


def java(args, cwd, env, budget, heap="3g"):
    tmp = next((a for k, a in zip(args, args[1:]) if k == "-metadir"), None)
    if tmp:
        os.makedirs(tmp, exist_ok=True)
    cmd = ["java"] + (["-Djava.io.tmpdir=" + tmp] if tmp else []) + ["-Xmx" + heap, "-Xss64m", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=4", "-cp", TLA, "tlc2.TLC"] + args
    e = dict(os.environ)
    e.update(env)
    try:
        return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=budget)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC did not finish within %d s: %s" % (budget, " ".join(args)))


STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def cfg_text(consts, spec="Spec", invariants=(), properties=(), constraint=None, deadlock=False, view=None):
    t = "SPECIFICATION %s\n" % spec
    if consts:
        t += "CONSTANTS\n" + "".join("  %s = %s\n" % kv for kv in consts.items())
    for i in invariants:
        t += "INVARIANT %s\n" % i
    for p in properties:
        t += "PROPERTY %s\n" % p
    if constraint:
        t += "CONSTRAINT %s\n" % constraint
    if view:
        t += "VIEW %s\n" % view
    t += "CHECK_DEADLOCK %s\n" % ("TRUE" if deadlock else "FALSE")
    return t


def model_check(work, module, name, consts, invariants=(), properties=(), constraint=None, view=None,
                workers=4, budget=800, simulate=None, seed=1, heap="4g", violated=None):
    """Exhaustive (or simulated) check of a specification; returns state counts
    and the behaviours it printed. A violated invariant is a specification
    error, not a verdict on the code."""
    d = work.path("mc-" + name)
    os.makedirs(d, exist_ok=True)
    cfg = os.path.join(d, name + ".cfg")
    with open(cfg, "w") as f:
        f.write(cfg_text(consts, invariants=invariants, properties=properties, constraint=constraint, view=view))
    args = ["-config", cfg, "-metadir", os.path.join(d, "meta"), "-workers", str(workers), "-noGenerateSpecTE",
            "-deadlock" if False else "-nowarning"]
    if simulate:
        args += ["-simulate", "num=%d" % simulate[0], "-depth", str(simulate[1]), "-seed", str(seed)]
    args.append(os.path.join(SPEC, module + ".tla"))
    p = java(args, SPEC, {}, budget, heap)
    out = p.stdout
    if violated:
        # a deliberately wrong design: TLC has to refute it
        if p.returncode != 12 or "Invariant %s is violated" % violated not in out:
            raise CheckError("specification %s (%s): %s was not refuted\n%s" % (module, name, violated, out[-2000:]))
    elif p.returncode != 0:
        raise CheckError("specification %s (%s): TLC exit %d\n%s" % (module, name, p.returncode, out[-3000:] + p.stderr[-500:]))
    m = STATS.findall(out)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    if simulate and not m:
        mm = re.findall(r"(\d+) states checked", out)
        gen = dist = int(mm[-1]) if mm else 0
    beh = []
    for line in out.splitlines():
        if line.startswith('"@@'):
            beh.append(json.loads(json.loads(line)[2:]))
    return {"module": module, "name": name, "states": dist, "transitions": gen, "behaviours": beh,
            "constants": consts, "invariants": list(invariants) + list(properties) + (["refuted: " + violated] if violated else [])}


def unjudged(p):
    """the number of the event whose judgement TLC could not evaluate (a result of a
    shape the specification has no value for), if that is why it stopped"""
    o = p.stdout
    if p.returncode == 0 or re.search(r"StackOverflow|OutOfMemory|stack overflow|out of memory|Parsing or semantic analysis failed", o):
        return None
    if "The behavior up to this point is" not in o:
        return None
    m = re.findall(r"pos = (\d+)", o)
    return int(m[-1]) if m else None


def undefined(e, pid):
    return {"sc": e["sc"], "i": e["i"], "pid": pid, "name": "result-of-a-meaningful-shape"}


def check_traces(work, module, traces, consts, pid, budget=800):
    """Validates recorded traces against a trace specification."""
    d = work.path("tr-" + module)
    os.makedirs(d, exist_ok=True)
    cfg = os.path.join(d, module + ".cfg")
    with open(cfg, "w") as f:
        f.write(cfg_text(consts))

    def one(k):
        t = traces[k]
        n = sum(1 for _ in open(t))
        if n == 0:
            return {"n": 0, "bad": [], "cov": {}, "states": 0}
        out = os.path.join(d, "out%d.json" % k)

        def tlc(trace):
            return java(["-config", cfg, "-metadir", os.path.join(d, "meta%d" % k), "-workers", "1", "-noGenerateSpecTE",
                         os.path.join(SPEC, module + ".tla")],
                        SPEC, {"TRACE": trace, "OUT": out, "PID": pid}, budget)

        p, lost = tlc(t), None
        at = unjudged(p)
        if at and at <= n:
            # the specification has no meaning for what event `at` shows: that event fails, and
            # the events before it are judged as ever
            with open(t) as f, open(t + ".cut", "w") as g:
                lines = f.readlines()
                g.writelines(lines[:at - 1])
            lost, n = json.loads(lines[at - 1]), at - 1
            if os.path.exists(out):
                os.unlink(out)
            p = tlc(t + ".cut") if n else p
            if not n:
                return {"n": 0, "bad": [undefined(lost, pid)], "cov": {}, "states": 0}
        if p.returncode != 0 or not os.path.exists(out):
            keep = os.environ.get("GOAV_KEEP")
            if keep:
                shutil.copy(t, keep)
            raise CheckError("trace specification %s: TLC exit %d\n%s" % (module, p.returncode, p.stdout[-3500:] + p.stderr[-500:]))
        r = json.load(open(out))
        if r["n"] != n:
            raise CheckError("trace specification %s consumed %s of %d events" % (module, r["n"], n))
        if not isinstance(r["cov"], dict):
            r["cov"] = {}
        m = STATS.findall(p.stdout)
        r["states"] = int(m[-1][1]) if m else 0
        if lost:
            r["bad"] = list(r["bad"]) + [undefined(lost, pid)]
        return r

    with ThreadPoolExecutor(CPUS) as ex:
        return list(ex.map(one, range(len(traces))))
