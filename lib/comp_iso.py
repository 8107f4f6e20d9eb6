"""Independent objects used alternately or at the same time: X01."""
import importlib, json, random, re

PIDS = ("X01",)
TRACE_MODULE = "TraceIso"
TRACE_CONSTS = {}
RACE = True
LEVEL_NOTE = ("TLC enumerates every schedule of two or three objects with callbacks up to the evidence's bounds and checks that objects "
              "with work areas of their own satisfy non-interference (and that a shared work area does not). Those schedules and seeded "
              "random ones run pairs and triples of histories of the real objects, switching at every call and callback and on "
              "goroutines of their own (also in a build with the race detector); the specification compares every reply with the "
              "reply given alone. Replies that list map entries are compared as multisets. Trusts the driver and TLC.")
EXPECT = {"X01": ["repeatable", "interleaved", "concurrent"]}
KINDS = ["gop", "codec", "flv", "amf", "ts", "sip", "pipe"]


def specs(pid, tier):
    deep = tier == "thorough"
    return [
        dict(module="Iso", name="iso-two", consts={"Objects": "{1, 2}", "Calls": 2, "Points": 2, "Shared": "FALSE", "Emit": "TRUE"},
             invariants=["NonInterference", "EmitSchedule"], workers=4),
        dict(module="Iso", name="iso-three", consts={"Objects": "{1, 2, 3}", "Calls": 1, "Points": 3 if deep else 2, "Shared": "FALSE",
             "Emit": "FALSE"}, invariants=["NonInterference"], workers=4),
        dict(module="Iso", name="iso-shared", consts={"Objects": "{1, 2}", "Calls": 1, "Points": 1, "Shared": "TRUE", "Emit": "FALSE"},
             invariants=["NonInterference"], workers=1, violated="NonInterference"),
    ]


def order_free(o):
    """Whether a SIP call's answer is the same for every order of map entries (up to the order of bytes)."""
    if o["op"] in ("user", "uri", "via"):
        return sum(b in (59, 44, 10) for b in o.get("s1", [])) < 2
    if o["op"] in ("userb", "urib", "viab", "argstr"):
        return len(o.get("args") or []) < 2
    if o["op"] in ("make", "twice"):
        return len(o.get("args") or []) < 2 and not any(v[:1] in ([32], [9]) for h in o.get("hdrs") or [] for v in h[1:])
    return True


def huge(kind, o):
    """Messages of megabytes: only their size is of interest, to the component's own checks."""
    return kind == "flv" and o.get("num", 0) > 1 << 17 or kind == "amf" and bool(re.search(r'"fill", [0-9]{5}', json.dumps(o)))


def pool(kind, tier, seed):
    """Histories of one kind of object, from its component's own generators."""
    comp = importlib.import_module("comp_" + kind)
    rnd = random.Random("iso-pool/%s/%d" % (kind, seed))
    out = []
    for pid in comp.PIDS:
        ss = comp.scenarios(pid, "quick", seed, [])
        out += [dict(s, pid=pid) for s in rnd.sample(ss, min(len(ss), 150))]
    good = []
    for s in out:
        ops = [o for o in s["ops"] if not huge(kind, o) and (kind != "sip" or order_free(o))]
        if len(ops) > 45:
            k = rnd.randrange(len(ops) - 40) if kind in ("sip",) else 0
            ops = ([ops[0]] if ops[0].get("op") == "new" and k else []) + ops[k:k + 40]
        u = 0
        if kind == "amf":
            ops = [dict(o, fail=-1) if o["op"].startswith("enc") else o for o in ops]
            u = int(any(o["op"].startswith("enc") or o["op"] == "rt" for o in ops))
        elif kind == "sip":
            u = 1
        elif kind == "flv":
            u = int(any(o["op"] == "md" for o in ops))
            if u:
                ops = [dict(o, fail=-1) if "fail" in o else o for o in ops]
        elif kind == "pipe":
            u = int(any(o["op"] == "pub" and o["t"] == 2 for o in ops))
        if len(json.dumps(ops)) < 12000 and len(ops) > 1:
            good.append(dict(c=kind, u=u, ops=ops, pid=s["pid"]))
    return good


def every_call(kind, tier, seed, share):
    """Histories that between them contain every kind of call, with many arguments."""
    comp = importlib.import_module("comp_" + kind)
    rnd = random.Random("iso-calls/%s/%d" % (kind, seed))
    calls = {}
    for pid in comp.PIDS:
        for s in comp.scenarios(pid, "quick", seed, []):
            for o in s["ops"]:
                if o["op"] != "new" and not huge(kind, o) and len(json.dumps(o)) < 3000 and (kind != "sip" or order_free(o)):
                    calls.setdefault((o["op"], str(o.get("fn", "")), str(o.get("ver", ""))), []).append(o)
    ops = [o for k in sorted(calls) for o in rnd.sample(calls[k], min(len(calls[k]), share))]
    rnd.shuffle(ops)
    u = int(kind in ("sip", "amf"))
    if kind == "amf":
        ops = [dict(o, fail=-1) if o["op"].startswith("enc") else o for o in ops]
    return [dict(c=kind, u=u, ops=ops[k:k + 40]) for k in range(0, len(ops), 40)]


def scenarios(pid, tier, seed, behaviours):
    deep = tier == "thorough"
    rnd = random.Random("iso/%s/%d" % (pid, seed))
    pools = {k: pool(k, tier, seed) for k in KINDS}
    scheds = [b["sched"] for b in behaviours]
    out = []

    def add(ops, race=0):
        s = {"sc": len(out), "c": "weave", "ops": ops}
        if race:
            s["race"] = 1
        out.append(s)

    def parts(kind, n):
        ps = [rnd.choice(pools[kind])]
        while len(ps) < n:
            x = rnd.random()
            ps.append(rnd.choice([p for p in pools[kind] if p["pid"] == ps[0]["pid"]] if x < .5 else
                                 pools[kind if x < .9 else rnd.choice(KINDS)]))
        return [{k: v for k, v in p.items() if k != "pid"} for p in ps]

    def random_schedule(n):
        bias = rnd.choice([.5, .8, .2])
        return [rnd.randrange(1, n + 1) if rnd.random() < bias else 1 for _ in range(rnd.randrange(5, 60))]

    k = 0
    for kind in KINDS:
        for _ in range(120 if deep else 24):
            n = 2 if rnd.random() < .75 else 3
            ps = parts(kind, n)
            ops = [dict(op="parts", parts=ps), dict(op="solo")]
            for _ in range(6):
                if n == 2:
                    ops.append(dict(op="weave", sched=scheds[k % len(scheds)]))
                    k += 1
                ops.append(dict(op="weave", sched=random_schedule(n)))
            ops += [dict(op="weave", sched=[]), dict(op="par"), dict(op="par"), dict(op="solo")]
            add(ops)
    # the same calls at the same time in two objects of one kind
    for kind in ("sip", "amf"):
        for h in every_call(kind, tier, seed, 60 if deep else 20):
            add([dict(op="parts", parts=[h, h]), dict(op="par"), dict(op="solo")], race=1)
    for kind in KINDS:
        for _ in range(40 if deep else 8):
            p = {k: v for k, v in rnd.choice(pools[kind]).items() if k != "pid"}
            add([dict(op="parts", parts=[p, p]), dict(op="par"), dict(op="solo")], race=1)
    for kind in KINDS:
        for _ in range(80 if deep else 24):
            n = rnd.choice([2, 3, 4])
            # concurrently first, so that nothing is set up before
            add([dict(op="parts", parts=parts(kind, n)), dict(op="par"), dict(op="solo"), dict(op="par")], race=1)
    return out
