"""What calls were given and gave stays as it is: X02."""
import importlib, json, random

from comp_iso import huge

PIDS = ("X02",)
TRACE_MODULE = "TraceKeep"
TRACE_CONSTS = {}
LEVEL_NOTE = ("TLC checks that an object which builds results in memory of its own and only reads its arguments leaves everything "
              "its caller holds undisturbed over every history of calls up to the evidence's bound, and refutes three designs that "
              "reuse or overwrite memory. Those histories, of calls drawn from every other component's scenarios, and whole "
              "scenarios run on the real objects; after each call the driver looks again at the last arguments (with the memory "
              "behind them) and results, and the specification judges. Trusts the driver and TLC.")
EXPECT = {"X02": ["arguments-unchanged", "results-unchanged"]}
KINDS = ["gop", "codec", "flv", "amf", "ts", "sip", "pipe"]
BIG = 20000


def specs(pid, tier):
    deep = tier == "thorough"
    n = 5 if deep else 4
    base = {"Kinds": "{1, 2, 3}", "Calls": n, "Reuse": "FALSE", "Scratch": "FALSE", "Spill": "FALSE", "Emit": "TRUE"}
    out = [dict(module="Keep", name="keep", consts=base, invariants=["Undisturbed", "EmitHistory"], workers=2)]
    for w in ("Reuse", "Scratch", "Spill"):
        out.append(dict(module="Keep", name="keep-" + w.lower(), consts=dict(base, **{w: "TRUE", "Emit": "FALSE", "Calls": 2}),
                        invariants=["Undisturbed"], workers=1, violated="Undisturbed"))
    return out


def meaningful(kind, ops):
    """Without the calls that mean nothing where a history was cut or repeated: a consumer who never joined
    takes nothing, and a table of services holds what fits in its packet."""
    out, joined, held = [], set(), 0
    for o in ops:
        if kind == "pipe":
            if o["op"] == "new":
                joined = set()
            elif o["op"] == "join":
                joined.add(o["n"])
            elif o["op"] in ("leave", "step") and o["n"] not in joined:
                continue
            if o["op"] == "leave":
                joined.discard(o["n"])
        elif kind == "ts":
            if o["op"] == "new":
                held = 0
            elif o["op"] == "dadd":
                more = 12 + len(o.get("s1") or []) + len(o.get("s2") or [])
                if held + more > 150:
                    continue
                held += more
        out.append(o)
    return out


def scenarios(pid, tier, seed, behaviours):
    deep = tier == "thorough"
    rnd = random.Random("keep/%s/%d" % (pid, seed))
    hists = [b["kinds"] for b in behaviours]
    out = []

    def add(kind, ops):
        ops = meaningful(kind, ops)
        if len(ops) > 1:
            out.append({"sc": len(out), "c": kind, "keep": 1, "ops": ops})

    for kind in KINDS:
        comp = importlib.import_module("comp_" + kind)
        for p in comp.PIDS:
            pool = comp.scenarios(p, "quick", seed, [])
            pool = [s for s in pool if len(s["ops"]) > 1]
            # whole histories
            for s in rnd.sample(pool, min(len(pool), 120 if deep else 25)):
                ops = [o for o in s["ops"] if len(json.dumps(o)) < BIG and not huge(kind, o)]
                k = rnd.randrange(max(1, len(ops) - 60))
                add(kind, ops[:3] + ops[3 + k:60 + k])
            # histories of the specification: the calls of kinds 1, 2 and 3 are calls of such a history
            for _ in range(120 if deep else 30):
                s = rnd.choice(pool)
                ops = [o for o in s["ops"] if len(json.dumps(o)) < BIG and not huge(kind, o)]
                if len(ops) < 2:
                    continue
                setup = ops[:rnd.choice([1, 1, 2, 3, 4])]
                calls = [rnd.choice(ops[1:]) for _ in range(3)]
                seq = list(setup)
                for h in rnd.sample(hists, 4):
                    seq += [calls[k - 1] for k in h]
                add(kind, seq)
    return out
