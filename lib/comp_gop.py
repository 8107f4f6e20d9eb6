"""GOP cache: G01..G03."""
import random

from comp_ts import l3

PIDS = ("G01", "G02", "G03")
COMPONENT = "gop"
TRACE_MODULE = "TraceGop"
TRACE_CONSTS = {"MaxGop": 1024}
LEVEL_NOTE = ("TLC checks exhaustively, up to the evidence's bounds, that a ring of groups refines the abstract GOP cache and that "
              "the cache has the stated properties; every enumerated behaviour plus seeded long histories is run on the real cache "
              "and every reply judged by the specification. Trusts the driver, TLC, and that longer histories behave like these.")

DATA = {
    "key": [0, [0x17, 1, 0, 0, 0, 1, 2]],
    "inter": [0, [0x27, 1, 0, 0, 0, 3]],
    "vseq": [0, [0x17, 0, 0, 0, 0, 1, 100]],
    "aseq": [1, [0xAF, 0, 0x12, 0x10]],
    "md": [2, [2, 0, 1, 97]],
}
OTHERS = [[1, [0xAF, 1, 9, 9]], [1, [0x2F, 0, 1]], [0, [0x57, 1, 0, 0, 0]], [0, [0x37, 0, 0, 0, 0]], [3, [1, 2]],
          [1, [0x2A, 0]], [1, [0x2F, 1]], [1, [0xAF, 2, 0]], [0, [0x47, 1, 0, 0, 0, 9]], [0, [0x07, 1, 0, 0, 0]]]
FORMS = {"key": [[0x17, 1], [0x17, 2], [0x12, 1], [0x1C, 1], [0x14, 200]],
         "inter": [[0x27, 1], [0x27, 2], [0x22, 7], [0x27, 0], [0x2C, 1]],
         "vseq": [[0x17, 0], [0x17, 0], [0x1C, 0], [0x16, 0], [0x12, 0]], "aseq": [[0xAF, 0], [0xA0, 0], [0xA2, 0]]}


def write(kind, n, rnd=None, fn="", ts=None):
    if kind == "other":
        t, d = OTHERS[(n if rnd is None else rnd.randrange(1 << 20)) % len(OTHERS)]
    else:
        t, d = DATA[kind]
        if rnd is not None and kind != "md":
            d = rnd.choice(FORMS[kind]) + ([0, 0, rnd.randrange(256)] if t == 0 else [])
            d = d + [rnd.randrange(256) for _ in range(rnd.choice([0, 1, 2, 3, 3, 3, 40]))]
        elif rnd is not None:
            d = rnd.choice([[2, 0, 1, 97], [2, 0, 1, 97], []]) + [5] * rnd.randrange(4)
    op = {"op": "write", "t": t, "data": d, "n": n, "ts": l3(7 * n if ts is None else ts)}
    if rnd is not None and rnd.random() < 0.3 and t in (0, 1):
        op["fn"] = "video" if t == 0 else "audio"
    return op


INVS = ["TypeOK", "Refines", "StartsAtKey", "InOrder", "LastGops", "NewestKept", "LatestHeaders", "Bounded",
        "PrefixOnFailure", "EmitBehaviour"]


def specs(pid, tier):
    deep = tier == "thorough"
    return [
        dict(module="GopRing", name="gopring-emit", consts={"MaxGop": 2, "Caps": "{0, 1, 2, 3}", "Depth": 5 if deep else 4,
             "Emit": "TRUE"}, invariants=INVS, properties=["ResultAgrees"], workers=4),
        dict(module="GopRing", name="gopring-deep", consts={"MaxGop": 3, "Caps": "{1, 2, 3}", "Depth": 8 if deep else 6,
             "Emit": "FALSE"}, invariants=INVS, properties=["ResultAgrees"], workers=8),
    ]


def scenarios(pid, tier, seed, behaviours):
    deep = tier == "thorough"
    rnd = random.Random("gop/%s/%d" % (pid, seed))
    out = []

    def add(ops):
        out.append({"sc": len(out), "c": "gop", "ops": ops})

    # every behaviour of the specification, read after every write
    for b in behaviours:
        ops = [{"op": "new", "cap": b["cap"]}, {"op": "send", "fail": 0}]
        for n, k in enumerate(b["h"], 1):
            ops += [write(k, n), {"op": "send", "fail": 0}]
        add(ops)
    # every failing write of a reader
    for cap in (1, 2, 3):
        for nfail in range(1, 12):
            ops = [{"op": "new", "cap": cap}]
            for n, k in enumerate(["md", "vseq", "aseq", "key", "inter", "key", "inter", "inter"], 1):
                ops.append(write(k, n))
            ops += [{"op": "send", "fail": nfail}, {"op": "send", "fail": 0}, {"op": "send", "fail": nfail, "num": 1}, write("key", 20),
                    {"op": "send", "fail": nfail}, {"op": "send", "fail": nfail, "num": 1}, write("inter", 21), {"op": "send", "fail": 0}]
            add(ops)
    # the largest group, in every slot of the ring
    for cap in ([1, 2, 3] if not deep else [1, 2, 3, 4, 6]):
        for full in range(cap + 1):
            ops = [{"op": "new", "cap": cap}]
            n = 0
            for g in range(full):
                n += 1
                ops.append(write("key", n))
                n += 1
                ops.append(write("inter", n))
            n += 1
            ops.append(write("key", n))
            for _ in range(1027):
                n += 1
                ops.append(write("inter", n))
                if n % 341 == 0:
                    ops.append({"op": "send", "fail": 0})
            ops.append({"op": "send", "fail": 0})
            n += 1
            ops.append(write("vseq", n))
            for _ in range(cap + 1):
                n += 1
                ops.append(write("key", n))
                n += 1
                ops.append(write("inter", n))
                ops.append({"op": "send", "fail": 0})
            # the slot of the full group is used again
            for _ in range(1025 if full == 0 else 5):
                n += 1
                ops.append(write("inter", n))
            ops.append({"op": "send", "fail": 0})
            add(ops)
    # a group whose packets all have one timestamp, or whose timestamps decrease
    for step in (0, -1, 1 << 30):
        ops = [{"op": "new", "cap": 2}, write("key", 1, ts=5000)]
        for n in range(2, 1030):
            ops.append(write("inter", n, ts=(5000 + step * n) % (1 << 32)))
        ops += [{"op": "send", "fail": 0}, write("key", 2000, ts=5000), write("inter", 2001, ts=5000), {"op": "send", "fail": 0}]
        add(ops)
    # large rings, filled and turned
    for cap in ([17, 33, 100, 255, 256, 257, 300] if deep else [rnd.choice([17, 33, 64]), 255 + rnd.randrange(3), 300]):
        ops = [{"op": "new", "cap": cap}]
        turn = rnd.randrange(1, cap)
        for n in range(1, 2 * cap + turn):
            ops.append(write("key", n))
            if rnd.random() < .1:
                ops.append(write("inter", n))
            if n in (turn, cap - 1, cap, cap + 1, cap + turn):
                ops.append({"op": "send", "fail": 0})
        ops.append({"op": "send", "fail": 0})
        add(ops)
    # long random histories
    for _ in range(300 if deep else 60):
        cap = rnd.choice([0, 1, 1, 2, 3, 4, 5, 8, 16])
        ops = [{"op": "new", "cap": cap}]
        now = 0
        pk = rnd.choice([0.05, 0.2, 0.5, 0.9])
        for n in range(1, rnd.randrange(10, 120)):
            x = rnd.random()
            k = "key" if x < pk else rnd.choice(["inter", "inter", "inter", "vseq", "aseq", "md", "other", "key"])
            now += rnd.choice([0, 0, 0, 1, 40, -40, 1 << 31])
            ops.append(write(k, n, rnd, ts=now % (1 << 32)))
            y = rnd.random()
            if y < 0.1:
                ops.append({"op": "send", "fail": rnd.randrange(1, 20), "num": rnd.randrange(2)})
            elif y < 0.35:
                ops.append({"op": "send", "fail": 0})
        ops.append({"op": "send", "fail": 0})
        add(ops)
    return out
