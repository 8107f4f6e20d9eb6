"""A server built from the library: publisher, GOP cache, FLV and TS viewers: P01, P02."""
import random, struct

from comp_codec import asc, avcc, rec
from comp_flv import SET, META, l0, num, s0
from comp_ts import aud, l3, vid

PIDS = ("P01", "P02")
TRACE_MODULE = "TracePipe"
TRACE_CONSTS = {}
LEVEL_NOTE = ("TLC checks the server specification (cache, FLV and TS viewers, each with its own queue) against what the log of "
              "publications and the join position call for, over every short interleaving of publications, joins and deliveries from "
              "several starting histories; those behaviours and long seeded random histories (lagging viewers, header changes, malformed "
              "and unconvertible packets, metadata, cache sizes 0 to 3) run on the real library and every viewer's bytes are judged "
              "by the specification. Viewers are served one at a time; trusts the driver and TLC.")
EXPECT = {
    "P01": ["flv-from-join", "flv-head", "flv-live", "flv-nothing-else", "packets-unchanged", "published", "malformed-not-published"],
    "P02": ["ts-from-join", "ts-tables", "ts-live", "ts-tables-ok", "ts-frames", "ts-times", "ts-random-access", "ts-counters",
            "ts-nothing-else", "packets-unchanged"],
}
PUBS = ["vs", "vs2", "vsX", "as", "as2", "key", "p", "bad", "a", "md", "md2"]
ACTS = ["joinF", "joinT", "stepF", "stepT"]
INVS = ["FlvRight", "TsRight", "StartsAtKey", "EmitBehaviour", "EmitPackets"]


def tset(names):
    return "{" + ",".join('"%s"' % n for n in names) + "}"


def specs(pid, tier):
    deep = tier == "thorough"
    mine = [n for n in PUBS if n not in (("as2", "vsX") if pid == "P01" else ("md", "md2"))]
    acts = [a for a in ACTS if a[-1] == ("F" if pid == "P01" else "T")]
    out = [dict(module="PipeMC", name="pipe-emit", consts={"Depth": 4 if deep else 3, "Cap": 1, "Starts": "{0, 1, 2}", "Emit": "TRUE",
                                                           "Names": tset(mine + acts)},
                invariants=INVS, workers=4, heap="8g")]
    for cap in (0, 1, 2):
        out.append(dict(module="PipeMC", name="pipe-cap%d" % cap,
                        consts={"Depth": 5 if deep else 3, "Cap": cap, "Starts": "{0, 1, 2}", "Emit": "FALSE", "Names": tset(PUBS + ACTS)},
                        invariants=INVS, workers=4, heap="8g"))
    return out


TYPES = {"md": 2, "md2": 2, "as": 1, "as2": 1, "a": 1}


def pub(t, data, ts, lag=0):
    return dict(op="pub", t=t, data=data, ts=l3(ts & 0xffffffff), num=lag)


def join(n, kind):
    return dict(op="join", fn=kind, n=n)


def step(n):
    return dict(op="step", n=n)


def scenarios(pid, tier, seed, behaviours):
    deep = tier == "thorough"
    rnd = random.Random("pipe/%s/%d" % (pid, seed))
    me, other = ("flv", "ts") if pid == "P01" else ("ts", "flv")
    out = []

    def add(cap, ops):
        out.append({"sc": len(out), "c": "pipe", "ops": [dict(op="new", cap=cap)] + ops})

    def rb(n):
        return [rnd.randrange(256) for _ in range(n)]

    # the specification's behaviours; the viewers lag as they say
    pk = [b for b in behaviours if isinstance(b, dict) and "vs" in b]
    for b in behaviours:
        if not (isinstance(b, dict) and "h" in b):
            continue
        ops = []
        for k, n in enumerate(b["h"]):
            if n in ("joinF", "joinT"):
                ops.append(join(1 + (n == "joinT"), "flv" if n == "joinF" else "ts"))
            elif n in ("stepF", "stepT"):
                ops.append(step(1 + (n == "stepT")))
            else:
                p = pk[0][n]
                k = len([o for o in ops if o["op"] == "pub"]) + 1
                ops.append(pub(p["t"], p["d"], 40 * k, 1))
        add(b["cap"], ops + [dict(op="check")])

    def md():
        r = rnd.random()
        obj = []
        for _ in range(rnd.randrange(4)):
            obj += [0, 1, rnd.randrange(97, 103)] + rnd.choice([lambda: [0] + num(rnd.choice([0, 1, 25.5, 44100])), lambda: s0(rb(3)),
                                                               lambda: [1, rnd.randrange(2)], lambda: [5]])()
        if rnd.random() < .3:
            body = [8, 0, 0, 0, rnd.randrange(4)] + obj + [0, 0, 9]
        else:
            body = [3] + obj + [0, 0, 9]
        if r < .1:
            body = body[:-rnd.randrange(1, 4)]
        pre = rnd.choice([s0(SET), s0(SET), []])
        if r > .93:
            return rnd.choice([[], [2], [2, 0, 9, 1], [0] + num(1), [3, 0, 0, 9], l0(SET) + s0(META) + body])
        return pre + s0(META) + body

    def seqv():
        d = vid(rec([103] + rb(rnd.randrange(1, 4)), [104] + rb(rnd.randrange(3))), typ=0)
        return d[:rnd.randrange(8, len(d))] if rnd.random() < .15 else d

    def seqa():
        return aud(asc(2, rnd.randrange(13), rnd.choice([1, 2, 2, 6])), typ=0)[:rnd.choice([4, 4, 4, 4, 4, 3])]

    def frame(ft):
        n = rnd.choice([1, 3, 20, 100, rnd.randrange(120, 200), rnd.randrange(300, 400)])
        cts = rnd.choice([0, 0, 40, 80, -40, 0x7fffff])
        r = rnd.random()
        ns = [[101 if ft == 1 else 65] + rb(n)]
        if r < .2:
            ns.insert(0, rnd.choice([[9, 240], [6] + rb(3), [103] + rb(2)]))
        if r < .93:
            return vid(avcc(ns), ft=ft, cts=cts)
        if r < .96:
            return vid([0, 0, 0, 1, 101] + rb(n), ft=ft, cts=cts)
        return vid([0, 0, 0, 9, 65], ft=ft, cts=cts)

    def malformed():
        return rnd.choice([(0, []), (0, [0x17]), (0, [0x17, 1, 0]), (0, [0x17, 1, 0, 0]), (1, []), (1, [0xaf])])

    def other_packets():
        """What is neither a header nor a frame of the cached codecs."""
        return rnd.choice([(0, vid(rb(5), ft=rnd.choice([3, 4, 5]))), (0, vid(rb(4), typ=2)), (0, vid([1] + rb(4), codec=2, ft=2)),
                           (1, [0x2f] + rb(9)), (1, aud(rb(3), typ=3)), (1, [0x7e, 1, 2]), (0, vid([], typ=1)), (1, aud([]))])

    def history(n, cap, lagging, plain):
        """Random traffic: publications, joins, leaves, deliveries, checks."""
        ops = []
        ts = rnd.choice([0, 0, 5000, (1 << 32) - 400])
        here = {}
        lag = set()
        if rnd.random() < .7:
            for t, d in ((2, s0(SET) + s0(META) + [3, 0, 1, 119, 0] + num(7) + [0, 0, 9]), (0, seqv()), (1, seqa())):
                ops.append(pub(t, d, ts))
        gop = 0
        for k in range(n):
            r = rnd.random()
            ts += rnd.choice([0, 10, 20, 23, 40, 40])
            if r < .08 and len(here) < 4:
                m = len(here) + 1 if len(here) + 1 not in here else max(here) + 1
                here[m] = me if rnd.random() < .7 else other
                ops.append(join(m, here[m]))
            elif r < .1 and here:
                m = rnd.choice(list(here))
                ops.append(dict(op="leave", n=m))
                del here[m]
            elif r < .14:
                ops.append(dict(op="check"))
            elif r < .3 and here and lagging:
                ops.append(step(rnd.choice(list(here))))
            else:
                q = rnd.random()
                if q < .04:
                    p = (0, seqv())
                elif q < .08:
                    p = (1, seqa())
                elif q < .12:
                    p = (2, md())
                elif q < .15 and not plain:
                    p = malformed()
                elif q < .18 and not plain:
                    p = other_packets()
                elif q < .45:
                    p = (1, aud(rb(rnd.choice([1, 5, 100, rnd.randrange(150, 200), 400]))))
                else:
                    p = (0, frame(1 if gop <= 0 else 2))
                    gop = rnd.randrange(1, 6) if gop <= 0 else gop - 1
                ops.append(pub(p[0], p[1], ts, int(lagging)))
        for m in range(9, 11):
            ops.append(join(m, me if m == 9 else other))
        add(cap, ops + [dict(op="check"), pub(0, frame(2), ts + 40), dict(op="check")])

    for k in range(200 if deep else 44):
        history(rnd.randrange(10, 70), rnd.choice([1, 1, 1, 2, 3, 0]), k % 3 == 1, k % 2 == 0)

    # a viewer joins at every point of a fixed program of header changes and groups
    prog = [(2, s0(SET) + s0(META) + [3, 0, 0, 9]), (0, vid(rec([103, 1], [104, 1]), typ=0)), (1, aud(asc(2, 4, 2), typ=0)),
            (0, frame(1)), (1, aud(rb(9))), (0, vid(avcc([[65, 1]]), ft=2)), (0, vid(rec([103, 2], [104, 2]), typ=0)),
            (0, vid(avcc([[65, 2]]), ft=2)), (0, vid(avcc([[101, 3]]), ft=1)), (1, aud(asc(2, 3, 1), typ=0)), (1, aud(rb(200))),
            (0, vid([0, 0, 0, 9, 65], ft=2)), (2, s0(META) + [3, 0, 1, 120, 1, 1, 0, 0, 9]), (0, vid(avcc([[65] + rb(300)]), ft=2, cts=40)),
            (0, vid(avcc([[101, 4]]), ft=1)), (0, vid(avcc([[65, 5]]), ft=2))]
    for cap in (0, 1, 2, 3):
        for j in range(len(prog) + 1):
            ops = []
            for k, (t, d) in enumerate(prog):
                if k == j:
                    ops += [join(1, me), join(2, other), join(3, me)]
                ops.append(pub(t, d, 33 * k, k % 2 if k > j else 0))
                if k == j + 2:
                    ops += [step(2), step(2), dict(op="leave", n=3)]
            if j == len(prog):
                ops.append(join(1, me))
            add(cap, ops + [dict(op="check")])
    # viewers that lag behind each other by one change of headers
    for kind in (me, other):
        for first in (1, 2):
            heads = [(0, vid(rec([103, 1], [104, 1]), typ=0)), (1, aud(asc(2, 4, 2), typ=0))]
            again = [(0, vid(rec([103, 2, 2], [104, 2]), typ=0)), (1, aud(asc(2, 3, 1), typ=0)),
                     (2, s0(SET) + s0(META) + [3, 0, 1, 113, 0] + num(3) + [0, 0, 9])]
            some = [(0, vid(avcc([[101, 5]]), ft=1)), (1, aud([1, 2, 3])), (0, vid(avcc([[65, 6]]), ft=2)), (1, aud([4, 5]))]
            ops = [pub(t, d, 0) for t, d in heads + some]
            ops += [join(1, me), join(2, kind)]
            k = 0
            for t, d in some + again + some + heads + some:
                k += 1
                ops.append(pub(t, d, 40 * k, 1))
            ops.append(join(3, me))
            ops += [step(first)] * (len(some) + len(again) + 2) + [step(3 - first)] * 5
            ops += [step(first), step(3 - first)] * 6
            add(1, ops + [dict(op="check")])
    # a group longer than the cache holds
    add(1, [pub(0, vid(rec([103, 1], [104, 1]), typ=0), 0), pub(0, frame(1), 0)] + [pub(0, vid(avcc([[65, k & 255]]), ft=2), k) for k in range(1060)]
        + [join(1, me), dict(op="check")])
    return out
