"""FLV demuxing, muxing and metadata prefixes: F01..F04, T07 for FLV."""
import random, struct

PIDS = ("F01", "F02", "F03", "F04")
ALSO = ("T07",)
TRACE_MODULE = "TraceFlv"
TRACE_CONSTS = {}
LEVEL_NOTE = ("TLC checks the FLV writer specification (files read back as their tags) over all short histories; those histories, every "
              "header byte, every payload and string length class and seeded random histories run on the real code and every call is "
              "judged by the specification, AMF0 payloads by the AMF specification. Trusts the driver and TLC.")
EXPECT = {
    "F01": ["tag", "metadata-tag", "large-tag", "rejected-and-nothing-written", "write-failure-reported", "prefix-on-failure"],
    "F02": ["file-header", "cached-tags", "repeatable", "header-saved", "metadata-saved", "bad-metadata-rejected", "bad-header-rejected",
            "write-failure-reported", "prefix-on-failure"],
    "F03": ["demux-accepted", "demux-rejected", "demux-video-fields", "demux-composition-time", "demux-audio-fields", "media",
            "payload-unchanged", "tag-video-fields", "tag-audio-fields", "tag-length", "tag-composition-time"],
    "T07": ["same-tag-again", "packet-unchanged"],
    "F04": ["added", "kept", "removed", "left", "add-then-remove", "not-a-string-rejected"],
}

SET = list(b"@setDataFrame")
META = list(b"onMetaData")


def specs(pid, tier):
    deep = tier == "thorough"
    invs = ["ReadsBack", "SignatureOk", "FlagsOk", "Timestamps", "EmitBehaviour"]
    return [dict(module="FlvMC", name="flv", consts={"Depth": 5 if deep else 4, "Emit": "TRUE" if pid in ("F01", "F02") else "FALSE"},
                 invariants=invs, workers=4)]


def limbs(n):
    return [n >> 30 & 3, n >> 15 & 32767, n & 32767]


def s0(b):
    return [2, len(b) >> 8, len(b) & 255] + list(b)


def l0(b):
    n = len(b)
    return [12, n >> 24 & 255, n >> 16 & 255, n >> 8 & 255, n & 255] + list(b)


def num(x):
    return list(struct.pack(">d", x))


def mux(t, data, ts=0, fail=-1, n=0, big=0):
    return dict(op="mux", t=t, data=list(data), ts=limbs(ts), fail=fail, n=n, num=big)


def scenarios(pid, tier, seed, behaviours):
    deep = tier == "thorough"
    rnd = random.Random("flv/%s/%d" % (pid, seed))
    out = []

    def add(ops):
        out.append({"sc": len(out), "c": "flv", "ops": [{"op": "new"}] + ops})

    def rb(n):
        return [rnd.randrange(256) for _ in range(n)]

    for b in behaviours:
        ops = []
        for x in b:
            if x[0] in ("avch", "aach"):
                ops.append(dict(op=x[0], t=0 if x[0] == "avch" else 1, data=x[1]))
            elif x[0] == "hdr":
                ops.append(dict(op="hdr", fail=-1))
            else:
                ops.append(dict(op="mux", t=x[1], data=x[2], ts=x[3], fail=-1, n=0, num=0))
        add(ops)

    keys = [list(b"width"), list(b"h"), list(b"@setDataFrame"), [255, 0, 128], [65] * 300]

    def val(d=0):
        r = rnd.random()
        if r < .3:
            return ["num", num(rnd.choice([0.0, 1.5, -3, 1e300, 25]))]
        if r < .45:
            return ["bool", rnd.randrange(2)]
        if r < .65:
            return ["str", rb(rnd.randrange(0, 9))]
        if r < .7:
            return ["nil"]
        if r < .8 and d < 2:
            return ["arr", [val(d + 1) for _ in range(rnd.randrange(3))]]
        if r < .9 and d < 2:
            return obj(d + 1)
        if r < .93 and d == 0:
            return ["fill", rnd.choice([255, 256, 257, 511, 512, 513, 700]), 65]
        return ["int", rnd.choice(["i32", "u8", "int"]), [0, 0, 0, 0, 0, 0, 0, rnd.randrange(128)]]

    def obj(d=0):
        ks = rnd.sample(keys, rnd.randrange(0, 4)) + [rb(rnd.randrange(1, 4)) for _ in range(rnd.randrange(2))]
        seen, ps = set(), []
        for k in ks:
            if tuple(k) not in seen:
                seen.add(tuple(k))
                ps.append([k, val(d)])
        return ["obj", ps]

    def leads():
        xs = [s0(SET), l0(SET), s0(META), l0(META), s0([]), l0([]), s0(SET[:-1]), s0(SET + [0]), s0([64] + SET[1:-1] + [69]),
              [17, 6, 27] + SET, [17, 6, 21] + META, [17, 6, 1], s0([66] * 300), l0([66] * 65536), [12, 0, 1, 0, 0] + [67] * 65536]
        return xs

    def nonstr():
        return [[], [0] + num(1), [1, 1], [5], [6], [3, 0, 0, 9], [10, 0, 0, 0, 0], [8, 0, 0, 0, 0, 0, 0, 9], [11] + [0] * 10,
                [2], [2, 0], [2, 0, 3, 1, 2], [12, 0, 0, 0], [12, 0, 0, 0, 9, 1], [17], [17, 6], [17, 6, 7, 1], [17, 4, 1], [17, 6, 0],
                [7, 0, 0], [4], [14], [255], [16, 0, 1, 97, 0, 0, 9], [12, 255, 255, 255, 255], [12, 127, 255, 255, 255, 1]]

    if pid in ("F01", "F04"):
        tails = [[], [3, 0, 1, 97, 5, 0, 0, 9], s0(META) + [8, 0, 0, 0, 1, 0, 1, 97, 1, 1, 0, 0, 9], s0(SET), s0(SET) + s0(SET), [255, 1, 2]]
        ops = []
        for l in leads():
            for t in tails if len(l) < 1000 else tails[:1]:
                for o in ("addmeta", "delmeta", "adddel"):
                    ops.append(dict(op=o, data=l + t))
                ops += [mux(2, l + t, 5), mux(2, l + t, 5, n=len(ops) + 1)]
                ops.append(mux(2, l + t, 5, n=len(ops)))
            add(ops)
            ops = []
        for l in nonstr():
            for o in ("addmeta", "delmeta", "adddel"):
                ops.append(dict(op=o, data=l))
            ops.append(mux(2, l, 5))
        add(ops)
        for _ in range(200 if deep else 40):
            ops = []
            for _ in range(20):
                d = rnd.choice(leads()[:13]) + rb(rnd.randrange(0, 12))
                if rnd.random() < .3:
                    d = d[:rnd.randrange(len(d) + 1)]
                if rnd.random() < .1 and d:
                    d[rnd.randrange(min(len(d), 5))] = rnd.randrange(256)
                ops.append(dict(op=rnd.choice(["addmeta", "delmeta", "adddel"]), data=d))
                ops.append(mux(rnd.choice([2, 2, 0]), d, rnd.randrange(1 << 32)))
            add(ops)
    if pid in ("F01", "T07"):
        # timestamps: each bit, carries between the fields
        tss = [0, 1, 0xff, 0x100, 0xffff, 0x10000, 0xffffff, 0x1000000, 0x1000001, 0x7fffffff, 0x80000000, 0xff000000, 0xfffffffe, 0xffffffff]
        tss += [1 << k for k in range(32)] + [(1 << k) - 1 for k in range(33)] + [rnd.randrange(1 << 32) for _ in range(60)]
        for t in (0, 1):
            add([mux(t, [23, 1, 2][:1 + k % 3], x) for k, x in enumerate(tss)])
        add([mux(2, s0(META), x) for x in tss])
        # data lengths
        lens = [0, 1, 2, 3, 4, 5, 10, 11, 12, 15, 100, 254, 255, 256, 257, 511, 512, 1000, 65535, 65536, 70000]
        add([mux(k % 2, [(n + j) & 255 for j in range(n)], n) for k, n in enumerate(lens)])
        add([mux(0, [], 1, big=n) for n in (65520, 65535, 65536, 1 << 20, 16777204, 16777214, 16777215)]
            + [mux(0, [], 1, big=n) for n in (16777216, 16777217, 16777300)]
            + [mux(2, s0(SET) + s0(META), 5, big=16777215 - 13 + k) for k in (-1, 0, 1, 16, 17)] + [mux(2, s0(META), 5, big=16777215 - 13 + k) for k in (-16, 0, 1)]
            + [mux(2, s0(SET), 5, big=16777215 + k) for k in (0, 1)] + [mux(0, [23, 1], 1, big=16777213 + k) for k in (0, 1)]
            + [mux(1, [1, 2], 7), mux(0, [], 1, big=33554431), mux(1, [], 1, big=16777216 + 256), mux(0, [3], 8)])
        # kinds
        add([mux(t, d, 3) for t in (0, 1, 2, 3, 4, 8, 9, 18, -1, 255) for d in ([], [23, 0, 0, 0, 0], s0(META), s0(SET) + s0(META))])
        # a writer that fails at each byte
        for t, d in ((0, [23, 1, 0, 0, 0, 9, 9]), (1, []), (2, s0(SET) + s0(META))):
            ops = []
            for f in range(0, 34):
                ops.append(mux(t, d, 77, fail=f))
                if f % 7 == 0:
                    ops.append(mux(t, d, 78))
            add(ops)
        # the same packet again, interleaved with others
        for _ in range(20):
            ops = []
            ps = {n: (t, d) for n, (t, d) in enumerate([(0, rb(6)), (1, rb(3)), (2, s0(SET) + s0(META) + rb(3)), (2, l0(SET) + s0(META)),
                                                       (2, s0(META) + rb(4))], 1)}
            for _ in range(20):
                n = rnd.choice(list(ps))
                ops.append(mux(ps[n][0], ps[n][1], rnd.randrange(1 << 32), n=n, fail=rnd.choice([-1, -1, -1, rnd.randrange(40)])))
            add(ops)
    if pid in ("F02", "T07"):
        for _ in range(400 if deep else 120):
            ops = []
            for _ in range(rnd.randrange(4, 25)):
                r = rnd.random()
                if r < .18:
                    v = obj()
                    if rnd.random() < .15:
                        v[1].append([[122], rnd.choice([["bad"], ["obj", [[[], ["nil"]]]], ["arr", [["bad"]]]])])
                    elif rnd.random() < .03:
                        v[1].append([[121], ["fill", rnd.choice([65535, 65536]), 66]])
                    ops.append(dict(op="md", val=v))
                elif r < .3:
                    if rnd.random() < .15:
                        ops.append(dict(op=rnd.choice(["avch", "aach"]), t=rnd.choice([3, -1, 8, 9, 18]), data=rb(7)))
                        continue
                    ops.append(dict(op="avch", t=0, data=[23, 0, 0, 0, 0] + rb(rnd.choice([0, 1, 5, 20, 250, 600]))))
                elif r < .42:
                    ops.append(dict(op="aach", t=1, data=[175, 0] + rb(rnd.choice([0, 2, 5]))))
                elif r < .8:
                    ops.append(dict(op="hdr", fail=-1))
                    if rnd.random() < .4:
                        ops.append(dict(op="hdr", fail=rnd.randrange(0, 60)))
                        ops.append(dict(op="hdr", fail=-1))
                else:
                    ops.append(mux(rnd.choice([0, 1, 3]), rb(rnd.randrange(2, 9)), rnd.randrange(1 << 32)))
            add(ops + [dict(op="hdr", fail=-1)])
        base = [dict(op="md", val=["obj", [[[97], ["bool", 1]]]]), dict(op="avch", t=0, data=[23, 0, 0, 0, 0, 1]),
                dict(op="aach", t=1, data=[175, 0, 18, 16]), dict(op="hdr", fail=-1)]
        # headers of every size
        for k in (200, 500, 512, 513, 1023, 1024, 4096, 5000, 9000):
            a, b = dict(op="avch", t=0, data=[23, 0, 0, 0, 0] + rb(k)), dict(op="aach", t=1, data=[175, 0] + rb(k))
            add(base + [a, base[3], b, base[3], base[1], base[3], b, a, base[3]])
        # what is refused leaves no trace, whatever is cached
        bad = [dict(op="md", val=["obj", [[[97], ["bad"]]]]), dict(op="avch", t=3, data=[23, 0, 0, 0, 0, 2]), dict(op="aach", t=9, data=[175, 0, 1]),
               dict(op="md", val=["obj", []], num=16777216), dict(op="avch", t=0, data=[], num=16777216), dict(op="aach", t=1, data=[], num=33554433)]
        for k, x in enumerate(bad):
            for n in range(4):
                add(base[:n] + [x, base[3], bad[k - 1], base[3]] + base[n:] + [x, base[3]])
        add(base + [dict(op="hdr", fail=f) for f in range(0, 90)] + [dict(op="hdr", fail=-1)])
    if pid == "F03":
        # every first byte x packet type class, short payloads
        for t in (0, 1):
            for o in ("demux", "tag"):
                ops = []
                for x in range(256):
                    for d in ([x, 1, 0, 0, 0], [x, x & 3, 255, 255, 254, 7], [x, 1], [x]):
                        ops.append(dict(op=o, t=t, data=d))
                    if len(ops) > 200:
                        add(ops)
                        ops = []
                add(ops)
        ops = []
        for t in (-1, 0, 1, 2, 3, 8, 9, 18):
            for n in range(8):
                ops += [dict(op="demux", t=t, data=[23, 1, 2, 3, 4, 5, 6, 7][:n]), dict(op="demux", t=t, data=[175, 1, 2, 3, 4, 5, 6, 7][:n]),
                        dict(op="tag", t=t, data=[39, 1, 2, 3, 4, 5, 6, 7][:n])]
        add(ops)
        # packet types
        for ft in (1, 2, 3, 5):
            ops = []
            for x in range(256):
                ops.append(dict(op=("demux", "tag")[x % 2], t=0, data=[ft << 4 | 7, x, 1, 2, 3, 9]))
            add(ops)
        ops = []
        for x in range(256):
            ops += [dict(op="demux", t=1, data=[175, x, 9]), dict(op="tag", t=1, data=[47, x, 9]), dict(op="tag", t=1, data=[160 | x & 15, x])]
        add(ops)
        # composition times
        cs = [0, 1, 255, 256, 65535, 65536, 0x7fffff, 0x800000, 0x800001, 0xffffff, 0xfffffe, 0xffff00, 0xff0000, 0x800100]
        cs += [1 << k for k in range(24)] + [rnd.randrange(1 << 24) for _ in range(60)]
        ops = []
        for c in cs:
            for typ in (1, 1, 0, 2):
                ops += [dict(op=("tag", "demux")[typ % 2 if c % 2 else 0], t=0, data=[rnd.choice([23, 39, 55]), typ, c >> 16, c >> 8 & 255, c & 255])]
        add(ops)
        for _ in range(300 if deep else 60):
            ops = []
            for _ in range(40):
                t = rnd.choice([0, 0, 1, 1, 2])
                d = rb(rnd.choice([0, 1, 2, 4, 5, 6, 9, 30]))
                if d and rnd.random() < .7:
                    d[0] = rnd.choice([23, 39, 28, 55, 87]) if t == 0 else rnd.choice([175, 47, 162, 34])
                ops.append(dict(op=rnd.choice(["demux", "tag", "tag"]), t=t, data=d))
                if ops[-1]["op"] == "demux" and rnd.random() < .5:
                    ops[-1]["n"] = rnd.choice([1, 1, 2])  # packets filled again
            add(ops)
    return out
