"""MPEG transport stream muxer and mixer: T01..T07."""
import random

from comp_codec import asc, avcc, rec

PIDS = ("T01", "T02", "T03", "T04", "T05", "T06", "T07")
TRACE_MODULE = "TraceTs"
TRACE_CONSTS = {}
LEVEL_NOTE = ("TLC checks a transport stream specification (a reference muxer read back by a demultiplexer, over every frame size up to "
              "the evidence's bound, every short history of publications, headers and metadata, and every short sequence of audio "
              "timestamps); those histories, sweeps of sizes, timestamps, names and write failures and seeded random histories run on "
              "the real mixer and muxer, whose packets the specification demultiplexes and judges. Trusts the driver and TLC.")
EXPECT = {
    "T01": ["whole-packets", "start-flag", "payload", "write-failure-reported", "prefix-on-failure"],
    "T02": ["video", "audio", "tables", "after-failure", "rejected-writes-nothing", "caching-writes-nothing", "long-life"],
    "T03": ["header", "timestamps"],
    "T04": ["key-frame", "not-key", "nowhere-else"],
    "T05": ["sdt", "pat", "pmt", "each-table-once", "names-accepted", "long-names-refused", "header-cached", "bad-header-refused",
            "service-descriptor", "network-descriptor", "crc", "pcr-pid", "write-failure-reported"],
    "T06": ["video-time", "audio-time", "updated", "no-rate-no-clock"],
    "T07": ["packet-unchanged", "payload"],
}
ALL = '{"avch","avchB","avchX","aach","aachX","md","mdL","hdr","key","keyL","p","b","bad","a","a2"}'
FEW = '{"avch","aach","hdr","key","keyL","b","bad","a2"}'
INVS = ["WellFormed", "Counting", "ReadBack", "PcrOnlyThere", "TablesOk", "Close", "EmitBehaviour", "EmitPackets"]


def specs(pid, tier):
    deep = tier == "thorough"
    out = []
    if pid in ("T01", "T03", "T04"):
        out.append(dict(module="TsSizes", name="ts-sizes", consts={"MaxLen": 800 if deep else 380, "Clocks": 3 if pid == "T01" and deep else
                                                                   7 if pid != "T01" and deep else 2},
                        invariants=["RoundTrip"], workers=4))
    if pid == "T06":
        out.append(dict(module="TsClock", name="ts-clock", consts={"Depth": 6 if deep else 4, "Emit": "TRUE", "Rates": "{44100, 48000, 8000, 7350, 96000}",
                                                                   "Steps": "{0, 10, 23, 24, 33, 500, 1007}" if deep else "{0, 23, 33, 500, 1007}"},
                        invariants=["NoDrift", "Counted", "Agrees", "EmitBehaviour"], workers=4))
    d = 4 if deep else 3
    out.append(dict(module="TsMC", name="ts-mc", consts={"Depth": d, "Emit": "TRUE", "Names": FEW if deep or pid in ("T01", "T03", "T04", "T07") else ALL},
                    invariants=INVS, workers=4, heap="8g"))
    return out


def l3(n):
    return [n >> 30 & 3, n >> 15 & 32767, n & 32767]


def l5(n):
    """A 64-bit integer as limbs, the first one signed."""
    out = []
    for _ in range(4):
        out.append(n & 32767)
        n >>= 15
    return [n] + out[::-1]


def upd(t, ts, cts=0):
    return dict(op="upd", t=t, ts=l3(ts), cts=l3(cts & 0xffffffff))


def mux(t, data, fail=-1, n=0, dm=0):
    return dict(op="mux", t=t, data=data, fail=fail, n=n, dm=dm)


def mm(t, data, key=0, dts=0, pts=None, fail=-1):
    return dict(op="mmux", t=t, key=key, data=data, dts=l5(dts), pts=l5(dts if pts is None else pts), fail=fail, n=0)


def vid(media, ft=1, typ=1, cts=0, codec=7):
    c = cts & 0xffffff
    return [ft << 4 | codec, typ, c >> 16, c >> 8 & 255, c & 255] + media


def aud(media, typ=1):
    return [0xaf, typ] + media


def hdr(fail=-1):
    return dict(op="hdr", fail=fail)


def md(p=None, s=None):
    def f(x):
        return 0 if x is None else 2 if x == "bad" else 1

    def b(x):
        return [] if x is None or x == "bad" else list(x)
    return dict(op="md", has=[f(p), f(s)], s1=b(p), s2=b(s))


def run(b, n):
    return [(b + k) & 255 for k in range(n)]


RATES = [96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350]


def scenarios(pid, tier, seed, behaviours):
    deep = tier == "thorough"
    rnd = random.Random("ts/%s/%d" % (pid, seed))
    out = []

    def add(ops):
        out.append({"sc": len(out), "c": "ts", "ops": [{"op": "new"}] + ops})

    def rb(n):
        return [rnd.randrange(256) for _ in range(n)]

    AVCH = vid(rec([103, 1, 2], [104, 3]), typ=0)
    AACH = aud(asc(2, 4, 2), typ=0)

    def avch(d=AVCH, n=0, dm=0):
        return dict(op="avch", t=0, data=d, n=n, dm=dm)

    def aach(d=AACH, n=0, dm=0):
        return dict(op="aach", t=1, data=d, n=n, dm=dm)

    # histories of the specification
    pk = [b for b in behaviours if isinstance(b, dict) and "avch" in b]
    for b in behaviours:
        if isinstance(b, list):
            ops = []
            for k, n in enumerate(b):
                ts = 40 * (k + 1)
                if n == "md":
                    ops.append(md(b"p1", b"s"))
                elif n == "mdL":
                    ops.append(md(b"p" * 100, b"s" * 59))
                elif n == "hdr":
                    ops.append(hdr())
                else:
                    p = pk[0][n]
                    if n in ("avch", "avchB", "avchX"):
                        ops.append(avch(p["d"]))
                    elif n in ("aach", "aachX"):
                        ops.append(aach(p["d"]))
                    elif p["t"] == 0:
                        c = p["d"][2] << 16 | p["d"][3] << 8 | p["d"][4]
                        ops += [upd(0, ts, c - (1 << 24) if c >> 23 else c), mux(0, p["d"])]
                    else:
                        ops += [upd(1, ts), mux(1, p["d"])]
            add(ops)
        elif "rate" in b:
            fi = RATES.index(b["rate"])
            ts = 0
            ops = [aach(aud(asc(2, fi, 2), typ=0))]
            for d in b["h"]:
                ts += d
                ops += [upd(1, ts), mux(1, aud([1, 2]))]
            add(ops)

    def frame_v(big=False):
        r = rnd.random()
        n = rnd.choice([1, 3, 20, 100, rnd.randrange(130, 200), rnd.randrange(300, 400)]) if not big else rnd.randrange(1, 1500)
        ft = rnd.choice([1, 2, 2])
        cts = rnd.choice([0, 0, 0, 40, 80, -40, -1, 0x7fffff, -0x800000])
        if r < .8:
            ns = [[101 if ft == 1 else 65] + rb(n)]
            if rnd.random() < .3:
                ns.insert(0, [6] + rb(3))
            return vid(avcc(ns), ft=ft, cts=cts), cts
        if r < .87:
            return vid([0, 0, 0, 1, 101] + rb(n), ft=ft, cts=cts), cts
        if r < .93:
            return vid([0, 0, 0, 9, 65], ft=ft, cts=cts), cts
        return vid([0, 0, 0, 2, 65, 1], ft=ft, cts=cts, codec=rnd.choice([2, 12])), cts

    def history(n, names=True, fails=.05):
        ops = []
        ts = rnd.choice([0, 0, 1000, rnd.randrange(1 << 32), (1 << 32) - 200])
        nts = []
        for _ in range(n):
            r = rnd.random()
            ts = (ts + rnd.choice([0, 10, 20, 23, 24, 40, 40])) & 0xffffffff
            f = rnd.randrange(0, 800) if rnd.random() < fails else -1
            if r < .08:
                ops.append(hdr(f))
            elif r < .12:
                ops.append(avch(vid(rec([103] + rb(rnd.randrange(4)), [104] + rb(rnd.randrange(3)), n=1), typ=0)[:rnd.choice([99, 99, 12])]))
            elif r < .17:
                ops.append(aach(aud(asc(2, rnd.randrange(0, 13), 2), typ=0)[:rnd.choice([4, 4, 4, 3])]))
            elif r < .2 and names:
                ops.append(md(rb(rnd.choice([0, 5, 80])), rb(rnd.choice([0, 5, 78, 79]))))
            elif r < .6:
                d, c = frame_v()
                ops += [upd(0, ts, c), mux(0, d, f)]
            else:
                d = aud(rb(rnd.choice([1, 5, 100, rnd.randrange(150, 200), 400])), typ=rnd.choice([1] * 9 + [2]))
                ops += [upd(1, ts), mux(1, d, f)]
        return ops

    if pid == "T01":
        step = 1
        for k in range(6):
            ops = []
            for n in range(k, 760 if deep else 390, 6):
                ops += [mm(0, run(n, n), 1, 90 * n), mm(0, run(n, n), 0, 90 * n), mm(0, run(n, n), 1, 90 * n, 90 * n + 3600),
                        mm(0, run(n, n), 0, 90 * n, 90 * n + 1), mm(1, run(n, n), 0, 90 * n), mm(1, run(n, n), 1, 90 * n)]
            add(ops)
        for base in [184 * k for k in ((3, 4, 5, 8, 16, 17) if not deep else range(3, 60))]:
            ops = []
            for n in range(base - 32, base + 4):
                ops += [mm(n % 2, run(n, n), 0, n, n + n % 3), mm(0, run(n, n), 1, n, n)]
            add(ops)
        # a writer that fails, everywhere in the first packets
        for key in (0, 1):
            for n in (10, 100, 170, 400):
                ops = []
                for f in list(range(0, 30)) + list(range(180, 196)) + [300, 370, 375, 376, 377, 563, 564, 565, 751, 752, 753]:
                    ops.append(mm(0, run(n, n), key, 77, 77 + n % 20, fail=f))
                    if f % 9 == 0:
                        ops.append(mm(1, run(f, f), 0, 3))
                add(ops)
        for n in (65507, 65535, 65536, 66000, 90000, 140000, 270000) if deep else (65536, 140000):
            add([mm(0, run(n, n), 1, 5, 6), mm(1, run(n, n), 0, 5)])
    if pid == "T03":
        lens = [0, 1, 2, 240, 241, 242, 245, 246, 247, 248, 255, 256, 257, 500, 1000, 4000]
        for t in (0, 1):
            add([mm(t, run(1, n), k, 1000, 1000 + j) for n in lens for j in (0, 90) for k in (0, 1)])
        for n in (65521, 65522, 65523, 65526, 65527, 65528, 65535, 65536):
            add([mm(0, [7] * n, n & 1, 1, 1)])
            add([mm(0, [7] * n, 0, 1, 3600)])
            if n > 65525:
                add([mm(1, [7] * n, 0, 9)])
        add([mm(0, run(4, 140000), 0, 1, 3600), mm(1, run(4, 140000), 0, 1)])
        tss = [0, 1, (1 << 33) - 1, 1 << 33, (1 << 33) + 1, (1 << 34) + 7, (1 << 32) * 90, 0xffffffff * 90, 0xffffffff, 1 << 32, 1 << 62, -1, -90, -3600,
               -(1 << 33), -(1 << 33) - 5, 5 - (1 << 32), 0x155555555, 0xaaaaaaaa]
        tss += [1 << k for k in range(40)] + [(1 << k) - 1 for k in range(2, 40)] + [rnd.randrange(1 << 45) for _ in range(600 if deep else 60)]
        for k in range(0, len(tss), 40):
            ops = []
            for x in tss[k:k + 40]:
                for y in (x, x + 3600, x - 7200, rnd.choice(tss)):
                    if (x - y) % (1 << 33) == 0:
                        y = x
                    ops.append(mm(0, [1, 2], (x + y) % 2, x, y))
                    ops.append(mm(1, [4], 0, x, y))
                ops.append(mm(1, [3], 0, x))
            add(ops)
    if pid == "T04":
        tss = [0, 1, 2, (1 << 33) - 1, 1 << 33, (1 << 33) + 1, (1 << 32) * 90, 0xffffffff * 90, -1, -90, 0x155555555, 0xaaaaaaaa]
        tss += [1 << k for k in range(36)] + [(1 << k) - 1 for k in range(2, 36)] + [rnd.randrange(1 << 40) for _ in range(400 if deep else 60)]
        for k in range(0, len(tss), 25):
            ops = []
            for x in tss[k:k + 25]:
                n = rnd.choice([5, 157, 161, 162, 163, 164, 170, 200, 400])
                ops += [mm(0, run(x & 7, n), 1, x), mm(0, run(2, n), 0, x), mm(1, run(2, n), rnd.randrange(2), x), mm(0, run(2, n), 1, x, x + 3600)]
            add(ops)
        for k in range(8):
            ops = []
            for n in range(k, 390, 8):
                ops += [mm(0, run(n, n), 1, 90 * n + k), mm(0, run(n, n), 0, 90 * n + k), mm(0, run(n, n), 1, 90 * n, 7)]
            add(ops)
        add([mm(0, run(2, n), k, 3, 3 + k) for n in (33000, 66000, 140000) for k in (0, 1)] + [mm(1, run(3, 66000), 1, 4)])
        # key frames by the FLV frame type, whatever the units inside
        ops = [avch()]
        for ft in (1, 2):
            for typ in (101, 65, 6, 103):
                for n in (3, 200, 400):
                    ops += [upd(0, 1000 + n), mux(0, vid(avcc([[typ] + rb(n)]), ft=ft))]
                    ops += [upd(0, 2000 + n), mux(0, vid(avcc([[6, 1], [101] + rb(n)]), ft=ft))]
        add(ops)
    if pid == "T02":
        ops = [avch(), aach()]
        for k in range(40):
            ops += [hdr(), upd(0, 40 * k), mux(0, vid(avcc([[65] + rb(400 if k % 5 == 0 else 9)]), ft=2 - (k % 7 == 0)))]
            if k % 3 == 0:
                ops += [upd(1, 40 * k), mux(1, aud(rb(300)))]
            if k % 4 == 0:
                ops.append([avch(), aach(), md(b"x"), mux(0, vid([0, 0, 0, 7, 1], ft=2)), hdr(100), mux(0, vid(avcc([[65] + rb(600)]), ft=2), fail=200)][k // 4 % 6])
        add(ops)
        add([hdr() for _ in range(70 if not deep else 600)])
        ops = []
        for k in range(60 if not deep else 600):
            ops += [dict(op="pat"), dict(op="pmt", mt=[0, 1]), dict(op="sdt", num=1, s1=[65], s2=[66]), mm(k % 2, run(k, 50 * (k % 7)), int(k % 3 == 0), k)]
        add(ops)
        # tables asked for one by one, each as often as one likes
        for _ in range(60 if deep else 12):
            ops = []
            few = rnd.sample(["pat", "pmt", "sdt", "v", "a"], rnd.randrange(2, 6))
            for k in range(60):
                x = rnd.choice(few)
                ops.append(dict(op="pat") if x == "pat" else dict(op="pmt", mt=rnd.choice([[0, 1], [0], [1]])) if x == "pmt" else
                           dict(op="sdt", num=1, s1=[65], s2=[66]) if x == "sdt" else
                           mm(int(x == "a"), run(k, rnd.choice([1, 100, 200, 500])), rnd.randrange(2), k, fail=rnd.choice([-1] * 9 + [0, 188, 190])))
            add(ops)
        # a long life of it
        def life(num, mt, data=(1, 2), key=0):
            return dict(op="life", num=num, mt=mt, data=list(data), key=key)
        much = 300000 if deep else 70000
        few = [mm(0, [5], 1, 9), mm(1, [6], 0, 9), dict(op="pat"), dict(op="pmt", mt=[0, 1]), dict(op="sdt", num=1, s1=[65], s2=[66])]
        for k in range(5):
            add([few[k], life(much, [[0], [1], [10], [11], [12]][k]), few[k], mm(0, run(1, 400), 1, 9), few[k]])
        add([few[0], life(much // 4, [0], run(1, 700)), few[0], mm(0, run(1, 900), 1, 9), life(1000, [0], key=1), few[0]])
        add(few + [life(much // 10, [0, 1, 1, 10, 0, 0, 11, 12])] + few + [life(257, [1, 10])] + few)
        # (streams that take turns, so that no round number of packets leaves every counter where it was)
        add([few[1], few[0], life(much * 3 // 8, [1, 0, 0]), few[0], few[1]])
        add([few[2], life(much // 4, [10, 10, 11, 12, 0]), few[2], few[3], few[4], few[0]])
        add([hdr(), life(much // 2, [20]), hdr(), hdr()])
        # one long frame alone, and frames that are one packet
        add([mm(0, run(1, 3600), 1, 3), mm(0, run(1, 3600), 0, 3), mm(1, run(1, 3500), 0, 3)] + [mm(k % 2, [k], 0, k) for k in range(70)])
        add([mm(0, run(2, n), k, 3, 3 + k) for n in (66000, 70100) for k in (0, 1)] + [mm(1, run(3, 66000), 0, 4), mm(0, [1], 0, 5), mm(1, [1], 0, 5)])
        for f in range(0, 1000, 47):
            add([mux(1, AACH)] + [x for k in range(3) for x in (mux(0, vid(avcc([[65] + rb(700)]), ft=2), fail=f + k),
                                                                mux(0, vid(avcc([[65, 1]]), ft=2)), mux(1, aud(rb(500)), fail=f), mux(1, aud([1])),
                                                                hdr(f), hdr())])
    if pid == "T05":
        for p in [0, 1, 2, 50, 78, 79, 80, 100, 150, 155, 156, 157, 158, 159, 160, 200, 252, 253, 255, 256, 257, 300, 508, 512]:
            ops = [avch(), aach()] if p % 2 else []
            for s in sorted({0, 1, 5, max(0, 157 - p), max(0, 158 - p), max(0, 159 - p), max(0, 160 - p), max(0, 251 - p), max(0, 252 - p),
                             max(0, 253 - p), max(0, 254 - p), max(0, 255 - p), 256, max(0, 414 - p)}):
                ops += [md(run(65, p), run(97, s)), hdr()]
            add(ops)
            ops = []
            for s in sorted({0, 1, max(0, 251 - p), max(0, 252 - p), max(0, 253 - p), max(0, 256 - p), 255, 256}):
                ops += [dict(op="desc", fn="service", num=(p + s) & 255, s1=run(65, p), s2=run(97, s)), dict(op="desc", fn="network", num=0, s1=run(1, p), s2=[])]
                if p + s + 5 <= 163:
                    ops.append(dict(op="sdt", num=s & 255, s1=run(65, p), s2=run(97, s)))
            add(ops)
        def country(op, k, code):
            return dict(op=op, fn="country", key=k, num=code, s1=[], s2=[])
        add([country("desc", k, c) for k in (0, 1) for c in [0, 1, 0xfff, 0x1000, 0x474252, 0x465241, 0xffffff, 1234] + [1 << i for i in range(24)]])
        # descriptors one after another in one buffer, and in a table
        for _ in range(400 if deep else 60):
            ops, left = [], 163
            for _ in range(rnd.randrange(1, 6)):
                if left >= 7 and rnd.random() < .4:
                    ops.append(country("dadd", rnd.randrange(2), rnd.randrange(1 << 24)))
                    left -= 7
                elif rnd.random() < .5:
                    n = rnd.choice([0, 1, 5, 20, max(0, left - 2), 256, 300])
                    if n < 256 and n + 2 > left:
                        continue
                    left -= n + 2 if n < 256 else 0
                    ops.append(dict(op="dadd", fn="network", num=0, s1=rb(n), s2=[]))
                else:
                    n, m = rnd.choice([0, 1, 9, 30]), rnd.choice([0, 1, 9, 30, 253])
                    if m < 253 and n + m + 5 > left:
                        continue
                    if n + m <= 252:
                        left -= n + m + 5
                        if left < 0:
                            break
                    ops.append(dict(op="dadd", fn="service", num=rnd.randrange(256), s1=rb(n), s2=rb(m)))
                ops.append(dict(op="dsdt"))
            if left >= 0:
                add(ops + [dict(op="sdt", num=1, s1=rb(3), s2=rb(4)), dict(op="dsdt")])
        add([dict(op="desc", fn="network", num=0, s1=run(1, n), s2=[]) for n in (0, 1, 127, 128, 254, 255, 256, 257, 511, 512)])
        for n in range(0, 158, 1 if deep else 5):
            add([hdr(), md(rb(n), rb(157 - n)), hdr(), md(rb(158), rb(1)), hdr(), md(None, rb(3)), hdr(), md("bad", None), hdr()])
        add([x for p in (None, "bad", b"", b"abc") for s in (None, "bad", b"", b"xy") for x in (md(p, s), hdr())])
        add([dict(op="pmt", mt=m) for m in ([], [0], [1], [0, 1], [1, 0], [2], [0, 2], [2, 1])] + [dict(op="pat")] * 3)
        for a in range(3):
            for b in range(3):
                ops = [hdr()]
                for k in range(3):
                    ops += [avch(AVCH[:12]), hdr()] if (a == k) else [avch(), hdr()]
                    ops += [aach(AACH[:3]), hdr()] if (b == k) else [aach(), hdr()]
                add(ops)
        add([hdr(), aach(), hdr(), avch(vid([0, 0, 0, 3, 9, 9], codec=12, typ=0)), hdr(), aach(aud([23, 144], typ=0)), hdr(), avch(), hdr()])
        add([hdr(), avch(), hdr(), aach([0x3f, 0, 1]), hdr(), aach(aud([23, 144], typ=0)), hdr(), aach(aud([], typ=0)), hdr()])
        # headers arriving as published packets do not list a stream
        add([mux(0, AVCH), hdr(), mux(1, AACH), hdr(), avch(), hdr(), mux(1, aud([1, 2])), hdr()])
        for f in range(0, 600, 13):
            add([md(b"p", b"s"), avch(), hdr(f), hdr(), aach(), hdr(f), hdr()])
        ops = []
        for n in list(range(0, 20)) + [100, 183, 188, 300]:
            for _ in range(3):
                ops.append(dict(op="crc", data=rb(n)))
            ops.append(dict(op="crc", data=[0] * n))
            ops.append(dict(op="crc", data=[255] * n))
        add(ops)
        add([dict(op="crc", data=[x]) for x in range(256)])
    if pid == "T06":
        tss = [0, 1, 9, 10, 11, 364, 365, 0xffff, 0x10000, 0xffffff, 0x1000000, 95443717, 95443718, 0x2d82d82, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffffff]
        tss += [1 << k for k in range(32)] + [rnd.randrange(1 << 32) for _ in range(200 if deep else 60)]
        cs = [0, 1, 40, 80, -1, -40, -80, 0x7fffff, -0x800000, 1000, -1000]
        for k in range(0, len(tss), 15):
            ops = [aach()]
            for x in tss[k:k + 15]:
                for c in rnd.sample(cs, 4):
                    ops += [upd(0, x, c), mux(0, vid(avcc([[65, 2]]), ft=2, cts=c))]
                ops += [upd(1, x), mux(1, aud([9]))]
            add(ops)
        # raw 32-bit composition offsets
        ops = []
        for c in [1 << k for k in range(32)] + [(1 << 32) - (1 << k) for k in range(32)]:
            ops += [upd(0, rnd.choice(tss), c), mux(0, vid(avcc([[65, 2]]), ft=2))]
        add(ops)
        # audio at every rate: steady cadence, jitter, gaps, going back, rate changes
        for fi, rate in enumerate(RATES):
            for mode in range(4):
                ops = [aach(aud(asc(2, fi, 2), typ=0))]
                base = rnd.choice([0, 5, 10, 11, 5000, 0xffffffff - 3000])
                if mode in (1, 3) and rnd.random() < .5:
                    # across the ends of narrower counters of milliseconds or ticks
                    base = rnd.choice([1 << 16, 1 << 24, 1 << 31, (1 << 31) // 90, (1 << 32) // 90, (1 << 33) // 90, 3 * (1 << 33) // 90]) - rnd.randrange(100, 400)
                t = 0
                for k in range(120 if deep else 45):
                    if mode == 0:
                        ts = base + k * 1024 * 1000 // rate
                    elif mode == 1:
                        ts = base + k * 1024 * 1000 // rate + rnd.choice([0, 5, -5, 9, -9, 10, -10, 11, -11, 12])
                    elif mode == 2:
                        t += rnd.choice([0, 10, 20, 21, 22, 23, 24, 500, -30])
                        ts = base + t
                    else:
                        t += rnd.choice([1024 * 1000 // rate, 1024 * 1000 // rate + 1])
                        ts = base + t
                    ts = max(0, min(ts, 0xffffffff))
                    ops += [upd(1, ts), mux(1, aud([k]))]
                    if mode == 1 and k % 9 == 4:
                        ops += [upd(0, ts, 40), mux(0, vid(avcc([[65, 1]]), ft=2, cts=40))]
                    if mode == 2 and k % 15 == 7:
                        ops.append(mux(1, aud(asc(2, rnd.randrange(13), 2), typ=0)))
                    if mode == 2 and k % 15 == 11:
                        ops += [upd(1, ts), mux(1, aud([], typ=1))]
                add(ops)
        # long runs on one anchor, and what follows them
        for n in ([300, 1100, 4200, 66000] if deep else [300, 1100, 4200]):
            fi = rnd.randrange(13)
            base = rnd.choice([0, 7, 90000])
            ops = [aach(aud(asc(2, fi, 2), typ=0))]
            for k in range(n):
                ts = base + k * 1024000 // RATES[fi]
                ops.append(upd(1, ts))
                if k % 97 == 0 or k > n - 4:
                    ops.append(mux(1, aud([k & 255])))
            for ts in (ts + 5000, ts + 5000 + 1024000 // RATES[fi], ts + 5000 + 2048000 // RATES[fi], ts - 4000, ts - 4000 + 1024000 // RATES[fi]):
                if ts >= 0:
                    ops += [upd(1, ts), mux(1, aud([1]))]
            add(ops)
        # the threshold to the tick, both sides
        for fi in (3, 4, 11):
            for base in range(0, 40):
                ops = [aach(aud(asc(2, fi, 2), typ=0))]
                for k in range(6):
                    ops += [upd(1, base + k * (1024000 // RATES[fi])), mux(1, aud([k]))]
                add(ops)
        # no audio configuration yet; MP3 only
        add([upd(1, 5), aach(aud([23, 144], typ=0)), upd(1, 6), upd(0, 7), mux(0, vid(avcc([[65, 2]]), ft=2)), aach(), upd(1, 8), mux(1, aud([4]))])
        add([mux(1, [0x2f, 255, 251, 0xf1]), upd(1, 5), mux(1, [0x2f, 255, 251, 0x90]), upd(1, 29), upd(0, 29), mux(0, vid(avcc([[65, 2]]), ft=2)),
             mux(1, AACH), upd(1, 60), mux(1, aud([7]))])
    if pid == "T07":
        for _ in range(200 if deep else 50):
            ps = {}
            for n in range(1, 6):
                r = rnd.random()
                if r < .55:
                    d, _c = frame_v()
                    ps[n] = (0, d)
                elif r < .8:
                    ps[n] = (1, aud(rb(rnd.choice([1, 30, 200])), typ=rnd.choice([1, 1, 1, 2])))
                elif r < .9:
                    ps[n] = (0, AVCH if rnd.random() < .7 else AVCH[:12])
                else:
                    ps[n] = (1, AACH)
            ops = [avch(), aach()] if rnd.random() < .7 else []
            touched = set()
            for k in range(14):
                n = rnd.choice(list(ps))
                t, d = ps[n]
                seq = d[1] == 0
                dm = 1 if n in touched else 0
                touched.discard(n)
                if seq and rnd.random() < .6:
                    ops.append((avch if t == 0 else aach)(d, n, dm))
                    touched.add(n)
                else:
                    ops += [upd(0, 40 * k), mux(t, d, fail=rnd.choice([-1, -1, -1, 0, 188, 200]), n=n, dm=dm)]
            add(ops)
    for _ in range((400 if deep else 40) if pid != "T02" else (600 if deep else 90)):
        add(history(rnd.randrange(5, 30), fails=.15 if pid == "T02" else .05))
    return out
