"""Codec parser: C01..C05."""
import random

PIDS = ("C01", "C02", "C03", "C04", "C05")
TRACE_MODULE = "TraceCodec"
TRACE_CONSTS = {}
LEVEL_NOTE = ("TLC checks a specification of the AVC, AAC and MP3 parsers against independent statements of the properties over every "
              "history of a packet alphabet up to the evidence's depth; every such history, structured sweeps (lengths, truncations, "
              "all header values) and seeded random histories run on the real parser and each call is judged by the specification. "
              "Trusts the driver and TLC; units of a GiB and more, records of another version or without SPS or PPS are outside.")
EXPECT = {
    "C01": ["annexb", "passed-through", "prefix-on-failure", "write-failure-reported"],
    "C02": ["record-accepted", "bad-record-refused", "annexb"],
    "C03": ["adts", "config-accepted", "bad-config-refused", "frame-before-config-refused", "frame-size-refused"],
    "C04": ["unit-refused", "codec-refused", "packet-type-refused", "short-mp3-refused", "annexb", "adts", "packet-unchanged"],
    "C05": ["aac-rate", "mp3-rate", "no-rate-before-audio", "mp3-accepted", "bad-config-refused"],
}
ALL = '{"recA","recB","recX","recM","recMX","rec2","idr2","idr","mix","own","late","p","sets","cut","zero","type","annexb","hevc","cfgA","cfgB","cfgX","cfgS","raw","raw0","aac2","mp3","mp3s"}'
VID = '{"recA","recB","recX","recM","recMX","rec2","idr2","idr","mix","own","late","cut","zero","annexb"}'
AUD = '{"cfgA","cfgB","cfgX","cfgS","raw","raw0","aac2","mp3","mp3s"}'
INVS = ["AnnexBOut", "AnnexBIn", "Refusals", "AdtsOut", "Rates", "EmitBehaviour", "EmitPackets"]


def specs(pid, tier):
    deep = tier == "thorough"
    names = VID if pid in ("C01", "C02") else AUD if pid in ("C03", "C05") else ALL
    d = (4 if deep else 3) if pid != "C04" else (3 if deep else 2)
    return [
        dict(module="CodecMC", name="codec-emit", consts={"Depth": d, "Emit": "TRUE", "Names": names},
             invariants=INVS, properties=["NoTrace"], workers=4),
        dict(module="CodecMC", name="codec-all", consts={"Depth": 4 if deep else 3, "Emit": "FALSE", "Names": ALL},
             invariants=INVS, properties=["NoTrace"], workers=4),
    ]


def nal(b, n=None, ls=4):
    n = len(b) if n is None else n
    return [n >> 24 & 255, n >> 16 & 255, n >> 8 & 255, n & 255][4 - ls:] + b


def avcc(ns, ls=4):
    return [x for n in ns for x in nal(n, ls=ls)]


def vid(media, ft=1, typ=1, codec=7, cts=(0, 0, 0)):
    return dict(op="parse", t=0, data=[ft << 4 | codec, typ] + list(cts) + media)


def aud(media, typ=1, fmt=10, low=15):
    return dict(op="parse", t=1, data=[fmt << 4 | low] + ([typ] if fmt == 10 else []) + media)


def rec(sps, pps, extra=(), n=1, m=1, ver=1, hdr=(100, 0, 31, 255)):
    return ([ver] + list(hdr) + [224 | n] + [len(sps) >> 8, len(sps) & 255] + sps
            + [m] + [len(pps) >> 8, len(pps) & 255] + pps + list(extra))


def recs(ss, ps, extra=(), ls=4):
    """A record with any number of parameter sets and any size of the lengths."""
    return ([1, 100, 0, 31, 251 + ls, 224 | len(ss)] + [x for s in ss for x in [len(s) >> 8, len(s) & 255] + s]
            + [len(ps)] + [x for s in ps for x in [len(s) >> 8, len(s) & 255] + s] + list(extra))


def asc(ot, fi, ch, extra=()):
    v = ot << 11 | fi << 7 | ch << 3
    return [v >> 8, v & 255] + list(extra)


def scenarios(pid, tier, seed, behaviours):
    deep = tier == "thorough"
    rnd = random.Random("codec/%s/%d" % (pid, seed))
    out = []
    rate = {"op": "rate"}

    def add(ops):
        for o in ops:
            o.setdefault("fail", -1)
        out.append({"sc": len(out), "c": "codec", "ops": [{"op": "new"}] + ops})

    def rb(n, lo=0):
        return [rnd.randrange(lo, 256) for _ in range(n)]

    # every history of the specification's alphabet
    pk = [b for b in behaviours if isinstance(b, dict)]
    for b in behaviours:
        if isinstance(b, list):
            ops = []
            for n in b:
                p = pk[0][n]
                ops.append(dict(op="parse", t=p["t"], data=p["d"]))
                if p["t"] == 1 and pid in ("C04", "C05"):
                    ops.append(rate)
            add(ops)

    def unit(maxn=12, types=(1, 5, 6, 7, 8, 9)):
        t = rnd.choice(types)
        r = rnd.random()
        n = rnd.randrange(0, 3) if r < .3 else rnd.randrange(0, maxn) if r < .97 else rnd.randrange(200, 700)
        body = rb(n)
        if rnd.random() < .15:
            body = [0, 0, 0, 1] + body
        return [rnd.choice([0, 32, 64, 96] if rnd.random() < .9 else [128, 160, 192, 224]) | t] + body

    def video():
        r = rnd.random()
        ns = [unit() for _ in range(rnd.choice([1, 1, 2, 3, 4, 6]))]
        ls = cur[0] if rnd.random() < .93 else rnd.randrange(1, 5)
        if ls == 1:
            ns = [n[:255] for n in ns]
        m = avcc(ns, ls)
        if r < .55:
            pass
        elif r < .62:
            m = m[:rnd.randrange(len(m))]
        elif r < .66:
            m += [0] * rnd.randrange(1, 5)
        elif r < .70:
            m += rb(rnd.randrange(1, 4))
        elif r < .75:
            i = rnd.randrange(len(ns) + 1)
            m = avcc(ns[:i] + [[rnd.choice([0, 2, 3, 4, 10, 11, 12, 13, 19, 24, 28, 31])] + rb(2)] + ns[i:], ls)
        elif r < .78:
            m = avcc(ns, ls) + nal([65] + rb(3), rnd.choice([5, 9, 0xffffff, 0x7fffffff, 0xffffffff, 0x80000000]), ls)
        elif r < .86:
            m = [0, 0, 0, 1] + rb(rnd.randrange(0, 20))
        elif r < .90:
            m = rb(rnd.randrange(0, 24))
        elif r < .93:
            m = avcc([[0x65] + rb(2)], ls) + [0, 0, 0, 1]     # a start code behind the first unit
        return vid(m, ft=rnd.choice([1, 1, 2]), codec=7 if rnd.random() < .95 else rnd.choice([2, 3, 4, 5, 6, 8, 12, 13]),
                   typ=rnd.choice([1, 1, 1, 1, 1, 2, 3]), cts=rb(3))

    cur = [4]

    def vseq():
        r = rnd.random()
        sps = [103] + rb(rnd.choice([0, 1, 3, 9, 30]))
        pps = [104] + rb(rnd.choice([0, 1, 2, 5]))
        if rnd.random() < .3:       # sets that have to do with one another
            sps = [103] + rb(2) + pps + rb(rnd.randrange(3))
            pps = rnd.choice([pps, sps, sps[:2], sps[1:], pps + [0], [0, 0, 0, 1] + sps])
        extra = rb(rnd.choice([0, 0, 1, 2, 3, 4, 4, 11]))
        ls = rnd.choice([1, 2, 3, 4, 4, 4, 4])
        b = rec(sps, pps, extra, hdr=rb(3) + [rnd.randrange(64) << 2 | ls - 1])
        if rnd.random() < .35:
            some = lambda t, n: [[t] + rb(rnd.choice([0, 0, 1, 4, 20])) for _ in range(n)]
            b = recs(some(103, rnd.choice([1, 1, 2, 3, 31])), some(104, rnd.choice([1, 2, 3, 5, 40])), extra, ls)
        if r >= .5:
            cur[0] = ls
        if r < .3:
            b = b[:rnd.randrange(len(b))]
        elif r < .4:
            b = rec(sps, [], rb(4))
        elif r < .45:
            b = rec([], pps, rb(4))
        elif r < .5:
            b[6:8] = rnd.choice([[255, 255], [0, len(sps) + len(pps) + 2], [0, 1], [1, 0]])
        elif r < .53:
            b = rec(sps, pps, n=rnd.choice([0, 2, 31]), m=rnd.choice([1, 2, 0]))
        return vid(b, typ=0)

    def audio():
        r = rnd.random()
        if r < .6:
            n = rnd.choice([1, 2, 3, 5, 16, 100, 255, 256, 300])
            if rnd.random() < .03:
                n = rnd.choice([2040, 2041, 2042, 8183, 8184, 8185, 8191, 8192])
            return aud(rb(n))
        if r < .66:
            return aud([])
        if r < .72:
            return aud(rb(rnd.randrange(0, 5)), typ=rnd.choice([2, 3, 16, 255]))
        if r < .9:
            return aud(rb(rnd.randrange(0, 9)), fmt=2)
        return aud(rb(rnd.randrange(1, 5)), fmt=rnd.choice([0, 1, 3, 5, 7, 11, 14, 15]))

    def aseq():
        r = rnd.random()
        if r < .2:
            return aud(rb(rnd.randrange(0, 2)), typ=0)
        fi = rnd.randrange(0, 16) if r < .6 else rnd.choice([3, 4, 7, 8, 11])
        return aud(asc(rnd.randrange(0, 32) if r < .5 else rnd.choice([1, 2, 3, 4]), fi, rnd.randrange(0, 16) if r < .5 else rnd.randrange(1, 8),
                       rb(rnd.choice([0, 0, 3]))), typ=0)

    if pid in ("C01", "C02", "C04"):
        # every record length: SPS and PPS sizes, trailing bytes, every truncation
        for a in range(1, 9):
            for b in range(1, 6):
                full = rec([103] + list(range(1, a)), [104] + list(range(20, 19 + b)), [253, 248, 248, 0])
                ops = []
                for extra in range(5):
                    ops += [vid(full[:len(full) - extra], typ=0), vid(avcc([[101, 9]]))]
                for cut in range(len(full) - 4):
                    ops += [vid(full[:cut], typ=0), vid(avcc([[101, 8]]))]
                if pid != "C01" or (a + b) % 3 == 0:
                    add(ops)
        # sets that contain, begin or repeat one another, or start codes
        S, P = [103, 1, 104, 7, 9], [104, 7]
        for ss, ps in (([S], [P]), ([P], [S]), ([S], [S]), ([S, S], [P, P]), ([S, S[:3]], [P, S]), ([S[2:4], S], [P, P[:1], P]),
                       ([[0, 0, 0, 1] + S], [[0, 0, 0, 1] + P]), ([S + [0, 0, 0, 1] + P], [P]), ([[0]], [[0, 0]]), ([S], [S + P])):
            ops = [vid(avcc([[101, 1]])), vid(recs(ss, ps), typ=0), vid(avcc([[101, 1], [101, 2]]))]
            for own in ([S, P], [P, S], [P], [S], [S, P, S], [P, P], [S, S + P, P]):
                ops += [vid(avcc(own + [[101, 2]])), vid(avcc(own)), vid(avcc([[6] + S] + own + [[101] + S, [101] + P, [65]]))]
            ops += [vid(recs(ps, ss), typ=0), vid(avcc([[101, 2]])), vid(recs(ss, ps), typ=0), vid(avcc([[101, 3]]))]
            add(ops)
        # units whose lengths look like start codes
        for cfg in (0, 1):
            ops = [vid(rec([103, 1, 2], [104, 3]), typ=0)] if cfg else []
            for n in (1, 2, 256, 257, 258, 511, 513, 65537):
                u = [65] + [n & 255] * (n - 1)
                if n > 60000 and not (deep and cfg):
                    u = u[:300]
                ops += [vid(nal(u, n)), vid(nal(u, n)[:9]), vid(nal([101, 2]) + nal(u, n))]
            for h in ([1, 0, 0, 1], [0, 1, 0, 1], [0, 0, 1, 1], [0, 0, 0, 2], [0, 0, 2, 1], [0, 0, 0, 0], [0, 0, 1], [0, 0, 1, 0], [255, 0, 0, 1]):
                ops += [vid(h + [101, 1]), vid(h), vid(h[:3]), vid(nal([101, 2]) + h + [65, 1])]
            add(ops)
        # packets of the caller's own making
        def raw(t, data, has=(1, 1), codec=7, seq=0, fmt=10, typ=1):
            return dict(op="raw", t=t, data=data, has=list(has), mt=[codec, seq, fmt, typ])
        R = rec([103, 1], [104, 3])
        ops = []
        for _ in range(2):
            for has in ((0, 0), (0, 1), (1, 0), (1, 1)):
                ops += [raw(0, avcc([[101, 9]]), has), raw(0, R, has, seq=1), raw(0, avcc([[101, 9]]), has), raw(1, asc(2, 4, 2), has, typ=0), raw(1, [7, 7], has),
                        raw(1, [255, 251, 0], has, fmt=2), raw(2, R, has), dict(rate), raw(0, avcc([[101, 9]])), raw(1, [5])]
        for x in range(16):
            ops += [raw(1, [255, 251, 4], fmt=x), raw(1, asc(2, x % 13, 2), fmt=x, typ=0), dict(rate), raw(1, [1, 2], typ=x), raw(1, [7, 7]),
                    raw(0, R, codec=x, seq=1), raw(0, avcc([[101, x]]), codec=x), raw(0, avcc([[101, x]])), raw(x, R, seq=1)]
        add(ops)
        for x in range(16):
            add([dict(rate), raw(1, [255, 251, 4], fmt=x), dict(rate), raw(1, asc(2, 3, 2), fmt=x, typ=0), dict(rate), raw(1, [1, 2, 3], fmt=x)])
        # several parameter sets, each size of the lengths, every truncation
        for ss, ps in ((1, 1), (2, 1), (1, 2), (2, 2), (3, 5), (31, 1), (1, 255), (0, 1), (1, 0)):
            for ls in (1, 2, 3, 4):
                full = recs([[103] + [k] * (k % 3) for k in range(ss)], [[104] + [k] * (k % 2) for k in range(ps)], [253, 248, 248, 0], ls)
                ops = [vid(rec([103, 9], [104, 9]), typ=0), vid(full, typ=0)]
                for n in (1, 2, 3, 4):
                    ops.append(vid(avcc([[6, 1], [101, 9, 1], [65]], n)))
                ops += [vid(avcc([[101] + [7] * n], ls)) for n in (0, 1, 2, 253, 254)]
                ops += [vid(rec([103, 8], [104, 8]), typ=0), vid(avcc([[101, 9]])), vid(full, typ=0)]
                for cut in range(len(full) - 4) if len(full) < 60 else (6, 8, 9, 30, len(full) - 6, len(full) - 5):
                    ops += [vid(full[:cut], typ=0), vid(avcc([[101, 8]], ls))]
                add(ops)
        # lengths that only fit when their upper bytes are dropped
        for ls in (1, 2, 3, 4):
            ops = [vid(recs([[103, 1]], [[104, 2]], (), ls), typ=0)]
            for k in range(8, 8 * ls):
                for u in ([65, 7], [101, 3, 4], [6] * 130):
                    n = len(u) + (1 << k)
                    if n < 1 << 8 * ls:
                        ops += [vid(nal(u, n, ls)), vid(nal([101, 2], ls=ls) + nal(u, n, ls)), vid(nal(u, n, ls) + nal([101, 2], ls=ls))]
            add(ops)
        ops = [vid(rec([103, 1], [104, 2]), typ=0)]
        for k in range(8):
            full = rec([103, 5, 5], [104, 6], [253, 248, 248, 0])
            for at in (6, 12):
                ops += [vid(full[:at] + [full[at] | 1 << k] + full[at + 1:], typ=0), vid(avcc([[101, 1]]))]
        add(ops)
        for n in (32767, 32768, 40000, 65535) if deep else (rnd.choice([32768, 33000, 40000, 65535]),):
            add([vid(rec([103] + [n & 255] * (n - 1), [104, 1]), typ=0), vid(avcc([[101, 1]])), vid(rec([103, 2], [104] + [9] * (n - 1)), typ=0), vid(avcc([[101, 1]]))])
        # many units, long units, many parameter sets in band
        for cfg in (0, 1):
            first = [vid(rec([103, 1], [104, 2]), typ=0)] if cfg else []
            for k in (63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300) + ((1000,) if cfg else ()):
                ns = [[rnd.choice([1, 5, 6, 65, 9, 101, 103, 104])] + rb(rnd.randrange(3)) for _ in range(k)]
                late = [[65, j & 255] for j in range(k - 1)] + [[101, 7]]
                add(first + [vid(avcc(ns)), vid(avcc(late)), vid(avcc(late + [[65, 1], [67, 1]])), vid(avcc([[101, 1]]))])
            for n in ((65535, 65536, 70000) if deep else (rnd.choice([65537, 66000, 70000]),)):
                add(first + [vid(avcc([[6, 1], [101] + [n & 255] * (n - 1), [65, 2]])), vid(avcc([[65] + rb(n - 1)])), vid(avcc([[101, 1]]))])
            for n, m in ((1, 2100), (3, 700), (30, 70), (9, 256), (200, 11), (2, 4100)):
                own = [[rnd.choice([103, 104])] + rb(m - 1) for _ in range(n)]
                add(first + [vid(avcc(own + [[101, 1]])), vid(avcc([[101, 2]])), vid(avcc(own[:1] + [[101, 1]])), vid(avcc(own))])
        # long parameter sets
        for n in (250, 251, 252, 255, 256, 257, 300, 511, 512, 1000):
            big = rec([103] + [n & 255] * (n - 1), [104] + [7] * (n - 2), [1, 2, 3, 4])
            small = rec([103, 1], [104, 2])
            add([vid(big, typ=0), vid(avcc([[101, 1]])), vid(small, typ=0), vid(avcc([[101, 1]])), vid(big[:-5], typ=0),
                 vid(avcc([[6, 1], [101, 1], [101, 2]]))])
        # every truncation of a unit sequence, in both halves of the type range
        seqs = [[[9, 240], [103, 1], [104, 2], [101, 3, 4]], [[6, 1], [65, 2, 3], [101, 1], [65]], [[103], [101], [104], [37]]]
        for s in seqs:
            full = avcc(s)
            ops = [vid(rec([103, 7, 7], [104, 8]), typ=0)]
            for cut in range(len(full) + 1):
                ops += [vid(full[:cut]), vid(avcc([[101, 5]]))]
            add(ops)
        # every NAL type alone, before and after an IDR, with and without configuration
        for cfg in (0, 1):
            ops = [vid(rec([103, 1, 2], [104, 3]), typ=0)] if cfg else []
            for t in range(32):
                for m in ([[t, 1]], [[t | 96, 1], [101, 2]], [[101, 2], [t | 32, 1]]):
                    ops.append(vid(avcc(m)))
            add(ops)
        # a writer that fails at each byte
        ops = [vid(rec([103, 1], [104, 3]), typ=0)]
        m = avcc([[6, 1], [101, 2, 3], [65, 9]])
        for f in range(0, 50):
            ops.append(dict(vid(m), fail=f))
            if f % 10 == 0:
                ops.append(vid(m))
        add(ops)
        # the same packet object again and again
        ops = [vid(rec([103, 1], [104, 3]), typ=0)]
        for n in (1, 2):
            for _ in range(3):
                ops.append(dict(vid(avcc([[6, n], [101, 2, 3], [65, 9]])), n=n, dm=0))
        add(ops)
    if pid in ("C03", "C04", "C05"):
        # every object type x frequency x channel configuration (a sample of channels when quick)
        for ot in range(32):
            ops = []
            for fi in range(16):
                for ch in (range(16) if deep or ot in (2, 5) else ((ot + fi) % 8, 8 + (ot + fi) % 8)):
                    ops += [aud(asc(ot, fi, ch), typ=0), rate, aud([ot, fi, ch])]
            add(ops)
        # frame lengths
        lens = sorted(set([1, 2, 3, 8, 24, 25, 26, 248, 249, 250, 255, 256, 1016, 1017, 2039, 2040, 2041, 2042, 2048, 4089, 4096,
                           6137, 8176, 8183, 8184, 8185, 8186, 8192, 8200, 16376, 65536 - 7]))
        if pid == "C03":
            for k in range(0, len(lens), 3):
                ops = [aud(asc(2, 4, 2), typ=0)]
                for n in lens[k:k + 3]:
                    ops += [aud([(n + j * 7) & 255 for j in range(n)]), aud([1, 2])]
                add(ops)
            ops = [aud(asc(2, 4, 2), typ=0)]
            for n in range(0, 700 if deep else 130):
                ops.append(aud([n & 255] * n))
            add(ops)
        for f in range(0, 14):
            add([aud(asc(2, 4, 2), typ=0), dict(aud([1, 2, 3, 4]), fail=f), aud([1, 2, 3, 4]), rate])
        # rates: every third byte of MP3, before and after AAC
        for base in range(0, 256, 32):
            ops = [rate]
            for x in range(base, base + 32):
                ops += [aud([255, 251, x], fmt=2), rate]
            ops += [aud([255, 251], fmt=2), rate, aud([23, 144], typ=0), rate, aud([1, 2], typ=1), rate, aud(asc(2, 3, 2), typ=0), rate,
                    aud([255, 251, 0], fmt=2), rate, aud([23, 144], typ=0), rate, aud([18], typ=0), rate]
            add(ops)
    # random histories
    for _ in range(1500 if deep else 220):
        ops = []
        cur[0] = 4
        w = {"C01": (6, 2, 1, 1), "C02": (4, 4, 1, 1), "C03": (1, 1, 5, 3), "C04": (3, 2, 3, 2), "C05": (1, 1, 4, 4)}[pid]
        for n in range(rnd.randrange(3, 40)):
            o = rnd.choices([video, vseq, audio, aseq], w)[0]()
            if rnd.random() < .06:
                o["fail"] = rnd.randrange(0, 40)
            if rnd.random() < .03:
                o = dict(op="parse", t=rnd.choice([2, 3]), data=rb(rnd.randrange(0, 9)))
            ops.append(o)
            if rnd.random() < (.5 if pid == "C05" else .1):
                ops.append(dict(rate))
        add(ops)
    return out
