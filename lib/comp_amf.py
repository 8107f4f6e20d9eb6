"""AMF0 and AMF3: A01..A07."""
import random, struct

PIDS = ("A01", "A02", "A03", "A04", "A05", "A06", "A07")
TRACE_MODULE = "TraceAmf"
TRACE_CONSTS = {}
LEVEL_NOTE = ("TLC checks the AMF0/AMF3 decoding specification (truncation, consumption, references, agreement with an encoder) over every "
              "token sequence and value up to the evidence's depth; all of them, generated reference-rich streams, their truncations and "
              "corruptions, every read fragmentation and every failing write run on the real code and are judged value by value. "
              "Recursion depth is bounded by 64 KiB inputs; references to a container still being decoded are judged for objects only.")
INVS = ["Truncated", "SuffixFree", "Twice", "Decodes", "OnlyThat", "SlotsExist", "EmitBehaviour"]
EXPECT = {
    "A01": ["wire", "wire-amf3", "wire-xml", "wire-ref", "wire-ecma", "wire-undef", "wire-unsup", "round-trip", "value", "unencodable-refused"],
    "A02": ["wire", "wire-amf3", "round-trip", "value", "unencodable-refused"],
    "A03": ["value", "bad-input-refused"],
    "A04": ["bad-input-refused", "batch-error", "batch", "modest-allocation", "end-of-input", "survives"],
    "A05": ["value", "consumed", "batch", "round-trip-consumes", "same-again"],
    "A06": ["count", "only-failed-writes-fail", "prefix-on-failure", "batch-concatenates", "batch-unencodable-refused", "round-trip-count"],
    "A07": ["value", "bad-input-refused", "registered"],
}


def specs(pid, tier):
    deep = tier == "thorough"
    vers = {"A01": (0,), "A02": (3,), "A07": (3,)}.get(pid, (0, 3))
    out = []
    for v in vers:
        d = (4 if deep else 3)
        out.append(dict(module="AmfMC", name="amf%d-emit" % v, consts={"Ver": v, "Depth": d, "Emit": "TRUE"}, invariants=INVS,
                        workers=8 if deep else 4, heap="6g" if deep else "4g"))
    return out


def be(n, k):
    return [n >> (8 * (k - 1 - j)) & 255 for j in range(k)]


def dbl(x):
    return list(struct.pack(">d", x))


def u29(n):
    if n < 0x80:
        return [n]
    if n < 0x4000:
        return [n >> 7 | 128, n & 127]
    if n < 0x200000:
        return [n >> 14 | 128, n >> 7 & 127 | 128, n & 127]
    return [n >> 22 & 127 | 128, n >> 15 & 127 | 128, n >> 8 & 127 | 128, n & 255]


class G0:
    """AMF0 streams with many references."""

    def __init__(self, rnd, refs=.3, g3=None):
        self.rnd, self.refs, self.slots, self.g3 = rnd, refs, 0, g3

    def s(self, b):
        return be(len(b), 2) + b

    def key(self):
        return self.s([97 + self.rnd.randrange(4)] if self.rnd.random() < .8 else [self.rnd.randrange(256) for _ in range(self.rnd.randrange(1, 5))])

    def val(self, d=0):
        r = self.rnd
        x = r.random()
        if x < self.refs and self.slots:
            k = r.randrange(self.slots) if r.random() < .93 else self.slots + r.randrange(3)
            return [7] + be(k, 2)
        x = r.random()
        if d > 3 or x < .45:
            y = r.randrange(10)
            if y == 0:
                return [0] + dbl(r.choice([0., 1.5, -7, 1e9, float("inf"), 3.0]))
            if y == 1:
                return [1, r.choice([0, 1, 1, 2])]
            if y == 2:
                return [2] + self.s([r.randrange(256) for _ in range(r.randrange(5))])
            if y == 3:
                return [5]
            if y == 4:
                return [6]
            if y == 5:
                return [13]
            if y == 6:
                return [12] + be(3, 4) + [1, 2, 3]
            if y == 7:
                return [11] + dbl(r.choice([0., 1000., 1.6e12])) + be(r.choice([0, 60, 65535]), 2)
            if y == 8:
                return [15] + be(2, 4) + [60, 62]
            if self.g3:
                return [17] + self.g3.val(d + 1)
            return [5]
        y = r.randrange(4)
        if y in (0, 1, 3):
            h = [3] if y == 0 else [8] + be(r.randrange(4), 4) if y == 1 else [16] + self.s([84, r.randrange(65, 70)])
            self.slots += 1
            b = []
            for _ in range(r.randrange(4)):
                b += self.key() + self.val(d + 1)
            return h + b + [0, 0, 9]
        n = r.randrange(4)
        self.slots += 1
        b = []
        for _ in range(n):
            b += self.val(d + 1)
        return [10] + be(n, 4) + b


class G3:
    """AMF3 streams with many references, traits of every kind."""

    def __init__(self, rnd, refs=.3, other=.5, handlers=()):
        self.rnd, self.refs, self.other = rnd, refs, other
        self.str, self.objs, self.tr, self.handlers = [], 0, [], handlers

    def s(self, b=None):
        r = self.rnd
        if b is None:
            if self.str and r.random() < self.refs:
                k = r.randrange(len(self.str)) if r.random() < .95 else len(self.str) + r.randrange(2)
                return u29(k << 1)
            b = [] if r.random() < .08 else [97 + r.randrange(5)] * r.choice([1, 1, 2, 3, 70] if r.random() < .97 else [127, 128, 255, 256, 300])
        elif b in self.str and r.random() < self.refs:
            return u29(self.str.index(b) << 1)
        if b:
            self.str.append(b)
        return u29(len(b) << 1 | 1) + b

    def name(self):
        r = self.rnd
        if self.str and r.random() < self.refs:
            return u29(r.randrange(len(self.str)) << 1)
        b = [97 + r.randrange(5)] * r.choice([1, 1, 2])
        self.str.append(b)
        return u29(len(b) << 1 | 1) + b

    def flags(self, nset, bits):
        """flag bytes announcing values; returns bytes and count of values"""
        r = self.rnd
        n = r.choice([1, 1, 2, 3])
        out, cnt = [], 0
        for i in range(n):
            f = r.randrange(128) & r.randrange(128) & (r.randrange(128) if r.random() < .5 else 127)
            if i < n - 1:
                f |= 128
            out.append(f)
            cnt += bin(f & 127).count("1")
        return out, cnt

    def ext(self, ty, d):
        b = []
        if ty in (b"DSA", b"DSK"):
            for k in range(2 if ty == b"DSA" else 3):
                f, n = self.flags(k, 0)
                b += f
                for _ in range(n):
                    b += self.val(d + 1)
            return b
        if ty == b"flex.messaging.io.ArrayCollection":
            return self.arr(d + 1) if self.rnd.random() < .8 else self.val(d + 1)
        return self.val(d + 1)

    def arr(self, d):
        r = self.rnd
        self.objs += 1
        n = r.randrange(4)
        b = [9] + u29(n << 1 | 1)
        for _ in range(r.choice([0, 0, 1, 2])):
            b += self.name() + self.val(d + 1)
        b += [1]
        for _ in range(n):
            b += self.val(d + 1)
        return b

    def obj(self, d):
        r = self.rnd
        if self.tr and r.random() < self.refs:
            k = r.randrange(len(self.tr)) if r.random() < .95 else len(self.tr)
            h = u29(k << 2 | 1)
            t = self.tr[k] if k < len(self.tr) else (0, 0, [], b"")
        else:
            ext = r.random() < self.other * .4
            dyn = not ext and r.random() < self.other
            ty = r.choice([b"", b"", b"T", b"Ab"])
            if ext:
                ty = r.choice([b"DSA", b"DSA", b"DSK", b"flex.messaging.io.ArrayCollection"] + [h for h in self.handlers] + [b"Nope"] * (r.random() < .1))
            n = 0 if ext else r.randrange(3)
            h = u29(n << 4 | dyn << 3 | ext << 2 | 3) + self.s(list(ty))
            for _ in range(n):
                h += self.name()
            t = (ext, dyn, n, ty)
            self.tr.append(t)
        b = [10] + h
        self.objs += 1
        ext, dyn, n, ty = t
        if ext:
            return b + self.ext(ty, d)
        for _ in range(n if isinstance(n, int) else 0):
            b += self.val(d + 1)
        if dyn:
            for _ in range(r.randrange(3)):
                b += self.name() + self.val(d + 1)
            b += [1]
        return b

    def val(self, d=0):
        r = self.rnd
        if self.objs and r.random() < self.refs * .6:
            k = r.randrange(self.objs) if r.random() < .95 else self.objs + r.randrange(3)
            return [r.choice([10, 10, 10, 9, 12, 8, 11, 7])] + u29(k << 1)
        x = r.random()
        if d > 3 or x < .45:
            y = r.randrange(10)
            if y < 4:
                return [y]
            if y == 4:
                return [4] + r.choice([u29(r.choice([0, 1, 127, 128, 16383, 16384, 2097151, 2097152, 268435455, 268435456, 536870911])),
                                       [128, 5], [128, 128, 128, 1]])
            if y == 5:
                return [5] + dbl(r.choice([0., -1.5, 1e300]))
            if y < 8:
                return [6] + self.s()
            self.objs += 1
            if y == 8:
                return [8, 1] + dbl(r.choice([0., 1000., 1.6e12, 86400000.]) + r.choice([0., 1., 999., -1., -1001.]))
            b = [r.randrange(256) for _ in range(r.choice([0, 1, 3]))]
            return [r.choice([12, 12, 7, 11])] + u29(len(b) << 1 | 1) + b
        return self.obj(d) if r.random() < .65 else self.arr(d)


def scenarios(pid, tier, seed, behaviours):
    deep = tier == "thorough"
    rnd = random.Random("amf/%s/%d" % (pid, seed))
    out = []
    new = {"op": "new"}

    def add(ops):
        out.append({"sc": len(out), "c": "amf", "ops": ops})

    def dec(ver, data, chunk=0, num=1):
        return dict(op="dec", ver=ver, data=data, chunk=chunk, num=num)

    def batch(ver, data, chunk=0):
        return dict(op="batch", ver=ver, data=data, chunk=chunk)

    def enc(ver, v, fail=-1):
        return dict(op="enc", ver=ver, val=v, fail=fail)

    def rt(ver, v, chunk=0):
        return dict(op="rt", ver=ver, val=v, chunk=chunk)

    def encx(fn, v=("nil",), fail=-1, num=0):
        return dict(op="encx", fn=fn, val=list(v), fail=fail, num=num)

    chunks = [0, 1, 2, 3, 7, -1, -2, -3, -4]
    vers = {"A01": (0,), "A02": (3,)}.get(pid, (0, 3))

    # ---- everything the specification enumerated
    nv = 0
    for b in behaviours:
        if "v" in b:
            # which encoder: both are driven where both are checked
            for ver in vers:
                if pid in ("A01", "A02", "A05"):
                    add([new, enc(ver, b["v"]), rt(ver, b["v"], rnd.choice(chunks))])
                elif pid == "A06":
                    nv += 1
                    ops = [new, enc(ver, b["v"]), rt(ver, b["v"])]
                    for f in ([0, 1] + [rnd.randrange(30) for _ in range(3)] if nv % 8 else range(0, 40)):
                        ops.append(enc(ver, b["v"], f))
                    add(ops)
    group = []
    for b in behaviours:
        if "b" in b and pid in ("A01", "A02", "A03", "A04", "A05", "A07"):
            d = b["b"]
            ver = 0 if pid == "A01" else 3 if pid in ("A02", "A07") else None
            for v in ((ver,) if ver is not None else (0, 3)):
                group += [new, dec(v, d, rnd.choice(chunks if pid == "A05" else (0, 0, -3, -4)), 2)]
                if pid in ("A04", "A05") and rnd.random() < .3:
                    group += [new, batch(v, d, rnd.choice(chunks))]
            if len(group) > 60:
                add(group)
                group = []
    if group:
        add(group)

    # ---- values for the encoders
    ints = [0, 1, 127, 128, 255, 256, 16383, 16384, 32767, 65535, 2097151, 2097152, 2 ** 28 - 1, 2 ** 28, 2 ** 29 - 1, 2 ** 31 - 1, 2 ** 32 - 1,
            2 ** 53, 2 ** 53 - 1, 2 ** 62, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 2048]
    negs = [-1, -2, -127, -128, -129, -16384, -32768, -2 ** 28 + 1, -2 ** 28, -2 ** 28 - 1, -2 ** 31, -2 ** 53, -2 ** 63]
    bits = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "int": 64, "u8": 8, "u16": 16, "u32": 32, "u64": 64, "uint": 64}

    def intval(k, n):
        return ["int", k, be(n & (2 ** 64 - 1), 8)]

    allints = []
    for k, w in bits.items():
        for n in ints:
            if n < (2 ** w if k[0] == "u" else 2 ** (w - 1)):
                allints.append(intval(k, n))
        if k[0] != "u":
            for n in negs:
                if n >= -2 ** (w - 1):
                    allints.append(intval(k, n))

    def key(ver, bad=.0):
        r = rnd.random()
        if r < bad:
            return rnd.choice([[], [65] * 65536] if ver == 0 and rnd.random() < .1 else [[]])
        return [97 + rnd.randrange(26)] if r < .6 else [rnd.randrange(256) for _ in range(rnd.choice([1, 2, 5, 130, 300] if rnd.random() < .2 else [1, 2, 3]))]

    def pairs(ver, d, bad):
        seen, ps = set(), []
        for _ in range(rnd.choice([0, 1, 1, 2, 3, 5])):
            k = key(ver, bad * .3)
            if tuple(k) not in seen:
                seen.add(tuple(k))
                ps.append([k, value(ver, d + 1, bad)])
        return ps

    def value(ver, d=0, bad=0.):
        """a value, sometimes in another Go form"""
        v = value0(ver, d, bad)
        n = {"bool": 2, "num": 2, "str": 2, "bin": 2, "obj": 2, "arr": 2, "strs": 2, "typed": 3}.get(v[0])
        if n and rnd.random() < (.6 if v[0] == "arr" else .3):
            return v + [rnd.randrange(1, 6) if v[0] == "arr" else 1]
        return v

    def value0(ver, d=0, bad=0.):
        r = rnd.random()
        if r < bad * .3:
            return ["bad", rnd.randrange(7)]
        if d > 3 or r < .55:
            x = rnd.randrange(9)
            if x == 0:
                return ["nil"]
            if x == 1:
                return ["bool", rnd.randrange(2)]
            if x == 2:
                return ["num", rnd.choice([dbl(y) for y in (0., -0., 1.5, -1e300, 5e-324, float("inf"), 268435455., -268435456., 3.)] + [[127, 248, 0, 0, 0, 0, 0, 1]])]
            if x == 3:
                return ["f32", dbl(rnd.choice([0., 1.5, -2.25, 16777216.]))]
            if x in (4, 5):
                n = rnd.choice([0, 1, 2, 5]) if rnd.random() < .9 else rnd.choice([63, 64, 127, 128, 255, 256, 300])
                return ["str", [rnd.randrange(256) for _ in range(n)]]
            if x == 6:
                return rnd.choice(allints)
            if x == 7:
                return ["bin", [rnd.randrange(256) for _ in range(rnd.choice([0, 1, 2, 5, 64, 70]))]]
            d = ["date", dbl(rnd.choice([0., 1000., 1.6e12, 86400000., 253402300799000., -1000., -62135596800000.]) + rnd.choice([0., 0., 1., 999., 500., 123., -1., -999.]))]
            return d + [rnd.choice([0, 1, 500000, 999999]), rnd.choice([0, 60, -300, 345, 840])] if rnd.random() < .4 else d
        x = rnd.randrange(7)
        if x < 2:
            return ["arr", [value(ver, d + 1, bad) for _ in range(rnd.choice([0, 1, 2, 3, 3, 65] if rnd.random() < .1 else [0, 1, 2, 3]))]]
        if x == 2:
            return ["strs", [[rnd.randrange(256) for _ in range(rnd.randrange(3))] for _ in range(rnd.randrange(4))]]
        if x < 5:
            return ["obj", pairs(ver, d, bad)]
        ty = [rnd.randrange(65, 90) for _ in range(rnd.choice([0, 1, 3, 10]))]
        return ["typed", ty, pairs(ver, d, bad)]

    longs = [["fill", n, 65] for n in (127, 128, 255, 256, 8191, 8192, 65534, 65535, 65536, 65537, 70000, 131072, 2 ** 18, 2 ** 20, 2 ** 20 + 1)]
    if pid in ("A01", "A02", "A05", "A06"):
        for ver in vers:
            for k in range(0, len(allints), 12):
                ops = [new]
                for v in allints[k:k + 12]:
                    ops += [enc(ver, v), rt(ver, v)]
                add(ops)
            # dates to the millisecond, on both sides of 1970
            ms = [x for k in range(0, 52, 1 if deep else 3) for x in (2 ** k, 2 ** k - 1, -2 ** k, 1 - 2 ** k)] + [1000 * k + j for k in (-2, -1, 0, 1, 1700000000, 1 << 40, -(1 << 40)) for j in (-1, 0, 1, 499, 500, 999)]
            for k in range(0, len(ms), 10):
                ops = [new]
                for m in ms[k:k + 10]:
                    d = ["date", dbl(float(m))]
                    ops += [enc(ver, d), rt(ver, d + [999999, 60] if m & 1 else d), dec(ver, ([8, 1] if ver == 3 else [11]) + d[1] + ([] if ver == 3 else [0, 0]))]
                add(ops)
            for v in longs:
                add([new, enc(ver, v), rt(ver, v, rnd.choice([0, 1, -1, 4096]))])
            # every Go form of an array, a map, a string
            forms = [["arr", vs, f] for f in range(6) for vs in ([], [["nil"]], [["nil"], ["nil"]], [["str", [97]], ["str", []]], [["bool", 1], ["bool", 0]], [["num", dbl(1.5)], ["num", dbl(2.)]],
                                                                [["f32", dbl(1.5)]], [["obj", []], ["obj", [[[97], ["nil"]]]]], [["arr", []], ["arr", [["nil"]]]], [["bin", [1, 2]], ["bin", []]],
                                                                [["date", dbl(1000.)]], [["typed", [84], []]], [["bool", 1], ["nil"]])]
            forms += [["arr", [intval(k, 1), intval(k, 200 if bits[k] > 8 else 100)], f] for f in (4, 5) for k in bits]
            forms += [["obj", [], 1], ["typed", [84], [], 1], ["typed", [], [], 1], ["bin", [], 1], ["strs", [], 1], ["str", [97, 98], 1], ["str", [], 1], ["num", dbl(2.5), 1], ["bool", 1, 1], ["bool", 0, 1]]
            forms += [["bad", k] for k in range(7)] + [["arr", [["nil"], ["bad", k]], 0] for k in range(7)] + [["arr", [["bad", 2], ["bad", 2]], f] for f in (4, 5)]
            for k in range(0, len(forms), 10):
                ops = [new]
                for v in forms[k:k + 10]:
                    ops += [enc(ver, v), rt(ver, v), enc(ver, ["obj", [[[97], v]]]), rt(ver, ["arr", [v, ["nil"]]])]
                add(ops)
            # more names, more members, more bytes than one byte of a count can say
            for n in (127, 128, 255, 256, 300, 1100):
                ps = [[[97 + i % 26, 97 + i // 26 % 26, 97 + i // 676], ["bool", i & 1]] for i in range(n)]
                add([new, enc(ver, ["obj", ps]), rt(ver, ["obj", ps]), rt(ver, ["typed", [84], ps])])
            for n in (127, 128, 255, 256, 300, 8191, 8192, 20000) + ((65535, 65536, 66000) if deep else (65540,) if ver == 0 else ()):
                vs = ["arr", [["bool", i % 3 & 1] for i in range(n)]]
                add([new, enc(ver, vs), rt(ver, vs)])
            for n in (65535, 65536):
                add([new, enc(ver, ["obj", [[[66] * n, ["nil"]]]]), enc(ver, ["typed", [66] * n, []])])
            for _ in range(400 if deep else 90):
                ops = [new]
                for _ in range(6):
                    v = value(ver, 0, rnd.choice([0, 0, 0, .3]))
                    ops += [enc(ver, v), rt(ver, v, rnd.choice(chunks))]
                    if pid == "A06":
                        for _ in range(4):
                            ops.append(enc(ver, v, rnd.randrange(0, 60)))
                add(ops)
    # containers in containers, far down
    if pid in ("A01", "A02", "A03", "A05"):
        for ver in vers:
            for n in (5, 20, 40, 66, 70) + ((100, 150) if deep else ()):
                for kind in range(3):
                    v = ["bool", 1]
                    for k in range(n):
                        z = kind if kind < 2 else rnd.randrange(2)
                        v = ["arr", [v]] if z else ["obj", [[[97 + k % 26], v]]]
                    if pid == "A03":
                        d = [3] if ver == 3 else [1, 1]
                        for k in range(n):
                            if kind == 1 or kind == 2 and k % 3:
                                d = [9, 3, 1] + d if ver == 3 else [10, 0, 0, 0, 1] + d
                            else:
                                d = [10, 11, 1, 3, 97] + d + [1] if ver == 3 else [3, 0, 1, 97] + d + [0, 0, 9]
                        add([new, dec(ver, d, 0, 2), dec(ver, d, rnd.choice(chunks))])
                    else:
                        add([new, enc(ver, v), rt(ver, v, rnd.choice(chunks)), enc(ver, ["arr", [v, v]])])
    # a batch of many values, whatever their number
    if pid in ("A04", "A05"):
        for ver in (0, 3):
            for n in (100, 200, 201, 255, 256, 257) + ((1001,) if pid == "A05" or deep else ()):
                flat = [x for k in range(n) for x in ([rnd.choice([1, 2, 3])] if ver == 3 else rnd.choice([[5], [6], [1, k & 1]]))]
                add([new, batch(ver, flat, rnd.choice(chunks) if pid == "A05" else 0)])
                if n < 300:
                    add([new, dec(ver, flat, 0, n + 1), new, batch(ver, flat + [77 if ver else 200])])
    if pid in ("A01", "A02", "A06"):
        for _ in range(200 if deep else 60):
            ops = [new]
            for _ in range(5):
                v = value(3, 0, rnd.choice([0, 0, .2]))
                ops.append(encx("amf3", v))
                if pid != "A02":
                    ops += [encx("xml", ["str", [rnd.randrange(256) for _ in range(rnd.choice([0, 1, 5, 300]))]]),
                            encx("ref", num=rnd.choice([0, 1, 255, 256, 65535])),
                            encx("ecma", ["obj", pairs(0, 0, rnd.choice([0, 0, .2]))]), encx("undef"), encx("unsup")]
                if pid == "A06":
                    for f in range(0, 12):
                        ops += [encx("undef", fail=f % 3), encx("unsup", fail=f % 3), encx("ref", num=258, fail=f % 5),
                                encx("xml", ["str", [1, 2, 3]], fail=f), encx("amf3", v, fail=f), encx("ecma", ["obj", [[[97], ["nil"]]]], fail=f)]
            add(ops)
    if pid == "A06":
        # every failing byte of single-entry values
        def fixed(ver, d=0):
            r = rnd.randrange(8)
            if d > 2 or r < 4:
                v = value(ver, 9)
                return v
            if r == 4:
                return ["arr", [fixed(ver, d + 1) for _ in range(rnd.randrange(4))]]
            if r == 5:
                return ["obj", [[[97], fixed(ver, d + 1)]]]
            if r == 6:
                return ["typed", [84], [[[97, 98], fixed(ver, d + 1)]]]
            return ["strs", [[1], [], [2, 3]]]
        for ver in vers:
            for _ in range(60 if deep else 25):
                v = fixed(ver)
                ops = [new, enc(ver, v)]
                for f in range(0, 70):
                    ops.append(enc(ver, v, f))
                add(ops)
            add([new] + [enc(ver, ["fill", 65536, 1], f) for f in (0, 1, 2, 4, 5, 6, 65000, 65540, 65541)])
        for ver in vers:
            for _ in range(80 if deep else 40):
                ops = [new]
                for _ in range(6):
                    vs = [value(ver, 1, rnd.choice([0, 0, 0, .2])) for _ in range(rnd.randrange(0, 5))]
                    ops.append(dict(op="encb", ver=ver, vals=vs, fail=-1 if rnd.random() < .6 else rnd.randrange(0, 40)))
                add(ops)

    # ---- streams for the decoders
    handlers = [b"H1", b"H2"]

    def stream(ver, refs, other, n):
        if ver == 3:
            g = G3(rnd, refs, other, handlers)
        else:
            g = G0(rnd, refs, G3(rnd, refs, other, handlers) if rnd.random() < .5 else None)
        return [g.val() for _ in range(n)]

    reg = [dict(op="reg", s1=list(handlers[0]), fn="one"), dict(op="reg", s1=list(handlers[1]), fn="one")]
    if rnd.random() < .5:
        reg.append(dict(op="reg", s1=list(b"H3"), fn="fail"))
    if pid in ("A01", "A02", "A03", "A05", "A07"):
        reps = {"A01": 120, "A02": 120, "A03": 420, "A05": 150, "A07": 420}[pid] * (5 if deep else 1)
        for _ in range(reps):
            ver = rnd.choice(vers) if pid != "A07" else rnd.choice([3, 3, 3, 0])
            vs = stream(ver, rnd.choice([.1, .3, .5]) if pid != "A01" else .1, rnd.choice([0, .5, .9]), rnd.randrange(1, 6))
            flat = [x for v in vs for x in v]
            if len(flat) > 3000:
                continue
            ops = [new] + reg + [dec(ver, flat, 0, len(vs) + 1)]
            if pid == "A05":
                for c in rnd.sample(chunks, 3):
                    ops += [new] + reg + [dec(ver, flat, c, len(vs) + 1)]
                ops += [new] + reg + [batch(ver, flat, rnd.choice(chunks))]
            elif pid == "A03":
                # one value per call: the tables persist
                ops += [new] + reg + [dec(ver, v, rnd.choice(chunks)) for v in vs]
            add(ops)
    if pid == "A03":
        # every table size around each reference, in and out of range
        for n in range(0, 5):
            for k in range(0, 7):
                add([new, dec(0, [3, 0, 0, 9] * 0 + [x for _ in range(n) for x in [3, 0, 1, 97, 1, 1, 0, 0, 9]] + [7, 0, k], 0, n + 1)])
                add([new, dec(0, [x for _ in range(n) for x in [10, 0, 0, 0, 1, 5]] + [7, 0, k], 0, n + 1)])
                add([new, dec(0, [10] + be(n + 1, 4) + [x for _ in range(n) for x in [8, 0, 0, 0, 0, 0, 1, 98, 5, 0, 0, 9]] + [7] + be(k, 2), 0, 1)])
                add([new, dec(3, [x for j in range(n) for x in [10, 11, 1, 1]] + [10] + u29(k << 1), 0, n + 1)])
                add([new, dec(3, [x for j in range(n) for x in [9, 3, 1, 4, j]] + [9] + u29(k << 1), 0, n + 1)])
                add([new, dec(3, [x for j in range(n) for x in [12, 3, j]] + [12] + u29(k << 1), 0, n + 1)])
                add([new, dec(3, [x for j in range(n) for x in [6, 3, 97 + j]] + [6] + u29(k << 1), 0, n + 1)])
                add([new, dec(3, [x for j in range(n) for x in [10, 19, 3, 65 + j, 3, 97 + j, 4, j]] + [10] + u29(k << 2 | 1) + [4, 9], 0, n + 1)])
                add([new, dec(3, [x for j in range(n) for x in [8, 1] + dbl(1000. * j)] + [8] + u29(k << 1), 0, n + 1)])
        # whatever the length of a string, an array of bytes, a name or a type name
        for n in (1, 63, 64, 127, 128, 200, 254, 255, 256, 257, 511, 512, 1000, 4095, 4096):
            s, ab = u29(n << 1 | 1) + [97] * n, [6, 5, 98, 99]
            add([new, dec(3, [6] + s + ab + [6, 0, 6, 2], 0, 4), new, dec(3, ab + [6] + s + [6, 0, 6, 2, 6, 4], 0, 5)])
            add([new, dec(3, [12] + s + [12, 3, 7, 12, 0, 12, 2, 12, 4], 0, 5)])
            add([new, dec(3, [9, 1] + s + [4, 1, 3, 98, 4, 2, 1] + ab + [6, 0, 6, 2, 6, 4, 9, 0], 0, 6)])
            add([new, dec(3, [10, 11] + s + s + [4, 1, 1, 10, 1, 0, 4, 3, 1, 6, 2, 6, 0, 10, 0, 10, 2], 0, 6)])
            add([new, dec(3, [10, 19, 1] + s + [4, 1, 10, 1, 4, 2, 6, 0, 10, 2], 0, 4)])
        for n in (1, 255, 256, 65535):
            k = be(n, 2) + [97] * n
            if n < 5000:
                add([new, dec(0, [3] + k + [5, 0, 0, 9] + [3, 0, 1, 98] + [7, 0, 0, 0, 0, 9, 7, 0, 1], 0, 3)])
                add([new, dec(0, [16] + k + [0, 1, 98, 5, 0, 0, 9, 8, 0, 0, 0, 1] + k + [7, 0, 0, 0, 0, 9, 7, 0, 1], 0, 3)])
        # tables longer than one, two and three bytes of a U29 header can index
        for fn in ("str", "bin", "obj", "obj0"):
            for n in ([70, 300, 8300] + ([40000] if deep or fn in ("bin", "obj0") else [])):
                at = sorted({k for k in [0, 1, 31, 32, 63, 64, 127, 128, 255, 256, 4095, 4096, 8190, 8191, 8192, 8193, 16383, 16384, 32767, 32768, n - 2, n - 1] if k < n})
                one = dict(str=lambda k: [6] + u29(k << 1), bin=lambda k: [12] + u29(k << 1), obj=lambda k: [10] + u29(k << 1), obj0=lambda k: [7] + be(k, 2))[fn]
                ver = 0 if fn == "obj0" else 3
                ops = [new, dict(op="fill", fn=fn, ver=ver, num=n), dec(ver, [x for k in at for x in one(k)], 0, len(at) + 1)]
                if fn == "obj":
                    ops += [dec(3, [x for k in at for x in [6] + u29(k << 1)], 0, len(at) + 1),
                            dec(3, [x for k in at for x in [10] + u29(k << 2 | 1) + [4, 9]], 0, len(at) + 1),
                            dec(3, [10] + u29((n + len(at)) << 1), 0, 1)]
                else:
                    ops += [dec(ver, one(n), 0, 1)]
                add(ops)
        # values without content take a slot like any other
        for k in range(0, 5):
            for one in ([12, 1], [7, 1], [11, 1], [9, 1, 1], [10, 11, 1, 1], [10, 3, 1], [12, 3, 5]):
                for two in ([12, 1], [7, 1], [9, 1, 1], [10, 1], [6, 1]):
                    add([new, dec(3, one + two + one[:2] + [1] * 0 + ([1] if one[0] == 9 else [1, 1] if one[:2] == [10, 11] else [1] if one[:2] == [10, 3] else [5] if one[1] == 3 else []) + [10] + u29(k << 1), 0, 4)])
        # long tables in which every kind of value has a slot, also inside one another
        for n in (5, 9, 17, 33, 65, 130, 260):
            kinds0 = [lambda j: [10] + be(2, 4) + [1, j & 1] + [2, 0, 1, 65 + j % 26], lambda j: [8, 0, 0, 0, 1, 0, 1, 97, 2, 0, 1, 65 + j % 26, 0, 0, 9], lambda j: [3, 0, 1, 98, 1, j & 1, 0, 0, 9],
                      lambda j: [16, 0, 1, 84, 0, 1, 99, 2, 0, 1, 97 + j % 26, 0, 0, 9], lambda j: [10, 0, 0, 0, 0]]
            kinds3 = [lambda j: [9, 3, 1, 4, j & 127], lambda j: [9, 1, 3, 97, 4, j & 127, 1], lambda j: [12, 3, j & 255], lambda j: [8, 1] + dbl(1000. * j), lambda j: [7, 3, 97 + j % 26],
                      lambda j: [10, 11, 1, 3, 97, 4, j & 127, 1], lambda j: [10, 19, 3, 65 + j % 26, 3, 97, 4, j & 127], lambda j: [11, 3, 65 + j % 26], lambda j: [9, 5, 3, 98, 4, j & 127, 1, 2, 3]]
            tag3 = [9, 9, 12, 8, 7, 10, 10, 11, 9]
            for _ in range(3):
                ks = [rnd.randrange(5) for _ in range(n)]
                flat = [y for j, k in enumerate(ks) for y in kinds0[k](j)]
                refs = sorted(rnd.sample(range(n), min(n, 9)) + [n - 1])
                add([new, dec(0, flat + [y for k in refs for y in [7] + be(k, 2)], 0, n + len(refs) + 1)])
                # the first slots are those of the enclosing values, which are referred to once complete
                add([new, dec(0, [10] + be(2, 4) + [10] + be(n + 1, 4) + flat + [3, 0, 1, 120, 7] + be(n + 2, 2) + [0, 0, 9] + [5] + [7, 0, 0, 7, 0, 1] + [y for k in refs for y in [7] + be(k + 2, 2)], 0, len(refs) + 4)])
                ks = [rnd.randrange(9) for _ in range(n)]
                flat = [y for j, k in enumerate(ks) for y in kinds3[k](j)]
                add([new, dec(3, flat + [y for k in refs for y in [tag3[ks[k]]] + u29(k << 1)] + [y for k in refs for y in [10] + u29(k << 1)], 0, n + 2 * len(refs) + 1)])
                add([new, dec(3, [9] + u29(2 << 1 | 1) + [1, 9] + u29(n << 1 | 1) + [3, 122, 1, 1] + flat + [1] + [9, 0, 9, 2] + [y for k in refs for y in [tag3[ks[k]]] + u29(k + 2 << 1)], 0, len(refs) + 4)])
            # traits: each object has its own, and each is used again
            tr = [y for j in range(n) for y in [10] + u29(1 << 4 | (j & 1) << 3 | 3) + [3, 65 + j % 26, 3, 97 + j % 26, 4, j & 127] + ([3, 120, 2, 1] if j & 1 else [])]
            refs = sorted(rnd.sample(range(n), min(n, 9)) + [n - 1])
            add([new, dec(3, tr + [y for k in refs for y in [10] + u29(k << 2 | 1) + [4, 9] + ([3, 121, 3, 1] if k & 1 else [])], 0, n + len(refs) + 1)])
        empty0 = ([3, 0, 0, 9], [8, 0, 0, 0, 0, 0, 0, 9], [10, 0, 0, 0, 0], [16, 0, 0, 0, 0, 9], [16, 0, 1, 84, 0, 0, 9], [16, 0, 0, 0, 1, 97, 5, 0, 0, 9], [10, 0, 0, 0, 1, 5])
        for one in empty0:
            for two in empty0:
                add([new, dec(0, one + two + [3, 0, 1, 122, 1, 1, 0, 0, 9] + [7, 0, 0, 7, 0, 1, 7, 0, 2, 7, 0, 3], 0, 7),
                     new, dec(0, [16, 0, 0, 0, 1, 97] + one + [0, 1, 98] + two + [0, 1, 99, 7, 0, 2, 0, 0, 9, 7, 0, 0, 7, 0, 1, 7, 0, 3], 0, 4)])
        # objects with more sealed members than one byte of a count can say
        for n in (15, 16, 127, 128, 255, 256, 257, 300, 600):
            names = [y for j in range(n) for y in [5, 97 + j % 26, 65 + j // 26]]
            for dyn in (0, 1):
                tail = [3, 120, 4, 9, 1] if dyn else []
                add([new, dec(3, [10] + u29(n << 4 | dyn << 3 | 3) + [3, 84] + names + [y for j in range(n) for y in [4, j % 128]] + tail + [10, 1] + [2] * n + tail + [10, 0, 10, 2, 6, 0, 6, 2] + [6] + u29(n << 1), 0, 7)])
        # more slots than one byte of index
        many = [x for _ in range(300) for x in [3, 0, 0, 9]]
        add([new, dec(0, many + [7, 1, 43], 0, 301)])
        add([new, dec(0, many + [7, 1, 44], 0, 301)])
        for k in (63, 64, 65, 99, 100):
            add([new, dec(3, [x for j in range(100) for x in [12, 3, j]] + [12] + u29(k << 1), 0, 101)])
            add([new, dec(3, [x for j in range(100) for x in [6, 5, 97, j]] + [6] + u29(k << 1), 0, 101)])
    if pid == "A07":
        # one object of each trait kind, every flag byte of the external messages
        for ty in (b"DSA", b"DSK"):
            for x in range(128):
                fl = [x]
                body = fl + [y for j in range(bin(x).count("1")) for y in (4, j + 1)]
                rest = [0] if ty == b"DSA" else [0, 0]
                h = [10, 7, 7] + list(ty)
                ops = [new, dec(3, h + body + rest + [4, 77], 0, 2)]
                body2 = [128, x] + [y for j in range(bin(x).count("1")) for y in (4, j + 1)]
                ops += [new, dec(3, h + body2 + rest, 0, 1), new, dec(3, h + [0] + body + rest[1:], 0, 1)]
                body3 = [x | 128, x] + [y for j in range(2 * bin(x).count("1")) for y in (4, j + 1)]
                ops += [new, dec(3, h + body3 + rest, 0, 2), new, dec(3, h + [0] * (len(rest)) + body, 0, 2)]
                add(ops)
        for n in range(0, 4):
            for dyn in (0, 1):
                for ext in (0, 1):
                    h = [10] + u29(n << 4 | dyn << 3 | ext << 2 | 3)
                    for ty in (b"", b"T", b"H1", b"H3", b"DSA", b"Nope"):
                        ty3 = u29(len(ty) << 1 | 1) + list(ty)
                        names = [y for j in range(n) for y in (3, 97 + j)]
                        vals = [y for j in range(n) for y in (4, j)]
                        b = h + ty3 + names + vals + ([3, 120, 4, 9, 1] if dyn else [])
                        r3 = reg + [dict(op="reg", s1=list(b"H3"), fn="fail")]
                        add([new] + r3 + [dec(3, b + [10, 1] + vals + ([1] if dyn else []) + [4, 5], 0, 3)])
                        add([new] + r3 + [dec(3, b, 0, 1), dec(3, [10, 1] + vals + [1], 0, 2)])
        # the latest handler of a type is the one that is asked, also for types whose traits are known
        for ty in (list(b"H1"), list(b"flex.X"), list(b"Nope"), []):
            v = [10, 7] + u29(len(ty) << 1 | 1) + ty + [4, 7]
            v2 = [10, 1, 6, 3, 97]
            one, bad = (dict(op="reg", s1=ty, fn=f) for f in ("one", "fail"))
            for seq in ([one, bad], [bad, one], [one, bad, one], [bad, one, one], [bad, bad, one]):
                add([new] + reg + seq + [dec(3, v, 0, 1), dec(3, v2, 0, 1)])
                ops = [new, dec(3, v, 0, 1)]
                for x in seq:
                    ops += [x, dec(3, v, 0, 1), dec(3, v2, 0, 1), dec(0, [17] + v, 0, 1)]
                add(ops)
        for _ in range(60):
            g = G3(rnd, .2, .9, handlers)
            v = g.obj(0)
            if len(v) < 400:
                add([new] + reg + [x for cut in range(len(v)) for x in (dec(3, v[:cut]), new, *reg)] + [dec(3, v)])
    if pid == "A05":
        # the same bytes, by decoders with different pasts
        for _ in range(300 if deep else 80):
            ver = rnd.choice((0, 3))
            g = G0(rnd, 0, G3(rnd, 0, .5)) if ver == 0 else G3(rnd, 0, .5)
            vs = [v for v in (g.val() for _ in range(rnd.randrange(1, 4))) if len(v) < 200]
            if ver == 0:
                vs.insert(rnd.randrange(len(vs) + 1), rnd.choice([[1, rnd.randrange(256)], [10, 0, 0, 0, 1, 1, rnd.randrange(2, 256)]]))
            flat = [x for v in vs for x in v]
            past = [x for v in stream(ver, .2, .5, rnd.randrange(1, 4)) for x in v]
            ops = [new] + reg + [dec(ver, flat, 0, len(vs) + 1)]
            if len(past) < 300:
                ops += [new] + reg + [dec(ver, past, 0, 9), dec(ver, flat, 0, len(vs) + 1), dec(ver, flat, rnd.choice(chunks), len(vs) + 1)]
            ops += [new] + reg + [dec(3 - ver, past, 0, 9), dec(ver, flat, 0, len(vs) + 1), new] + reg + [dec(ver, flat, rnd.choice(chunks), len(vs) + 1)]
            add(ops)
    if pid in ("A04", "A05"):
        reps = (900 if deep else 170)
        for _ in range(reps):
            ver = rnd.choice((0, 3))
            flat = [x for v in stream(ver, .25, .5, rnd.randrange(1, 4)) for x in v]
            if len(flat) > 600:
                continue
            ops = []
            muts = [flat]
            for _ in range(6):
                m = list(flat)
                for _ in range(rnd.choice([1, 1, 2, 4])):
                    z = rnd.random()
                    if not m:
                        break
                    j = rnd.randrange(len(m))
                    if z < .35:
                        m[j] = rnd.choice([0, 1, 2, 3, 7, 8, 9, 10, 11, 12, 16, 17, 127, 128, 254, 255, rnd.randrange(256)])
                    elif z < .5:
                        del m[j]
                    elif z < .65:
                        m.insert(j, rnd.choice([0, 3, 9, 10, 255]))
                    elif z < .8:
                        m = m[:j]
                    else:
                        m[j:j] = rnd.choice([[255, 255, 255, 255], [0, 0, 9], [127, 255, 255, 255], [10, 255, 255, 255, 127], [9, 255, 255, 255, 255]])
                muts.append(m)
            for m in muts:
                c = rnd.choice(chunks if pid == "A05" else (0, 0, -3, -4))
                ops += [new] + reg + [dec(ver, m, c, 6), new] + reg + [batch(ver, m, c)]
            add(ops)
    if pid == "A04":
        # every truncation of streams
        for _ in range(60 if deep else 24):
            for ver in (0, 3):
                flat = [x for v in stream(ver, .2, .5, 2) for x in v]
                if len(flat) > 120:
                    flat = flat[:120]
                ops = []
                for cut in range(len(flat) + 1):
                    ops += [new] + reg + [dec(ver, flat[:cut], 0, 4), new] + reg + [batch(ver, flat[:cut])]
                add(ops)
        # long batches that end inside a value
        for ver, one, last in ((0, [5], [0, 1]), (0, [1, 1], [2, 0, 3, 97]), (3, [4, 5], [6, 7, 97]), (3, [1], [5, 1]), (0, [3, 0, 0, 9], [3, 0, 1]), (3, [12, 1], [9, 3, 1])):
            for n in (0, 1, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 64, 65, 100, 128, 129, 256, 257, 300):
                add([new, batch(ver, one * n + last), new, batch(ver, one * n), new, batch(ver, one * n + last, rnd.choice(chunks))])
        # declared lengths and counts far beyond the input
        decl = []
        for m in (10, 12, 15):
            for n in (1, 100, 65536, 2 ** 20, 2 ** 24, 2 ** 28, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1):
                decl += [(0, [m] + be(n, 4)), (0, [m] + be(n, 4) + [5, 5, 5])]
        for n in (2 ** 16, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1):
            decl += [(0, [8] + be(n, 4) + [0, 0, 9]), (0, [8] + be(n, 4)), (0, [3] + [8] + be(n, 4))]
        for n in (1, 64, 1000, 65536, 2 ** 20, 2 ** 24, 2 ** 28 - 1):
            for m in (6, 7, 9, 11, 12):
                decl += [(3, [m] + u29(n << 1 | 1)), (3, [m] + u29(n << 1 | 1) + [1, 1, 1, 1]), (0, [17, m] + u29(n << 1 | 1) + [1, 1])]
            if n < 2 ** 25:
                decl += [(3, [10] + u29(n << 4 | 3)), (3, [10] + u29(n << 4 | 3) + [1]), (3, [10] + u29(n << 4 | 11) + [1, 3, 97, 3, 98]),
                         (3, [10] + u29(n << 4 | 3) + [1, 3, 97, 4, 1])]
        decl += [(3, [10, 255, 255, 255, 255, 1]), (3, [10, 255, 255, 255, 243, 1, 1, 1])]
        for k in range(0, len(decl), 8):
            ops = []
            for v, d in decl[k:k + 8]:
                ops += [new, dec(v, d), new, batch(v, d)]
            add(ops)
        # every one- and two-byte input
        for ver in (0, 3):
            ops = []
            for x in range(256):
                ops += [new, dec(ver, [x], 0, 2), new, batch(ver, [x])]
                for y in (0, 1, 2, 3, 127, 128, 255):
                    ops += [new, dec(ver, [x, y], 0, 2)]
                if len(ops) > 300:
                    add(ops)
                    ops = []
            add(ops)
        # 64 KiB inputs: survival
        for ver, pat in ((0, [10, 0, 0, 0, 1]), (0, [3, 0, 1, 97]), (0, [8, 0, 0, 0, 0, 0, 1, 97]), (0, [16, 0, 1, 84, 0, 1, 97]), (3, [9, 3, 1]),
                         (3, [10, 11, 1, 3, 97]), (3, [10, 19, 1, 3, 97]), (0, [5]), (3, [1]), (0, [2, 0, 0]), (3, [6, 1]), (3, [12, 1]), (3, [9, 1, 1]),
                         (0, [17, 9, 3, 1]), (0, [3, 0, 0, 9]), (3, [10, 7, 7, 68, 83, 65, 1]), (0, [10, 0, 1, 0, 0]), (0, [12, 0, 0, 0, 0]), (3, [10, 1]),
                         (3, [10, 3, 1]), (0, [255]), (3, [255])):
            d = (pat * (65536 // len(pat) + 1))[:65536]
            add([new, dec(ver, d), new, batch(ver, d, rnd.choice([0, 0, 512]))])
        for _ in range(20 if deep else 4):
            d = [rnd.randrange(256) for _ in range(65536)]
            add([new, dec(rnd.choice((0, 3)), d)])
    return out
