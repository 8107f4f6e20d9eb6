"""SIP messages, headers, addresses and parameters: S01..S08."""
import random

PIDS = ("S01", "S02", "S03", "S04", "S05", "S06", "S07", "S08")
TRACE_MODULE = "TraceSip"
TRACE_CONSTS = {}
LEVEL_NOTE = ("TLC checks a SIP specification over every short text of separators, quotes and escapes, every combination of address parts and "
              "ways of writing them, every short history of a header set and every short stream of messages; those inputs, fragmented "
              "streams, the full tables and seeded random and mutated messages run on the real package and every result is judged by "
              "the specification. Trusts the driver and TLC.")
EXPECT = {
    "S01": ["refused", "accepted", "first-line", "headers", "header-section"],
    "S02": ["request", "response", "reads-back", "nothing-behind", "re-encoded", "same-body", "encoded"],
    "S03": ["accepted", "body", "rest", "built-back-to-back"],
    "S04": ["set", "line", "found", "copied", "content-length", "named", "set-named", "set-encoded", "encoded", "authorization", "map"],
    "S05": ["address", "address-to-uri", "address-again", "address-encoded", "address-read-back", "uri", "uri-to-address", "uri-again",
            "uri-encoded", "uri-read-back", "addresses"],
    "S06": ["via", "via-again", "via-encoded", "via-read-back", "cseq", "cseq-again", "authorization", "via-cseq"],
    "S07": ["pairs", "list", "rendered-semi", "rendered-comma", "rendered-crlf", "rendered-reads-back", "as-a-map"],
    "S08": ["status", "method", "method-refused", "version", "version-refused"],
}
KINDS = '{"req", "body", "lf", "fold", "big", "dup", "nolen", "badlen", "nover", "badver", "badmeth", "badcode", "blank"}'
LINES = '{"to1", "t1", "T2", "via1", "v1", "len", "l", "x", "empty", "noname", "junk", "fold", "tab"}'
SOME = '{"to1", "t1", "v1", "l", "empty", "noname", "fold"}'


def specs(pid, tier):
    deep = tier == "thorough"
    args = dict(module="SipArgs", name="sip-args", consts={"Depth": (5 if pid == "S07" else 4) if deep else 4 if pid == "S07" else 3,
                                                           "Emit": "TRUE" if pid in ("S06", "S07") else "FALSE",
                                                           "Alphabet": "{97, 61, 34, 92, 44, 59, 32, 10}"},
                invariants=["NothingLost", "Elements", "Trimmed", "QuotedBack", "OnePerName", "LastWins", "EmitBehaviour"], workers=4)
    addr = dict(module="SipAddr", name="sip-addr", consts={"Deep": "TRUE" if deep else "FALSE", "Emit": "TRUE"},
                invariants=["AddressesRead", "UrisRead", "ViasRead", "EmitBehaviour"], workers=4)
    hdr = [dict(module="SipHdr", name="sip-hdr", consts={"Depth": 3 if pid == "S04" else 2, "Emit": "TRUE", "LineSet": LINES},
                invariants=["LowerNames", "OncePerName", "Found", "JustSet", "Again", "Sure", "EmitBehaviour"],
                properties=["SetOnly", "LineOnly"], workers=4)]
    if deep and pid == "S04":
        hdr.append(dict(module="SipHdr", name="sip-hdr-deep", consts={"Depth": 5, "Emit": "FALSE", "LineSet": SOME},
                        invariants=["LowerNames", "OncePerName", "Found", "JustSet", "Again", "Sure", "EmitBehaviour"],
                        properties=["SetOnly", "LineOnly"], workers=4))
    msg = dict(module="SipMsg", name="sip-msg", consts={"Depth": (4 if deep else 3) if pid == "S03" else 2, "Emit": "TRUE", "Kinds": KINDS if pid != "S03" or not deep else
                                                        '{"req", "body", "lf", "fold", "big", "dup", "badlen", "blank"}'},
               invariants=["Split", "Rebuilt", "EmitBehaviour", "EmitMessages"], workers=4)
    return {"S01": [msg] + hdr, "S02": [msg] + hdr, "S03": [msg], "S04": hdr, "S05": [addr], "S06": [addr, args], "S07": [args],
            "S08": [msg]}[pid]


def b(x):
    return list(x.encode() if isinstance(x, str) else x)


METHODS = "INVITE ACK BYE CANCEL OPTIONS REGISTER PRACK SUBSCRIBE NOTIFY PUBLISH INFO REFER MESSAGE UPDATE PING".split()
COMPACT = {"accept-contact": "a", "allow-events": "u", "call-id": "i", "contact": "m", "content-encoding": "e", "content-length": "l",
           "content-type": "c", "event": "o", "from": "f", "identity": "y", "refer-to": "r", "referred-by": "b", "reject-contact": "j",
           "request-disposition": "d", "session-expires": "x", "subject": "s", "supported": "k", "to": "t", "via": "v"}
CODES = [100, 180, 181, 182, 183, 200, 300, 301, 302, 305, 380] + list(range(400, 411)) + [413, 414, 415, 416, 420, 421, 423] + list(range(480, 489)) + \
    [491, 493, 500, 501, 502, 503, 504, 505, 513, 600, 603, 604, 606]


def parts(typ="sip", name="", user="", host="", port="", args=()):
    return dict(flds=[b(typ), b(name), b(user), b(host), b(port)], args=[[b(k), b(v)] for k, v in args])


def scenarios(pid, tier, seed, behaviours):
    deep = tier == "thorough"
    rnd = random.Random("sip/%s/%d" % (pid, seed))
    out = []

    def add(ops):
        out.append({"sc": len(out), "c": "sip", "ops": [{"op": "new"}] + ops})

    pend = []

    def single(op):
        """Operations without state share scenarios."""
        pend.append(op)
        if len(pend) >= 40:
            add(list(pend))
            pend.clear()

    def rb(n):
        return [rnd.randrange(256) for _ in range(n)]

    def ch(s):
        return rnd.choice(s)

    def recase(s):
        return "".join(c.upper() if rnd.random() < .4 else c.lower() for c in s)

    msgs = next((x["msgs"] for x in behaviours if isinstance(x, dict) and "msgs" in x), {})
    hists = [x["hist"] for x in behaviours if isinstance(x, dict) and "hist" in x]
    streams = [x["stream"] for x in behaviours if isinstance(x, dict) and "stream" in x]
    addrs = [x for x in behaviours if isinstance(x, dict) and "a" in x]
    vias = [x for x in behaviours if isinstance(x, dict) and "v" in x]
    texts = [x for x in behaviours if isinstance(x, list)]

    # ---- pieces of random well-formed material
    TOK = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789-.!%*_+`'~"

    def far():
        # now and then a piece is much longer than the rest
        return ch([31, 32, 33, 60, 63, 64, 65, 70, 127, 128, 129, 200, 255, 256, 257, 300]) if rnd.random() < .04 else 0

    def token(n=8):
        return "".join(ch(TOK) for _ in range(far() or rnd.randrange(1, n)))

    def host():
        h = ch(["h", "biloxi.com", "192.0.2.%d" % rnd.randrange(256), "a-b.c-%d.example" % rnd.randrange(99), "[2001:db8::%x]" % rnd.randrange(65536), "[::1]",
                "[" + ":".join("%04x" % rnd.randrange(65536) for _ in range(8)) + "]", "[2001:0db8:85a3:0000:0000:8a2e:192.168.100.%d]" % rnd.randrange(256), "[::]"])
        n = far()
        if n:
            h = ".".join("".join(ch("abcxyz0189-") for _ in range(min(n, 63))) for _ in range(1 + n // 64))
        return recase(h) if rnd.random() < .3 else h

    def port():
        return ch(["", "", "", "5060", "1", "0", "00", "080", "05060", "65535", str(rnd.randrange(65536)), str(rnd.randrange(65536))])

    def user():
        return ch(["bob", "", "+1-212-555(1212)", "a:pw", "34020000001320000001", "x%20y", token(), "a=b&c$d/e?f,g"])

    def name():
        n = far()
        return "x" + "".join(ch('abcdef ghi.j"\\<>;:@,') for _ in range(n - 2)) + "y" if n else ch(["", "Bob", "Anonymous", "Mr. Watson", 'q"q', "b\\s", "a<b>c", "x;y,z", "t:u@v", "tab\tin", "\u03b1\u00a0\u03b2!", "sip:a@b", "anonymous",
                   '"', "\\", "a\\\"b", "".join(ch('ab"\\ <>;:@,') for _ in range(rnd.randrange(1, 7))).strip()])

    def value():
        return ch(["", token(), token(), "a b", "=x", "a=b", "z9hG4bK" + token(), "<x>", "\\q", "v:1/2", "p@q", "!\u03b1!"])

    def args(k=3):
        n = min(far(), 70) // 2
        return list({token(5): value() for _ in range(n or rnd.randrange(k + 1))}.items())

    def solid(a):
        return [(k, v) for k, v in a if " " not in v]

    def hostless(a):
        return parts(ch(["tel"]), a, "+" + str(rnd.randrange(10**11)), "", "", args())

    def addr_parts():
        if rnd.random() < .1:
            return parts("tel", name(), ch(["110", "+12125551212"]), "", "", args())
        return parts(ch(["sip", "sips"]), name(), user(), host(), port(), args())

    def uri_parts():
        if rnd.random() < .1:
            return parts("tel", "", ch(["110", "+12125551212"]), "", "", solid(args()))
        return parts(ch(["sip", "sips"]), "", user(), host(), port(), solid(args()))

    def quote(s):
        return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'

    def argtext(a):
        return "".join(";" + k + ("=" + v if v else "") for k, v in a)

    def outside(a):
        # parameters after the address, some with a quoted value
        t = ""
        for k, v in a:
            if rnd.random() < .3:
                v = ch([v, v, "<z>", ">", "a;b", "a, b", "x;y=<z>", "", "a>b;c", '\\"', "\\\\"])
                t += ";" + k + '="' + v + '"'
            else:
                t += argtext([(k, v)])
        return t

    def text(p, style=None):
        f = [bytes(x).decode() for x in p["flds"]]
        a = [(bytes(k).decode(), bytes(v).decode()) for k, v in p["args"]]
        core = (recase(f[0]) if rnd.random() < .2 else f[0]) + ":" + f[2] + ("@" if f[2] and f[3] else "") + f[3] + (":" + f[4] if f[4] else "")
        s = style if style is not None else rnd.randrange(4)
        n = quote(f[1]) + " " * rnd.randrange(2) if f[1] else ""
        if s == 0 and not f[1]:
            return core + argtext(a)
        if s == 1:
            k = rnd.randrange(len(a) + 1)
            if all(" " not in v and '"' not in v and "<" not in v for _, v in a[:k]):
                return n + "<" + core + argtext(a[:k]) + ">" + outside(a[k:])
        return n + "<" + core + ">" + ch(["", " "]) + outside(a)

    def held(pool=()):
        # what the target of a copy holds already
        return dict(args=[[b(ch(list(pool) or NAMES + list(COMPACT.values()))), b(token())] for _ in range(rnd.randrange(4))]) if rnd.random() < .7 else {}

    NAMES = list(COMPACT) + ["cseq", "max-forwards", "user-agent", "authorization", "expires", "route", "x-a", "allow", "reason-phrase"]

    def hvalue(n):
        n = n.lower()
        if n in ("from", "to", "contact", "f", "t", "m"):
            return text(addr_parts())
        if n in ("via", "v"):
            return "%s/2.0/%s %s%s" % (ch(["SIP", "SIP", "SIP", "sip", "sIp"]), ch(["UDP", "TCP", "WSS", token(4)]), host(), argtext(args()))
        if n == "cseq":
            return "%d %s" % (rnd.randrange(1 << 31), ch(METHODS))
        if n == "authorization":
            return recase("Digest") + " " + ", ".join('%s="%s"' % (token(5), token(9)) for _ in range(4))
        return ch(["", token(), token() + " " + token(), "a;b,c:d", "\"x\"", "70", "a\tb", token() + "=" + token()])

    def message(junk=.1, bodies=(0, 1, 2, 7, 20, 100), length=True):
        """A well-formed message in one of the many ways to write it."""
        nl = ch(["\r\n", "\r\n", "\n"])
        body = rb(ch(bodies))
        if rnd.random() < .3 and body:
            k = rnd.randrange(len(body))
            body = body[:k] + b(ch(["\r\n\r\n", "\n\n", "\r\n", "BYE sip:a SIP/2.0\r\n"])) + body[k:]
        if rnd.random() < .3:
            first = "%s %d %s" % (recase("SIP") if 0 else "SIP" + "/" + ch(["1.0", "2.0"]), ch(CODES + [299, 700, 99, 0, 123456]), ch(["OK", "", "Not  Found", "a b c "]))
        else:
            first = "%s %s %s" % (recase(ch(METHODS)), text(uri_parts(), 0), recase("SIP/" + ch(["1.0", "2.0"])))
        hs = []
        for _ in range(min(far(), 70) or rnd.randrange(8)):
            n = ch([x for x in NAMES if x != "content-length"])
            if n in COMPACT and rnd.random() < .3:
                n = COMPACT[n]
            v = hvalue(n)
            sp = ch(["", " ", "\t", "  ", " \t "])
            line = recase(n) + ch(["", "", "", " ", "\t"]) + ":" + sp + v
            if rnd.random() < .2:
                line += nl + ch([" ", "\t", "   "]) + ch(["folded", "x;y", "\"q\""]) + ch(["", " "])
            hs.append(line)
        if rnd.random() < junk:
            hs.append(ch(["junk", "nocolon here", ":", ": v", "X", "a b: c"]))
        if length:
            hs.insert(rnd.randrange(len(hs) + 1), ch(["Content-Length: %d", "content-length:%d", "l: %d ", "L:\t%d", "CONTENT-LENGTH:   0%d"]) % len(body))
            if rnd.random() < .05:
                hs.append("Content-Length: 3" if not any(h.lower().startswith("l:") for h in hs) else "X: y")
        return b(first + nl + "".join(h + nl for h in hs) + nl) + body

    def mutate(m):
        m = list(m)
        for _ in range(rnd.randrange(1, 4)):
            k = rnd.randrange(len(m) + 1)
            r = rnd.random()
            if r < .3 and m:
                m[k % len(m)] = rnd.randrange(256)
            elif r < .5:
                m[k:k] = [ch([10, 13, 32, 9, 58, 34, 92, 59, 60, 62, 0, 255])]
            elif r < .7:
                del m[k:k + rnd.randrange(1, 5)]
            elif r < .85:
                m = m[:k]
            else:
                m[k:k] = m[max(0, k - rnd.randrange(1, 20)):k]
        return m

    CH = [0, 1, 2, 3, 7, -1, -2, -3, -4, 16, 100]

    def parse(d, c=None):
        return dict(op="parse", data=list(d), chunk=ch(CH) if c is None else c)

    def made(op="make", **kw):
        n = rnd.randrange(6)
        hs = {}
        for _ in range(n):
            k = ch(NAMES + list(COMPACT.values()))
            if k in ("l", "content-length") and rnd.random() < .5:
                continue
            if k.lower() in [x.lower() for x in hs]:
                continue
            if k not in ("l", "content-length") and rnd.random() < .3:
                k = recase(k)
            hs[k] = [hvalue(k).strip() for _ in range(ch([1, 1, 1, 2, 3, 0]))]
        d = dict(op=op, fn=ch(["req", "req", "resp"]), data=rb(ch([0, 0, 1, 5, 40])), ver=ch([1, 2]), hdrs=[[b(k)] + [b(v) for v in vs] for k, vs in hs.items()])
        d.update(uri_parts())
        d["num"] = ch(CODES + [299, 0, 999]) if d["fn"] == "resp" else rnd.randrange(1, 16)
        if op == "twice":
            d["chunk"] = ch(CH)
        d.update(kw)
        return d

    # ---- the properties
    if pid == "S01":
        for n, m in msgs.items():
            for c in CH:
                single(parse(m, c))
            for k in range(len(m)) if len(m) < 400 else range(0, len(m), 97):
                single(parse(m[:k], 0))
            single(dict(op="parseb", data=m))
        for h in hists:
            d = b("OPTIONS sip:a@b SIP/2.0\r\n")
            for x in h:
                d += (x["d"] if x["k"] == "line" else x["n"] + [58] + x["v"]) + [13, 10]
            single(parse(d + [13, 10, 1, 2, 3], 0))
        for f in ["", " ", "INVITE", "INVITE ", "INVITE sip:a", "INVITE sip:a ", "INVITE  SIP/2.0", "INVITE sip:a SIP/2.0 ", " INVITE sip:a SIP/2.0", "INVITE sip:a  SIP/2.0",
                  "SIP/2.0", "SIP/2.0 200", "SIP/2.0 200 ", "SIP/2.0  OK", "SIP/2.0 200 OK", "SIP/2.0 2.0 OK", "SIP/2.0 -1 x", "SIP/2.0 +1 x", "SIP/2.0 99999999999999999999 x",
                  "SIP/2.0 0200 OK", "SIP/2.1 200 OK", "SIP 200 OK", "SIPX/2.0 200 OK", "SIP/2.00 200 OK", "sip/2.0 200 OK", "SIP/1.0 404 Not Found", "Sip/2.0 200 OK", "SIp sip:a SIP/2.0", "sIp/1.0 404 x y", "sIP/3.0 200 OK", "sips sip:a SIP/2.0", "sip/2.0 x OK",
                  "FOO sip:a SIP/2.0", "INVITE sip:a SIP/2", "INVITE sip:a HTTP/1.1", "invite sip:a sip/2.0", "\x00 \x00 \x00", "INVITE\tsip:a\tSIP/2.0", "\u0130NVITE sip:a SIP/2.0"]:
            for nl in ("\r\n", "\n"):
                for tail in ("Content-Length: 0" + nl + nl, nl, "", "l:2" + nl + nl + "ab", "Content-Length: 0"):
                    single(parse(b(f + nl + tail), 0))
        for v in ["0", "1", "4", "04", "", " ", "x", "1x", "0x1", "1 2", "-1", "+1", "1.0", "1,2", "99999999999999999999", "999999999999", "2147483648", "1e3", "\u0661", "1_0"]:
            for n in ("Content-Length", "l", "content-LENGTH"):
                for w in ("%s:%s", "%s: %s ", "%s:\t%s\t", "%s:\r\n %s"):
                    single(parse(b("ACK sip:a SIP/2.0\r\n" + w % (n, v) + "\r\n\r\nwxyz"), 0))
        for size in (1000, 4000, 4090, 4093, 4094, 4095, 4096, 4097, 5000, 9000):
            for c in (0, 7):
                single(parse(b("ACK sip:a SIP/2.0\r\nX: ") + [120] * (size - 3) + b("\r\nContent-Length: 2\r\n\r\nab"), c))
            single(parse([65] * size, 0))
            single(parse([13] * size, 0))
            single(parse([32] * size + [10], 0))
        single(parse(b("ACK sip:a SIP/2.0\r\n") + b("a:b\r\n") * 800 + b("l:0\r\n\r\n"), 0))
        single(parse(b("ACK sip:a SIP/2.0\r\na:b\r\n") + b(" c\r\n") * 300 + b("l:0\r\n\r\n"), 0))
        single(parse(b("ACK sip:a SIP/2.0\r\n") + sum((b("h%d: %s\r\n" % (k, "v" * (k % 60))) for k in range(1100)), []) + b("l:1\r\n\r\nxyz"), 0))
        for n, k in ((2, 1000), (3, 1000), (10, 250), (30, 100), (40, 120), (100, 50), (20, 1000)):
            for end in ("", "Y: z\r\n c\r\n", "\tend\r\n"):
                single(parse(b("ACK sip:a SIP/2.0\r\nX:a\r\n" + "".join(" " + ch("abc") * (k + j % 3) + "\r\n" for j in range(n)) + end + "l:2\r\n\r\nxy")))
        for _ in range(3000 if deep else 500):
            single(parse(message()))
        for _ in range(5000 if deep else 700):
            single(parse(mutate(message())))
        for _ in range(1500 if deep else 200):
            single(parse(rb(rnd.randrange(60))))
            single(parse([ch(b("SIP/2.0 INVITE:l\r\n\t;<>\"1")) for _ in range(rnd.randrange(80))]))

    if pid == "S02":
        for _ in range(3000 if deep else 500):
            single(made())
        for m in range(1, 16):
            for v in (1, 2):
                single(made(fn="req", num=m, ver=v, **uri_parts()))
        for c in CODES + [0, 1, 99, 199, 206, 299, 499, 599, 699, 999, 1000, 65535]:
            single(made(fn="resp", num=c))
        for size in [0, 1, 2, 9, 10, 99, 100, 999, 4000, 4095, 4096, 4097, 8192, 10000] + ([20000, 40000] if deep else []):
            single(made(data=rb(size)))
        for k in NAMES + list(COMPACT.values()):
            for vs in ([""], ["a"], ["a", "b"], ["b", "a", "b"], ["", ""], ["x", "", "y"]):
                if k in ("l", "content-length"):
                    vs = ["9"]
                single(made(hdrs=[[b(k)] + [b(v) for v in vs]]))
        for h in hists:
            hs = {}
            for x in h:
                if x["k"] == "set":
                    hs.setdefault(bytes(x["n"]).lower(), []).append(x["v"])
            single(made(hdrs=[[list(k)] + v for k, v in hs.items()]))
            # the same header set, encoded
            add([dict(op="hline", data=x["d"]) if x["k"] == "line" else dict(op="hset", s1=x["n"], s2=x["v"]) for x in h] + [dict(op="hbytes")])
        for m in msgs.values():
            single(dict(op="reenc", data=m))
        for _ in range(2500 if deep else 350):
            single(dict(op="reenc", data=message()))
        for _ in range(1000 if deep else 150):
            single(dict(op="reenc", data=message(bodies=(0,))))
            single(dict(op="reenc", data=mutate(message())))

    if pid == "S03":
        for h in streams:
            d = sum((msgs[n] for n in h), [])
            for c in ([0, 1, 7, -1, -3, -4] if len(d) < 2500 else [0, ch([3, 100, 1000])]):
                single(dict(op="stream", data=d, chunk=c, num=len(h) + 1))
        for size in [0, 1, 2, 100, 4000, 4094, 4095, 4096, 4097, 4098, 8190, 8191, 8192, 8193, 12288, 20000]:
            for c in (0, 1, 5, 1000, 4095, 4096, 4097, -1, -3, -4):
                if c in (1, 5) and size > 9000:
                    continue
                d = []
                for k in range(3):
                    d += b("INFO sip:a SIP/2.0\r\nContent-Length: %d\r\n\r\n" % size) + [(size + j + k) & 255 for j in range(size)]
                single(dict(op="stream", data=d, chunk=c, num=4))
        for size in (33000, 66000):
            single(dict(op="stream", data=b("INFO sip:a SIP/2.0\r\nContent-Length: %d\r\n\r\n" % size) + [(size + j) & 255 for j in range(size)] + b("BYE sip:a SIP/2.0\r\nl:0\r\n\r\n"), chunk=ch([0, 4096]), num=2))
        # the last read fills the caller's own buffer to the last byte of the message
        for k in (1, 2, 3):
            for off in (-1, 0, 1):
                for c in (0, -1, -3, -4, 4096):
                    size = 4096 * k - 44 + off
                    h = b("INFO sip:a SIP/2.0\r\nContent-Length: %4d\r\n\r\n" % size)
                    single(dict(op="stream", data=h + [(size + j) & 255 for j in range(size)], chunk=c, num=2))
        # the end of a header section on every side of the reader's buffer
        for pad in list(range(4040, 4060)) + ([8130 + k for k in range(25)] if deep else []):
            hs = "".join("X: %s\r\n" % ("y" * min(1000, k)) for k in ([1000] * (pad // 1000) + [pad % 1000]))
            d = b("INFO sip:a SIP/2.0\r\nContent-Length: 3\r\n" + hs + "\r\n") + [1, 2, 3] + b("BYE sip:a SIP/2.0\r\nl:0\r\n\r\n") + [9]
            for c in (0, 64, -3):
                single(dict(op="stream", data=d, chunk=c, num=3))
        for _ in range(1200 if deep else 200):
            d = sum((message(bodies=(0, 1, 3, 30, 300)) for _ in range(rnd.randrange(1, 6))), [])
            if rnd.random() < .2:
                d = d[:len(d) - rnd.randrange(len(d))]
            single(dict(op="stream", data=d, chunk=ch(CH), num=7))
        for _ in range(600 if deep else 120):
            single(made("twice"))
        for size in (1, 4095, 4096, 4097, 9000):
            single(made("twice", data=rb(size)))
        for _ in range(300 if deep else 60):
            single(parse(message(bodies=(0, 5, 50)) + rb(rnd.randrange(30))))

    if pid == "S04":
        look = [b(x) for x in ("to", "TO", "t", "Via", "v", "Content-Length", "L", "subject", "x-FOO", "cseq", "")]
        for h in hists:
            ops = []
            for x in h:
                ops.append(dict(op="hline", data=x["d"]) if x["k"] == "line" else dict(op="hset", s1=x["n"], s2=x["v"]))
            ops += [dict(op="hshare", s1=ch(look), s2=b(token()))]
            ops += [dict(op="hget", s1=ch(look)) for _ in range(2)] + [dict(op="hcopy", flds=[b("To"), b("VIA"), b("cseq")], **held(["to", "t", "via", "v", "cseq", "x"]))]
            ops += [dict(op=ch(["hbytes", "hnamed"]))]
            add(ops)
        # every compact form, in each direction
        for n, c in COMPACT.items():
            add([dict(op="hline", data=b(recase(c) + ": one")), dict(op="hget", s1=b(recase(n))), dict(op="hget", s1=b(c.upper())), dict(op="hget", s1=b(n)),
                 dict(op="hline", data=b(c + ": two")), dict(op="hget", s1=b(n.upper())), dict(op="hcopy", flds=[b(recase(n))], **held([n.lower(), c.lower(), "x"])),
                 dict(op="hline", data=b(recase(n) + ": three")), dict(op="hget", s1=b(n)), dict(op="hget", s1=b(c)), dict(op="hset", s1=b(c.upper()), s2=b("four")),
                 dict(op="hset", s1=b(recase(n)), s2=b("five")), dict(op="hget", s1=b(c)), dict(op="hget", s1=b(n)), dict(op="hline", data=b(" six")),
                 dict(op="hbytes"), dict(op="hnamed")])
            for m, k in COMPACT.items():
                if m != n and rnd.random() < (1 if deep else .3):
                    add([dict(op="hline", data=b(c + ": one")), dict(op="hline", data=b(m + ": two")), dict(op="hset", s1=b(m), s2=b("three")), dict(op="hget", s1=b(n)),
                         dict(op="hget", s1=b(m)), dict(op="hget", s1=b(k))])
        setters = ["content-length", "call-id", "max-forwards", "reason-phrase", "supported", "subject", "content-type", "allow", "from", "to", "contact", "cseq", "via"]

        def setter(fn):
            d = dict(op="hsetn", fn=fn, num=ch([0, 1, 70, 4096, 1000000]), s1=b(str(rnd.randrange(999)) if fn == "cseq" else token()), s2=b(ch(METHODS)))
            if fn == "via":
                d.update(parts(ch(["UDP", "TLS-SCTP"]), "", "", host(), port(), args()))
            else:
                d.update(addr_parts())
            return d
        for fn in setters:
            for _ in range(6):
                ops = []
                if fn in COMPACT:
                    ops.append(dict(op="hline", data=b(COMPACT[fn] + ": old")))
                if rnd.random() < .5:
                    ops += [dict(op="hline", data=b(recase(fn) + ": older")), dict(op="hline", data=b(fn + ": old2"))]
                add(ops + [setter(fn), dict(op="hnamed"), dict(op="hget", s1=b(recase(fn))), dict(op="hbytes")])
        for _ in range(1500 if deep else 250):
            ops = []
            pool = [ch(NAMES) for _ in range(4)] + [COMPACT.get(ch(NAMES), "t") for _ in range(2)]
            for _ in range(rnd.randrange(4, 20)):
                n = ch(pool)
                r = rnd.random()
                if r < .3:
                    ops.append(dict(op="hline", data=b(recase(n) + ch([":", " :", "\t:"]) + ch(["", " ", "\t"]) + hvalue(n))))
                elif r < .35:
                    ops.append(dict(op="hline", data=b(ch([" ", "\t"]) + ch(["more", "a, b", ""]))))
                elif r < .5:
                    ops.append(dict(op="hset", s1=b(recase(n)), s2=b(hvalue(n).strip())))
                elif r < .58:
                    ops.append(dict(op="hraw", s1=b(n), flds=[b(hvalue(n).strip()) for _ in range(rnd.randrange(3))]))
                elif r < .66:
                    ops.append(setter(ch(setters)))
                elif r < .8:
                    ops.append(dict(op="hget", s1=b(recase(ch(pool + NAMES)))))
                elif r < .87:
                    ops.append(dict(op="hcopy", flds=[b(recase(ch(pool + NAMES))) for _ in range(rnd.randrange(5))], **held()))
                elif r < .94:
                    ops.append(dict(op="hnamed"))
                else:
                    ops.append(dict(op="hbytes"))
            add(ops)
        for n in ("User-Agent", "X", "CONTENT-Type"):
            add([dict(op="hraw", s1=b(n), flds=[b("a"), b("b")]), dict(op="hraw", s1=b("to"), flds=[b("x")]), dict(op="hbytes")])

    if pid == "S05":
        for x in addrs:
            a = x["a"]
            p = dict(flds=[a[k] for k in ("typ", "name", "user", "host", "port")], args=a["args"])
            single(dict(op="userb", **p))
            for w in x["w"]:
                if deep or rnd.random() < .5:
                    single(dict(op="user", s1=w))
            for w in x["u"]:
                single(dict(op="uri", s1=w))
                single(dict(op="urib", **p))
        for s in ["", " ", "<", ">", "<>", "sip:", "<sip:>", "sip:@", "sip:a@", "sip:@b", "sip::5", "sip:a@b:", "sip:a@b:5x", "sip:a@b;", "sip:a@b;;", "sip:a@b;=", "sip:a@b;=x", "\"", "\"\"", "\"a", "\"a\"",
                  "\"a\\", "\"a\\\"", "\"a\" <sip:b", "a <sip:b>", "a b  <sip:b>", "\"a\"<sip:b>", "Bob sip:b@c", "<sip:b@c>x", "<sip:b@c> ;x", "<sip:b@c>;x=1;x=2", "<sips:[::1]>", "<sip:u@[::1]:99;a=b>;c=d",
                  "sip:[::1]", "sip:[::1]:5", "sip:[::1", "sip:u@[::1", "tel:", "tel:+1", "<tel:+1;phone-context=x>", "mailto:a@b", "<mailto:a@b>", "SIP:a@b", "Sips:a@b:1", "<TEL:+1>", "sIp:h;x", "A <SIPS:a@b>", "sipS:a@b", "sip:a@b?x=y", "sip:a@b@c", "*", "sip:a b@c", "<sip:a@b",
                  "sip:a@b>", "\"x\" \"y\" <sip:a@b>", "x \"y\" <sip:a@b>", "\"a;b\" <sip:c@d;e>;f", "sip:a@b ;tag=1", "\u00a0<sip:a@b>", "<sip:a@b;lr;x=\"y>z\">;t=1"]:
            for o in ("user", "uri"):
                single(dict(op=o, s1=b(s)))
        for _ in range(6000 if deep else 900):
            p = addr_parts()
            single(dict(op="userb", **p))
            single(dict(op="user", s1=b(text(p))))
            q = uri_parts()
            single(dict(op="urib", **q))
            single(dict(op="uri", s1=b(text(q, 0))))
        for _ in range(4000 if deep else 500):
            single(dict(op=ch(["user", "uri"]), s1=mutate(b(text(addr_parts())))))
            single(dict(op=ch(["user", "uri"]), s1=[ch(b("sip:tel<>\"\\@; =a[]")) for _ in range(rnd.randrange(30))]))
        for k in range(-2, 8):
            for n in range(-2, 8):
                single(dict(op="substr", s1=b("abcde"), num=k, n=n))
        for _ in range(200):
            single(parse(message(), 0))

    if pid == "S06":
        for x in vias:
            v = x["v"]
            single(dict(op="viab", flds=[v["trans"], v["host"], v["port"]], args=v["args"]))
            for w in x["w"]:
                single(dict(op="via", s1=w))
        for t in texts:
            if rnd.random() < (.5 if deep else .15):
                single(dict(op="auth", s1=b(recase("Digest") + " ") + t))
        for s in ["", "SIP/2.0/", "SIP/2.0/UDP", "SIP/2.0/UDP ", "SIP/2.0/ h", "SIP/2.0/UDP;x", "SIP/2.0/UDP h:", "SIP/2.0/UDP :5", "sip/2.0/UDP h", "SIP/3.0/UDP h", "SIP / 2.0 / UDP h", "Sip/2.0/tcp h:1;x", "sip/2.0/", "sIP/2.0/UDP [::1]:5;branch=1", "sip/2.1/UDP h", "SIP/2.0/UDP [::1]",
                  "SIP/2.0/UDP [::1]:5060;x", "SIP/2.0/UDP [::1", "SIP/2.0/UDP h;", "SIP/2.0/UDP h;;", "SIP/2.0/UDP h, SIP/2.0/TCP g", "SIP/2.0/UDP a b", "x SIP/2.0/UDP h", "SIP/2.0/UDP  h : 5 ; x = y", "SIP/2.0/U,D h;received=192.0.2.1"]:
            single(dict(op="via", s1=b(s)))
        for s in ["", "1", " ", "1 ", " INVITE", "1 INVITE", "1  INVITE", "1 INVITE ", "4711 FOO", "1 A B", "x INVITE", "0 ACK", "2147483647 BYE", "99999999999 BYE", "1\tBYE"]:
            single(dict(op="cseq", s1=b(s)))
        for s in ["", "Digest", "Digest ", "Digest a", "Digest a=b", "digest a=b", "DIGEST a=b", "dIgEsT a=\"b\"", "Digestx a=b", "Basic abc=", "Basic a=b", " Digest a=b", "Digest  a=b", "Digest a=\"b,c\", d=e",
                  "Digest a=\"b\\\"c\",d=\"\"", "Digest a=b,", "Digest ,a=b", "Digest a=b,\n c=d", "Digest a", "Digest username=\"Alice\", realm=\"at;la,nta.com\",\r\n nonce=\"84a4=\", qop=auth, nc=00000001",
                  "Diges a=b", "Digest a=\"", "Digest a=\"\"", "Digest=a a=b", "Bearer x=y", "NTLM a=\"b\""]:
            single(dict(op="auth", s1=b(s)))
        for _ in range(4000 if deep else 600):
            single(dict(op="viab", flds=[b(ch(["UDP", "TCP", "TLS", "SCTP", "WS", token()])), b(host()), b(port())], args=[[b(k), b(v)] for k, v in args()]))
            h, p = host(), port()
            single(dict(op="via", s1=b(ch(["", " "]) + ch(["SIP/2.0/", "SIP/2.0/", "sip/2.0/", "Sip/2.0/"]) + ch(["UDP", "WSS", token()]) + ch([" ", "  "]) + h + ((ch([":", " :", ": "]) + p) if p else "") + ch(["", " "]) + argtext(args()))))
            single(dict(op="cseq", s1=b(str(rnd.randrange(1 << 31)) + " " * rnd.randrange(1, 3) + ch(METHODS))))
            single(dict(op="auth", s1=b(recase(ch(["Digest", "Digest", "Digest", "Basic", "Digests"])) + " " + ch([",", ", ", ",\r\n "]).join(
                k + "=" + (quote(v) if rnd.random() < .6 else v) for k, v in args(6)))))
        for _ in range(1500 if deep else 200):
            single(dict(op="via", s1=mutate(b("SIP/2.0/UDP pc33.atlanta.com:5060;branch=z9"))))
            single(dict(op="cseq", s1=mutate(b("4711 INVITE"))))
            single(dict(op="auth", s1=mutate(b('Digest username="Alice", realm="atlanta.com", qop=auth'))))
        for _ in range(200):
            single(parse(message(), 0))

    if pid == "S07":
        for t in texts:
            r = rnd.random()
            if len(t) == 5 and r > .5:
                continue
            single(dict(op="pairs", s1=t, fn=""))
            single(dict(op="list", s1=t))
            if r < .2:
                single(dict(op="pairs", s1=t, fn="semi"))
        SYM = ["a", "b", "tag", "=", ";", ",", "\n", "\"", "\\", " ", "\t", "\r", "\u03b1", "x=y", "k=\"v\"", "\"a,b\"", "\"\\\"\"", "==", "\x00", "\u2028."]
        for _ in range(6000 if deep else 900):
            t = b("".join(ch(SYM) for _ in range(rnd.randrange(1, 25))))
            if rnd.random() < .1:
                t = mutate(t + [200, 97])
            for o in (dict(op="pairs", fn=ch(["", "semi"])), dict(op="list")):
                single(dict(o, s1=t))
        for n in (1025, 1300):
            for t in ("a" * n, "k=" + "v" * n, "k=\"" + "v;," * (n // 3) + "\";b=c", "x=y;" + "k" * n + "=v;z=" + "w" * n, "a,b," + "c" * n + ",d"):
                single(dict(op="pairs", fn=ch(["", "semi"]), s1=b(t)))
                single(dict(op="list", s1=b(t)))
            for fn in ("semi", "comma", "crlf"):
                single(dict(op="argstr", fn=fn, args=[[b("a"), b("x" * n)], [b("b"), b("y")]]))
        for n in (65, 130, 300):
            single(dict(op="list", s1=b(",".join("v%d" % k for k in range(n)))))
            single(dict(op="pairs", fn="", s1=b(",".join("k%d=%d" % (k, k) for k in range(n)))))
            single(dict(op="pairs", fn="semi", s1=b(";".join("k%d=%d" % (k, k) for k in range(n)))))
        for n in (100, 1000):
            single(dict(op="list", s1=b("a;" * (n // 2))))
            single(dict(op="pairs", fn="", s1=b("k=\"" + "\\\"" * (n // 2) + "\"")))
        for _ in range(3000 if deep else 500):
            a = [[b(k), b(v)] for k, v in args(6)]
            for fn in ("semi", "comma", "crlf"):
                single(dict(op="argstr", fn=fn, args=a))
            q = [[b(token(4)), b("".join(ch(SYM) for _ in range(rnd.randrange(6))))] for _ in range(rnd.randrange(3))]
            if len({bytes(x[0]) for x in q}) == len(q):
                single(dict(op="argstr", fn="comma", args=q))
            k = ch(a)[0] if a and rnd.random() < .7 else b(token())
            single(dict(op="argop", args=a, s1=k, s2=b(value())))
        for v in range(256):
            single(dict(op="argstr", fn="comma", args=[[b("k"), [97, v, 98]]]))
            single(dict(op="pairs", fn="", s1=b("k=") + [97, v, 98]))

    if pid == "S08":
        for n in list(range(-5, 1100)) + [1 << 15, 65536 + 200, 1 << 30, -200, 2000, 20000]:
            single(dict(op="status", num=n))
        for w in METHODS + ["SIP/1.0", "SIP/2.0"]:
            vs = {w, w.lower(), w.capitalize()} | {recase(w) for _ in range(6)}
            bad = {w + " ", " " + w, w + "S", w[:-1], w[1:], w + "\x00", w.replace("I", "1"), w + w}
            for k in range(len(w)):
                bad |= {w[:k] + w[k + 1:], w[:k] + ch("QZ_0") + w[k + 1:], w[:k] + w[k] + w[k:]}
                vs.add(w[:k] + w[k].lower() + w[k + 1:])
            for x in sorted(vs | bad):
                single(dict(op="method", s1=b(x)))
                single(dict(op="version", s1=b(x)))
            # every character before, behind, and somewhere in the word, or instead of one of its own
            for c in map(chr, range(128)):
                k = rnd.randrange(len(w))
                for x in {w + c, c + w, w[:k] + c + w[k:], w[:k] + c + w[k + 1:]}:
                    single(dict(op="version" if "/" in w else "method", s1=b(x)))
        for x in ["", "SIP", "SIP/", "SIP/2", "SIP/2.1", "SIP/1.1", "SIP/3.0", "SIP/0.0", "SIP/2.00", "SIP/02.0", "HTTP/1.1", "2.0", "SIP2.0", "SIP 2.0", "Unknown method", "TEST", "STATUS", "OPTION", "RE-INVITE"]:
            single(dict(op="method", s1=b(x)))
            single(dict(op="version", s1=b(x)))
        for _ in range(2000 if deep else 300):
            x = "".join(ch("ABCDEFINORSTVYKLMPUG/.0123456789 ") for _ in range(rnd.randrange(1, 10)))
            single(dict(op="method", s1=b(x)))
            single(dict(op="version", s1=b(x)))
        for m in METHODS:
            for v in ("SIP/2.0", "sip/1.0"):
                single(parse(b(recase(m) + " sip:a@b " + v + "\r\nl: 0\r\n\r\n"), 0))
    if pend:
        add(list(pend))
    return out
