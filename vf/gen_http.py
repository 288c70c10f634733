"""Scenarios for the HTTP message library (h_http)."""

HDR = [b"Host", b"Accept", b"X-Y", b"content-type", b"Transfer-Encoding", b"Content-Length", b"A", b"name"]
VAL = [b"text/plain", b"v", b"", b"a b", b"a  b\tc", b"\" q \"", b"a:b:c", b"x" * 40, b"\xc3\xa9"]


def hx(b):
    return b.hex() if b else "-"


def ws(r):
    return r.choice([b"", b" ", b"  ", b"\t", b" \r\n ", b"\r\n\t"])


def header(r, n, v):
    return n + r.choice([b"", b"", b" "]) + b":" + ws(r) + v + r.choice([b"", b"", b" ", b"\r\n "]) + b"\r\n"


def body(r, n):
    k = r.randrange(4)
    if k == 0:
        return bytes(r.randrange(256) for _ in range(n))
    if k == 1:
        return bytes(r.choice(b"\r\n\0ab0:; ") for _ in range(n))
    return bytes(r.choice(b"abcdef") for _ in range(n))


def case(r, b):
    return b if r.random() < 0.7 else bytes(c ^ 32 if chr(c).isalpha() and r.random() < 0.5 else c for c in b)


def message(r):
    m = r.choice([b"GET", b"PUT", b"HTTP/1.1", b"M"]) + b" " + r.choice([b"/", b"coap://h:1/p?q", b"200", b"*"]) + b" " + \
        r.choice([b"HTTP/1.1", b"OK", b"Not Found", b"x y  z"]) + b"\r\n"
    hs = [header(r, r.choice(HDR[:4] + HDR[6:]), r.choice(VAL)) for _ in range(r.randrange(4))]
    k = r.randrange(4)
    b = b""
    if k == 0:
        n = r.choice([0, 1, 5, 16, 60])
        b = body(r, n)
        hs.append(header(r, case(r, b"Content-Length"), r.choice([b"%d", b"%d", b"0%d", b"%d"]) % n))
        if r.random() < 0.1:
            hs.append(header(r, case(r, b"content-length"), b"%d" % n))
    elif k == 1:
        hs.append(header(r, case(r, b"Transfer-Encoding"), case(r, b"chunked")))
        if r.random() < 0.15:
            hs.append(header(r, b"Content-Length", b"3"))
        for _ in range(r.randrange(4)):
            d = body(r, r.choice([1, 2, 9, 10, 15, 16, 17, 40, 255, 256]))
            sz = r.choice([b"%x", b"%X", b"%02x", b"00%x", b"%x ", b"%x;a=b", b"%x ; n=\"v\""]) % len(d)
            b += sz + b"\r\n" + d + b"\r\n"
        b += r.choice([b"0\r\n", b"0\r\n", b"00\r\n", b"0;x\r\n"])
        b += b"".join(header(r, b"T%d" % j, r.choice(VAL)) for j in range(r.choice([0, 0, 1, 2]))) + b"\r\n"
    r.shuffle(hs)
    return m + b"".join(hs) + b"\r\n" + b


HOSTILE = [b"Content-Length: -1\r\n", b"Content-Length: 4294967300\r\n", b"Content-Length: 18446744073709551616\r\n",
           b"Content-Length: 99999999999999999999999\r\n", b"Content-Length: 5x\r\n", b"Content-Length: +5\r\n", b"Content-Length:\r\n",
           b"Content-Length: 2 2\r\n", b"Transfer-Encoding: gzip\r\n", b"Transfer-Encoding: chunked, gzip\r\n", b"novalue\r\n", b": v\r\n",
           b" lead: x\r\n", b"a\r\n b: c\r\n", b"\x00\r\n"]
CHUNKS = [b"fffffff0\r\n", b"-5\r\nabc", b"ffffffff\r\n", b"fffffffffffffffff\r\nab\r\n", b"80000000\r\n", b"7fffffff\r\n", b"g\r\n", b"\r\n5\r\nabcde\r\n",
          b" 5\r\nabcde\r\n", b"+5\r\nabcde\r\n", b"0x5\r\nabcde\r\n0\r\n\r\n", b"5\r\nabcdefg\r\n", b"5\r\nabc\r\n", b"5;\r\nabcde\r\n0\r\n\r\n", b"0x\r\n\r\n",
          b"5\n\nabcde\r\n"]


def mutated(r, m):
    b = bytearray(m)
    for _ in range(r.choice([1, 1, 2, 4])):
        k = r.randrange(4)
        if not b:
            break
        i = r.randrange(len(b))
        if k == 0:
            b[i] = r.choice([0, 10, 13, 32, 58, 59, 48, 255, r.randrange(256)])
        elif k == 1:
            del b[i]
        elif k == 2:
            b.insert(i, r.choice([0, 10, 13, 32, 58, 9, 70]))
        else:
            del b[i:i + r.randrange(1, 8)]
    return bytes(b)


def parses(l, per=60):
    l = ["parse " + hx(x) for x in l]
    return [l[i:i + per] for i in range(0, len(l), per)]


def random_parses(r, n):
    out = []
    for _ in range(n):
        m = message(r)
        out.append(m)
        out.append(m + r.choice([b"GET / X\r\n\r\n", b"\r\n", b"junk", b"0"]))
        for _ in range(4):
            out.append(m[:r.randrange(len(m) + 1)])
        out.append(mutated(r, m))
        out.append(mutated(r, m))
    for h in HOSTILE:
        for b in (b"\r\n", b"Host: x\r\n\r\nabcde", b"\r\nabcdefgh"):
            out.append(b"PUT /a HTTP/1.1\r\n" + h + b)
    for c in CHUNKS:
        for h in (b"", b"X: y\r\n"):
            for t in (b"", b"\r\n\r\n", b"0\r\n\r\n", b"abcdefghijklmnop\r\n0\r\n\r\n"):
                out.append(b"PUT /a HTTP/1.1\r\nTransfer-Encoding: chunked\r\n" + h + b"\r\n" + c + t)
    return out


def prefixes(r, n):
    out = []
    for _ in range(n):
        m = message(r)
        if len(m) < 220:
            out += [m[:i] for i in range(len(m) + 1)]
    return out


TOK = [b"A B C\r\n", b"A", b" ", b"\r\n", b"n:v\r\n", b"Content-Length:2\r\n", b"Transfer-Encoding:chunked\r\n", b"2\r\n", b"ab", b"0\r\n", b"\0", b":"]


def tokens(seqs):
    return [b"".join(TOK[i] for i in q) for q in seqs] + [b"A B C\r\n" + b"".join(TOK[i] for i in q) for q in seqs]


def text(r, lo=0):
    return bytes(r.choice(b"abcXYZ/:.-_ 0") for _ in range(r.choice([lo, 1, 3, 12])))


def gen_scenario(r):
    c = []
    for _ in range(4):
        s = [text(r, 1).replace(b" ", b"") or b"x" for _ in range(2)] + [text(r, 1) or b"y"]
        hs = [(text(r, 1) or b"n", text(r)) for _ in range(r.randrange(4))]
        b = body(r, r.choice([0, 1, 5, 40])) if r.random() < 0.6 else None
        tot = sum(map(len, s)) + 4 + sum(len(n) + len(v) + 4 for n, v in hs) + 2 + len(b or b"")
        c.append("set %s %s %s %s%s" % (hx(s[0]), hx(s[1]), hx(s[2]), "-" if not b else b.hex(), "".join(" %s %s" % (hx(n), hx(v)) for n, v in hs)))
        caps = {tot + 1, tot, tot + 2, tot - len(b or b""), tot - len(b or b"") + 1, tot - len(b or b"") - 1, 1, 2, 300, r.randrange(1, tot + 2), 0}
        c += ["gen %d" % x for x in sorted(caps)]
    for _ in range(3):
        d = body(r, r.choice([0, 1, 9, 10, 15, 16, 17, 40, 255, 256, 300]))
        n = len(d) + 6
        c += ["chunk %d %s" % (x, hx(d)) for x in sorted(set(range(0, 9)) | {n - 2, n - 1, n, n + 1, n + 2, len(d), len(d) + 3, r.randrange(n + 2)}) if x >= 0]
    for x in range(0, 6):
        c += ["last %d" % x, "blank %d" % x, "trailer %d 6e 7676" % (x * 2)]
    return c
