"""Scenarios for connections of the HTTP/CoAP proxy (h_proxy)."""
from . import gen_http as gh
from . import gen_cross as gx
from .gen_http import hx

HOSTS = [b"h", b"H", b"a.b", b"[::1]", b"10.0.0.1", b"other"]
PORTS = [b"", b":", b":5683", b":5684", b":1234", b":05683"]


def uri(r):
    if r.random() < 0.1:
        return gx.coap_uri(r)
    return r.choice([b"coap", b"coaps", b"coaps", b"CoAP"]) + b"://" + r.choice(HOSTS) + r.choice(PORTS) + r.choice([b"/a", b"", b"/a/b?c=d&e", b"/x%20y", b"?q", b"/a//b"])


def block2(num, more, szx):
    return (23, (num << 4 | more << 3 | szx).to_bytes(1 if num < 16 else 3, "big"))


def exres(r, bad=0.15):
    k = r.random()
    if k < bad:
        return "ex %d -" % r.choice([-110, -74, -5, -22, -111, -12])
    ops = gx.resp_ops(r) if r.random() < 0.5 else []
    ops = [o for o in ops if r.random() < 0.9]
    if r.random() < 0.35:
        ops.append(r.choice([block2(0, 1, r.randrange(7)), block2(0, 1, r.randrange(7)), block2(0, 0, r.randrange(7)), (23, b""), (23, b"\x0f"), (23, b"\1\2\3\4"), block2(3, 1, 2)]))
    code = r.choice([0x45] * 5 + [0x44, 0x41, 0x84, 0x8d, 0x8d, 0x8d] + gx.CODES)
    return "ex 0 %s" % hx(gx.datagram(code, ops, gh.body(r, r.choice([0, 1, 16, 60, 300, 1000])), 2, 7))


def bwres(r):
    if r.random() < 0.2:
        return "bw %d - -" % r.choice([-110, -74, -5, -22, -28])
    code = r.choice([0x45, 0x44, 0x44, 0x41, 0x84, 0x88, 0x8d] + gx.CODES)
    return "bw 0 %s %s" % (hx(gx.datagram(code, gx.resp_ops(r) if r.random() < .4 else [], gh.body(r, r.choice([0, 0, 5])), 2, 9)),
                           hx(gh.body(r, r.choice([0, 1, 60, 500, 1500, 4000, 8191, 8192]))))


def cut(r, data, style):
    """Records of a byte stream."""
    out = []
    if style == 0:
        return [data]
    i = 0
    while i < len(data):
        n = r.choice({1: [1, 2, 3, 5, 17], 2: [len(data) // 3 + 1, 100], 3: [4096, 4095, 4097, 1000, 8192]}[style])
        out.append(data[i:i + n])
        i += n
        if len(out) > 60:
            out.append(data[i:])
            break
    return [x for x in out if x]


def conn(r, nreq=None):
    cmds = []
    reqs = []
    for _ in range(nreq or r.choice([1, 1, 2, 3, 5])):
        reqs.append(gx.request(r, uri=uri(r), methods=[b"GET", b"PUT", b"POST", b"DELETE"] * 5 + gx.METHODS,
                               bodies=(0, 0, 0, 1, 60, 1024, 1025, 2000) + ((8191, 8192, 8193) if r.random() < .2 else ())))
        cmds += [exres(r), exres(r)]
        if r.random() < 0.7:
            cmds.append(bwres(r))
    style = r.choice([0, 0, 1, 2, 3])
    if r.random() < 0.5:
        data = b"".join(reqs)                       # several requests in one piece
        recs = cut(r, data, style if style != 1 or len(data) < 600 else 2)
    else:
        recs = [x for q in reqs for x in cut(r, q, style if style != 1 or len(q) < 300 else 2)]
    if r.random() < 0.1:
        recs.insert(r.randrange(len(recs) + 1), r.choice([b"\r\n", b"GET\r\n", b"X Y\r\n\r\n", b"GET coap://h/ HTTP/1.1\r\nContent-Length: x\r\n\r\n", b"\0\0\0"]))
    if r.random() < 0.15:
        recs = recs[:r.randrange(1, len(recs) + 1)]
        recs[-1] = recs[-1][:r.randrange(1, len(recs[-1]) + 1)]
    cmds += ["rec " + hx(x) for x in recs]
    cmds.append(r.choice(["close", "close", "timeout", "error"]))
    if r.random() < 0.08:
        cmds += ["mk 0"] * r.randrange(3) + ["mk %d" % r.choice([-1, -111, -113])]
    if r.random() < 0.08:
        cmds += ["wr 1"] * r.randrange(3) + ["wr %d" % r.choice([0, -1])]
    return cmds


def conns(r, n):
    return [conn(r) for _ in range(n)]


def sizes(r, thorough):
    """Request and response lengths around the buffer limits, arriving in records of various lengths."""
    out = []
    for total in [4095, 4096, 4097, 8000, 8192, 16384, 32600, 32640, 32641, 32767, 32768, 32769, 34000]:
        for style in (0, 3) + ((2,) if thorough else ()):
            head = b"PUT coap://h/a HTTP/1.1\r\n"
            n = total - len(head) - 4 - len(b"Content-Length: 00010\r\n") - 10
            filler = b""
            while n > 0:
                k = min(n, 1200)
                if k < 6 or 0 < n - k < 6:
                    k = n if n < 1206 and n >= 6 else k - 6
                if k < 6:
                    break
                filler += b"X: " + b"v" * (k - 5) + b"\r\n"
                n -= k
            q = head + filler + b"Content-Length: 00010\r\n\r\n" + b"0123456789"
            out.append(["rec " + hx(x) for x in cut(r, q, style)] + ["rec " + hx(b"GET coap://h/b HTTP/1.1\r\n\r\n"), "close"])
    for n in [3990, 4000, 4010, 4020, 4030] + list(range(4036, 4066)) + [8100, 8192]:
        out.append(["rec " + hx(b"GET coap://h/a HTTP/1.1\r\n\r\n") + hx(b"DELETE coap://h/b HTTP/1.1\r\n\r\n"), "close",
                    "ex 0 " + hx(gx.datagram(0x45, [block2(0, 1, 6)], b"x" * 20)), "bw 0 %s %s" % (hx(gx.datagram(0x45, [], b"l")), hx(b"b" * n)), "ex 0 " + hx(gx.datagram(0x42))])
    return out


def targets(r):
    """Every pair of targets in succession (the CoAP client kept or replaced)."""
    ts = [s + b"://" + h + p for s in (b"coap", b"coaps") for h in (b"h", b"H", b"hh") for p in (b"", b":", b":5683", b":5684", b":568")]
    out = []
    for a in ts:
        order = ts[:]
        r.shuffle(order)
        q = b"".join(b"GET " + t + b"/p HTTP/1.1\r\n\r\n" for b in order[:12] for t in (a, b))
        out.append(["rec " + hx(q), "close"])
    return out


def faults(r, count_of, thorough):
    """Every single failing allocation of a few base connections, and bursts."""
    def q(m, u, b=b"", h=b""):
        return m + b" " + u + b" HTTP/1.1\r\n" + h + b"Content-Length: %d\r\n\r\n" % len(b) + b
    bases = [
        ["rec " + hx(q(b"GET", b"coap://u@h:1/a/b?c&d", h=b"Accept: text/plain\r\nETag: x\r\nCache-Control: max-age=3\r\n") + q(b"GET", b"coaps://other/", b"")), "close",
         "ex 0 " + hx(gx.datagram(0x45, [(4, b"e"), (14, b"60"), (17, b"0"), block2(0, 1, 2)], b"x" * 64)), "bw 0 %s %s" % (hx(gx.datagram(0x45, [(4, b"e")], b"y")), hx(b"z" * 200))],
        ["rec " + hx(q(b"PUT", b"coap://h/a", b"p" * 1500) + q(b"POST", b"coap://h/a", b"s" * 30)), "close", "ex 0 " + hx(gx.datagram(0x8d)), "bw 0 %s -" % hx(gx.datagram(0x44)),
         "bw 0 %s %s" % (hx(gx.datagram(0x44)), hx(b"r" * 10))],
        ["rec " + hx(b"POST coap://h/a HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabc\r\n4\r\ndefg\r\n0\r\nT: v\r\n\r\n" + q(b"BAD", b"x") + q(b"DELETE", b"coap://h/a%20b")), "close", "ex -110 -"],
        ["rec " + hx(b"PUT coap://h/a HTTP/1.1\r\nX: " + b"v" * 4200 + b"\r\nContent-Length: 2\r\n\r\nhi"), "close", "ex 0 " + hx(gx.datagram(0x45, [block2(0, 0, 6)], b"q" * 1000))],
    ]
    out = []
    for k, b in enumerate(bases):
        n = count_of(b)
        for i in range(n + 1):
            out.append(b + ["nomem %d %d" % (i, i + 1)])
            if thorough or i % 3 == k % 3:
                out.append(b + ["nomem %d %d" % (i, i + r.choice([2, 3, 8, 1000]))])
    return out


def buffers(r, n):
    out = []
    for _ in range(n):
        size = r.choice([1, 2, 4, 16, 40])
        cmds = ["new %d %d" % (size, r.choice([size - 1, size, size * 2, size * 4, size * 4 - 1, 200]))]
        for _ in range(r.randrange(1, 20)):
            k = r.randrange(5)
            cmds.append("put " + hx(bytes(r.randrange(256) for _ in range(r.choice([0, 1, 2, 3, 8, 17, 50])))) if k < 3 else
                        "take %d" % r.choice([0, 1, 1, 2, 5, 40, 500]) if k == 3 else "grow")
        out.append(cmds)
    return out
