"""Scenarios for the conversion between HTTP and CoAP (h_cross) and for the proxy's connections (h_proxy)."""
from . import gen_http as gh
from . import gen_uri as gu
from .gen_http import hx

METHODS = [b"GET", b"PUT", b"POST", b"DELETE", b"get", b"PATCH", b"HEAD", b"CONNECT", b"GETX", b"PUTT", b"OPTIONS"]


def ext(x):
    return (14, (x - 269).to_bytes(2, "big")) if x >= 269 else (13, bytes([x - 13])) if x >= 13 else (x, b"")


def datagram(code, ops=(), payload=b"", typ=0, mid=1, tok=b""):
    out = bytes([0x40 | typ << 4 | len(tok), code]) + mid.to_bytes(2, "big") + tok
    prev = 0
    for n, v in sorted(ops, key=lambda o: o[0]):
        d, de = ext(n - prev)
        l, le = ext(len(v))
        out += bytes([d << 4 | l]) + de + le + v
        prev = n
    return out + (b"\xff" + payload if payload else b"")


def coap_uri(r, host=None):
    u = gu.uri(r)
    k = r.random()
    if k < 0.1:
        return u.replace(b" ", b"%20").replace(b"\r", b"a").replace(b"\n", b"b") or b"/"
    s = r.choice([b"coap", b"coaps", b"COAP", b"CoapS", b"http", b"coa", b"coapss"] if r.random() < 0.2 else [b"coap", b"coaps"]) + b":"
    if r.random() < 0.93:
        s += b"//" + r.choice([b"", b"u@"] if r.random() < 0.2 else [b""])
        s += host if host is not None else r.choice([b"h", b"example.com", b"[::1]", b"", b"H%41"])
        s += r.choice([b":5683", b":1", b":", b"", b":5684"])
    for _ in range(r.choice([0, 1, 2, 3, 4])):
        s += r.choice([b"/", b"/", b"/", b"//"]) + gu.enc(r, gu.comp(r), b":@")
    if r.random() < 0.5:
        s += b"?" + r.choice([b"a=b&c=d", b"&&", b"a&", b"&a", b"", gu.enc(r, gu.comp(r, b"&&"), b":@/?&")])
    if r.random() < 0.04:
        s += b"#f"
    if r.random() < 0.03:
        s += b"/" + b"p" * r.choice([255, 256, 1024, 1025, 1100])
    return bytes(c if c > 32 else 97 for c in s)


def headers(r):
    hs = []
    only = r.randrange(4) if r.random() < 0.35 else None
    for _ in range(r.choice([0, 0, 1, 2, 3, 3, 6])):
        kinds = [
            (gh.case(r, b"ETag"), r.choice([b"abc", b"", b"\"x y\"", b"12345678", b"e" * 300, b"e" * 1024, b"e" * 1025] if r.random() < .3 else [b"abc", b"q"])),
            (gh.case(r, b"Cache-Control"), r.choice([b"max-age=60", b"no-cache", b"no-store, max-age=5", b"max-age=", b"max-age=abc", b"max-age=007x", b"max-age= 8",
                                                      b"Max-Age=4", b"s-maxage=3", b"max-age=0", b"max-age=1, max-age=2", b"max-age=123456789", b"max-age=+3", b"max-age"])),
            (gh.case(r, b"Accept"), r.choice([b"text/plain", b"TEXT/Plain", b"text/plain;q=1", b"text/plainx", b"*/*", b"text/html", b"", b"text/plai"] if r.random() < .5 else [b"text/plain"])),
            (r.choice([b"Host", b"X", b"Etags", b"Content-Type", b"If-Match"]), b"v"),
        ]
        hs.append(r.choice(kinds) if only is None else kinds[only])
    return hs


def request(r, host=None, bodies=(0, 0, 1, 5, 60, 1023, 1024, 1025, 1500, 3000), uri=None, methods=None):
    m = r.choice(methods or (METHODS[:4] * 4 + METHODS))
    b = gh.body(r, r.choice(bodies))
    t = m + b" " + (uri or coap_uri(r, host)) + b" HTTP/1.1\r\n"
    hs = headers(r)
    if b and r.random() < 0.25:
        hs.append((b"Transfer-Encoding", b"chunked"))
        k = r.randrange(1, len(b) + 1)
        c = b""
        for i in range(0, len(b), k):
            c += b"%x\r\n" % len(b[i:i + k]) + b[i:i + k] + b"\r\n"
        b = c + b"0\r\n\r\n" if len(b) // k < 40 else None
        if b is None:
            return request(r, host, bodies, uri, methods)
    elif b or r.random() < 0.5:
        hs.append((b"Content-Length", b"%d" % len(b)))
    r.shuffle(hs)
    return t + b"".join(n + b": " + v + b"\r\n" for n, v in hs) + b"\r\n" + b


CODES = [0x41, 0x42, 0x43, 0x44, 0x45, 0x5f, 0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0x86, 0x88, 0x8c, 0x8d, 0x8f, 0xa0, 0xa1, 0xa2, 0xa3, 0xa4, 0xa5]


def resp_ops(r):
    ops = []
    for _ in range(r.choice([0, 0, 1, 2, 3])):
        ops.append(r.choice([
            (4, r.choice([b"abc", b"\x01\x02", b"a\r\nX: y", b"", b"\xff\xfe", b"\0", b"e" * 255, b"e\x7f", b"a b"])),
            (14, r.choice([b"60", b"", b"abc", b"007", b"5x", b"1\x002", b"999999999", b" 4"])),
            (17, r.choice([b"0", b"1", b"", b"00", b"\0"])),
            (r.choice([8, 12, 60, 258, 2000]), r.choice([b"", b"x", b"y" * 40, b"z" * 255] + [b"z" * 256, b"z" * 300] * (r.random() < .1))),
        ]))
    return ops


def response(r, code=None):
    return datagram(code if code is not None else r.choice(CODES + [0x45] * 6), resp_ops(r), gh.body(r, r.choice([0, 0, 1, 10, 300])))


def every_code(r):
    out = []
    for cls in (0, 2, 4, 5):
        for det in range(32):
            if cls or det:
                for b in (b"", b"body"):
                    out.append("resp %s %s" % (hx(datagram(cls << 5 | det, [(4, b"t")], r.choice([b"", b"pl"]))), hx(b)))
    return [out[i:i + 40] for i in range(0, len(out), 40)]


def uris(r, strings, per=50):
    l = ["uri " + hx(s) for s in strings if b"\0" not in s]
    return [l[i:i + per] for i in range(0, len(l), per)]


def uriofs(r, n):
    out = []
    for _ in range(n):
        ops = []
        for _ in range(r.choice([0, 1, 2, 4, 6])):
            num = r.choice([3, 7, 11, 11, 15, 15, 4, 12])
            ops.append((num, r.choice([b"", b"a", b"host", b"1234", b"a%41", b"%", b"%zz", b"a/b", b"a&b", b"?#", b"\xff\x80", b"::1", b"a b", b"x" * 100, b"x" * 254, b"x" * 255, b"x" * 256,
                                       b"n\0m", gu.comp(r)][:r.choice([6, 20])])))
        out.append("uriof %s %d" % (hx(datagram(1, ops)), r.choice([0, 1, 2, 9, 12, 20, 40, 300, 2000, 2000])))
    return [out[i:i + 30] for i in range(0, n, 30)]


def reqs(r, n):
    out = []
    for _ in range(n):
        out.append("req %s %d" % (hx(request(r)), r.choice([8192, 8192, 1025, 1024, 1500, 2000])))
    return [out[i:i + 15] for i in range(0, n, 15)]


def resps(r, n):
    out = ["resp %s %s" % (hx(response(r)), hx(gh.body(r, r.choice([0, 0, 1, 40, 1000])))) for _ in range(n)]
    return [out[i:i + 20] for i in range(0, n, 20)]
