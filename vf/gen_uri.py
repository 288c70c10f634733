"""Scenarios for the URI library (h_uri)."""
from .gen_http import hx

FIELDS = ["scheme", "userinfo", "host", "port", "path", "query", "fragment"]


def comp(r, extra=b""):
    n = r.choice([0, 1, 1, 2, 4, 9, 30])
    k = r.randrange(4)
    al = [b"abcXYZ019-._~", b"aZ0!$&'()*+,;=" + extra, b"a/:@?#[]%" + extra, bytes(range(1, 256))][k]
    out = b""
    for _ in range(n):
        if r.random() < (0.3 if k == 1 else 0.05):
            out += r.choice([b"%%%02x" % r.randrange(1, 256), b"%%%02X" % r.randrange(1, 256), b"%2", b"%", b"%zz", b"%00", b"%4g", b"%2F", b"%3a", b"%25"][:r.choice([2, 2, 10])])
        else:
            out += bytes([r.choice(al)])
    return out


def enc(r, s, keep=b""):
    """percent-encode what would otherwise be a separator, mostly"""
    out = b""
    for c in s:
        ch = bytes([c])
        if c in b":/?#@[]" and ch not in keep and r.random() < 0.9:
            out += b"%%%02x" % c
        else:
            out += ch
    return out


def uri(r):
    s = b""
    if r.random() < 0.7:
        s += r.choice([b"http", b"coap", b"coaps", b"a", b"x+y", comp(r)]) + b":"
    if r.random() < 0.8:
        s += b"//"
        if r.random() < 0.4:
            s += enc(r, comp(r), b":") + b"@"
        lit = b"[" + b"".join(r.choice([b":", b"::", b"%", b"%25", b"%3a", b"a", b"0", b".", b"[", b"%5d", b"e1"]) for _ in range(r.randrange(1, 8))) + b"]"
        s += r.choice([lit, b"h", b"example.com", b"127.0.0.1", b"[::1]", b"[fe80::1%25eth0]", b"[", b"[]", b"", enc(r, comp(r))])
        if r.random() < 0.5:
            s += b":" + r.choice([b"5683", b"", b"0", enc(r, comp(r))])
    for _ in range(r.choice([0, 1, 2, 3])):
        s += b"/" + enc(r, comp(r), b":@")
    if r.random() < 0.2:
        s += comp(r)
    if r.random() < 0.5:
        s += b"?" + enc(r, comp(r), b":@/?")
    if r.random() < 0.4:
        s += b"#" + enc(r, comp(r), b":@/?")
    if r.random() < 0.1 and s:
        i = r.randrange(len(s))
        s = s[:i] + bytes([r.randrange(1, 256)]) + s[i + 1:]
    return s.replace(b"\0", b"a")


def gens(r, k=4):
    return ["gen %d" % x for x in [400] + [r.randrange(0, 60) for _ in range(k)]]


def parsed(strings, r, per=40, k=1):
    out = []
    for i in range(0, len(strings), per):
        c = []
        for s in strings[i:i + per]:
            c.append("parse " + hx(s))
            c += gens(r, k)
        out.append(c)
    return out


def history(r):
    c = []
    for _ in range(r.choice([6, 12, 25])):
        k = r.random()
        if k < 0.25:
            c.append("parse " + hx(uri(r)))
        elif k < 0.65:
            f = r.choice(FIELDS)
            c.append("set %s %s" % (f, hx(comp(r, b"/:"))))
        elif k < 0.8:
            c.append(r.choice(["copy", "copy x"]))
        else:
            c += gens(r, 2)
    return c + ["copy"] + gens(r, 3)


def every_cap(r):
    s = uri(r)
    return ["parse " + hx(s)] + ["gen %d" % i for i in range(0, 3 * len(s) + 3)]
