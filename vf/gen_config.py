"""Scenarios for configuration files (h_config)."""
from .gen_http import hx

NAMES = [b"a", b"port", b"log_level", b"key_file", b"cert_file", b"trust_file", b"B_9", b"n" * 63, b"n" * 64, b"n" * 65, b"n" * 130]
SECS = [b"", b"http_server", b"coap_client", b"s", b"S", b"s" * 64, b"s" * 65, b"s" * 129]
VALS = [b"v", b"8080", b"\"\"", b"\"a b\"", b"\"/x/y.pem\"", b"debug", b"info", b"error", b"\"a\\\"b\"", b"\"a\\\nb\"", b"\"a;b\"", b"\"[x]\"", b"\"" + b"q" * 64 + b"\"", b"\"" + b"q" * 200 + b"\"",
        b"w" * 64, b"w" * 65, b"1" * 64, b"1" * 65, b"\"\xff\x80\"", b"\"a\tb\"", b"\"a\\\\\"", b"x9_y"]
BAD = [b"9a=1", b"a==b", b"a=b c", b"[s", b"[s]]", b"[9]", b"a", b"a=", b"=b", b"\"x\"=1", b"a=\"b", b"a=\"b\n\"", b"#", b"a=b#", b"[a b]", b"a=9b", b"a b", b"\xff", b"a=\xff", b"a-b=1", b"[\"s\"]", b"a=[", b"]", b"a.b=c"]


def ramp(n, k):
    """n characters, no two neighbouring 62 of them alike, so that a lost or moved character shows"""
    al = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
    return al[k % 52:k % 52 + 1] + bytes(al[(k + 7 * i + i // 62) % 62] for i in range(1, n)) if n else b""


def size(r):
    return r.choice([1, 2, 30, 62, 63, 64, 65, 66, 127, 128, 129, 130, 255, 256, 257, 511, 512, 513, 1025, r.randrange(1, 300), r.randrange(1, 2200)])


def val(r):
    if r.random() < 0.85:
        return r.choice(VALS)
    v = ramp(size(r), r.randrange(52))
    return r.choice([v, b"\"" + v + b"\"", b"\"" + v + b"\"", bytes(48 + c % 10 for c in v)])


def word(r, l):
    return r.choice(l) if r.random() < 0.96 else ramp(size(r), r.randrange(52))


def lengths(r, every):
    """one name, section or value of each length"""
    out = []
    for n in range(1, 300) if every else [1, 31, 32, 33] + list(range(61, 68)) + list(range(125, 132)) + list(range(253, 260)) + [300, 511, 512, 513, 514, 700, 1023, 1024, 1025, 1026, 1500, 2047, 2048, 2049, 2050, 4096, 4100]:
        v = ramp(n, n)
        for t, se, na in ((b"a=\"" + v + b"\"\n", b"", b"a"), (b"a=" + v, b"", b"a"), (b"[s]\n" + v + b"=1", b"s", v), (b"[" + v + b"]\na=" + bytes(48 + c % 10 for c in v), v, b"a")):
            out.append(["reset", "parse " + hx(t), "get %s %s" % (hx(se), hx(na))])
    return out


def ws(r):
    return r.choice([b"", b"", b" ", b"\t", b" \t ", b"\r", b"\v\f"])


def line(r, bad):
    k = r.random()
    e = r.choice([b"", b"", b"", b";c", b" ; c = \"", b";"])
    if r.random() < bad:
        return ws(r) + r.choice(BAD) + e
    if k < 0.15:
        return ws(r) + e
    if k < 0.35:
        return ws(r) + b"[" + ws(r) + word(r, SECS[1:]) + ws(r) + b"]" + ws(r) + e
    return ws(r) + word(r, NAMES) + ws(r) + b"=" + ws(r) + val(r) + ws(r) + e


def text(r, bad=0.04):
    return b"\n".join(line(r, bad) for _ in range(r.randrange(1, 9))) + r.choice([b"", b"\n", b"\r\n", b" "])


def gets(r):
    return ["get %s %s" % (hx(s), hx(n)) for s in SECS for n in NAMES if r.random() < 0.5]


def texts(strings, per=60, r=None):
    out = []
    for i in range(0, len(strings), per):
        out.append([c for s in strings[i:i + per] for c in ("reset", "parse " + hx(s), "get - 61", "get 61 62", "get 61 61")] + (gets(r) if r else []))
    return out


def history(r):
    cmds = []
    for _ in range(r.randrange(2, 8)):
        k = r.randrange(6)
        if k < 2:
            cmds.append("parse " + hx(text(r, 0.02)))
        elif k == 2:
            cmds.append("set %s %s %s" % (hx(r.choice(SECS)), hx(r.choice(NAMES)), hx(val(r))))
        elif k == 3:
            cmds.append("self %s %s" % (hx(r.choice(SECS)), hx(r.choice(NAMES[:4]))))
        elif k == 4:
            cmds.append("setfail %d %s %s %s" % (r.randrange(5), hx(r.choice(SECS[:4])), hx(r.choice(NAMES[:3])), hx(r.choice(VALS))))
        cmds += r.sample(gets(r), 6)
    return cmds + gets(r)


def params(r, n):
    out = []
    for _ in range(n):
        t = text(r, 0.02)
        if r.random() < 0.6:
            # without the log levels that are not known
            t = t.replace(b"log_level", b"log_levl") if r.random() < 0.5 else t + b"\n[x]\n" + text(r, 0)
        if r.random() < 0.5:
            t = b"log_level=" + r.choice([b"error", b"warning", b"notice", b"info", b"debug", b"none", b"Info"]) + b"\nport=" + r.choice([b"1", b"\"x y\"", b"name"]) + b"\n[http_server]\n" + \
                b"\n".join(x + b"=" + val(r) for x in NAMES[3:6] if r.random() < .7) + b"\n[coap_client]\n" + b"\n".join(x + b"=" + val(r) for x in NAMES[3:6] if r.random() < .7)
        out.append(["param " + hx(t)])
    return out + [["nofile"], ["strerr %d" % c for c in range(-8, 4)]]
