"""Scenarios for the message codec harness (h_msg)."""

def hx(b):
    b = bytes(b)
    return b.hex() if b else "-"

def ext(x):
    if x >= 269:
        return 14, bytes([(x - 269) >> 8 & 255, (x - 269) & 255])
    if x >= 13:
        return 13, bytes([x - 13])
    return x, b""

def enc(type=0, cls=0, det=1, mid=0, tok=b"", ops=(), pl=b"", ver=1, tkl=None):
    b = bytearray([ver << 6 | type << 4 | (len(tok) if tkl is None else tkl), cls << 5 | det, mid >> 8 & 255, mid & 255])
    b += tok
    prev = 0
    for n, v in ops:
        d, de = ext(n - prev)
        l, le = ext(len(v))
        b += bytes([d << 4 | l]) + de + le + v
        prev = n
    if pl:
        b += b"\xff" + pl
    return bytes(b)

EDGE_NUM = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 14, 15, 17, 20, 23, 27, 28, 35, 39, 60, 65, 127, 128, 140, 141, 142, 255, 256, 268, 269, 270, 271, 300, 524, 525, 526, 1000, 2048, 4096, 65000, 65533, 65535]
EDGE_LEN = [0, 1, 2, 3, 7, 8, 11, 12, 13, 14, 15, 100, 126, 127, 128, 129, 140, 141, 142, 143, 254, 255, 256, 268, 269, 270, 271, 300]
EDGE_PAY = [0, 0, 1, 2, 3, 15, 16, 17, 64, 127, 128, 255, 256, 300]
CODES = [(0, 1), (0, 2), (0, 3), (0, 4), (0, 5), (0, 31), (2, 0), (2, 1), (2, 4), (2, 5), (2, 31), (4, 0), (4, 4), (4, 13), (4, 31), (5, 0), (5, 3), (5, 31)]

def rb(r, n):
    m = r.randrange(4)
    if m == 0:
        return bytes([r.choice([0, 255, 127, 128, 47, 13, 0xdd])]) * n
    return bytes(r.randrange(256) for _ in range(n))

def rops(r, big=True):
    k = r.choice([0, 1, 1, 2, 2, 3, 4, 6, 9])
    ns = []
    if r.random() < 0.5:
        ns = sorted(r.choice(EDGE_NUM) for _ in range(k))
    else:
        p = 0
        for _ in range(k):
            p += r.choice([0, 0, 1, 2, 3, 4, 8, 11, 12, 13, 14, 100, 139, 140, 141, 142, 143, 255, 267, 268, 269, 270, 271, 300, 524, 525, 1000])
            ns.append(p)
    res = []
    for n in ns:
        if n in (23, 27) and r.random() < 0.8:
            v = rb(r, r.choice([0, 1, 2, 3, 3, 4]))
        elif n == 11 and r.random() < 0.6:
            v = bytes(r.choice(b"abc/\x00") for _ in range(r.choice([0, 1, 2, 3, 5, 40])))
        else:
            v = rb(r, r.choice(EDGE_LEN) if big and r.random() < 0.5 else r.randrange(0, 16))
        res.append((n, v))
    return res

def rmsg(r):
    t = r.choice([0, 0, 1, 2, 3])
    c, d = r.choice(CODES) if r.random() < 0.9 else (0, 0)
    return dict(type=t, cls=c, det=d, mid=r.choice([0, 1, 127, 128, 255, 256, 32767, 32768, 65535, r.randrange(65536)]),
                tok=rb(r, r.choice([0, 0, 1, 2, 4, 7, 8])), ops=rops(r), pl=rb(r, r.choice(EDGE_PAY)))

def datagrams(r, n):
    """Valid, nearly valid and random datagrams."""
    out = []
    while len(out) < n:
        m = rmsg(r)
        if m["cls"] == 0 and m["det"] == 0 and r.random() < 0.6:
            m.update(tok=b"", ops=[], pl=b"")
        b = enc(**m)
        if len(b) > 1152:
            continue
        out.append(b)
        k = r.randrange(12)
        if k == 0 and len(b) > 1:
            out.append(b[:r.randrange(len(b))])
        elif k == 1:
            bb = bytearray(b); bb[r.randrange(len(bb))] = r.choice([0, 15, 0xf0, 0xff, 0xdd, 0xee, 0xd0, 0x0d, 0xe0, 0x0e, r.randrange(256)]); out.append(bytes(bb))
        elif k == 2:
            out.append(enc(**dict(m, pl=b"")) + b"\xff")
        elif k == 3:
            out.append(enc(**dict(m, ver=r.choice([0, 2, 3]))))
        elif k == 4:
            out.append(enc(**dict(m, tkl=r.randrange(16))))
        elif k == 5:
            out.append(enc(**dict(m, cls=r.choice([1, 3, 6, 7]))))
        elif k == 6:
            out.append(bytes([r.choice([0x40, 0x50, 0x60, 0x70, 0x41, 0x48, 0x49, 0x4f])]) + rb(r, r.randrange(0, 14)))
        elif k == 7:
            # truncate near the end: options running over the end of the datagram
            out.append(b[:max(0, len(b) - r.randrange(1, 6))])
        elif k == 8:
            out.append(b + bytes([r.choice([0x0f, 0xf0, 0x1f, 0xf1, 0xdf, 0xfd, 0xd0, 0x0d, 0xe0, 0x0e, 0xee, 0xdd])]) + rb(r, r.randrange(0, 3)))
    return out[:n]

def big_datagrams(r):
    out = []
    for L in [1000, 1023, 1024, 1025, 1026, 1100, 1140]:
        out.append(enc(pl=rb(r, L)))
        out.append(enc(ops=[(35, rb(r, L))]))
    for k in [10, 127, 128, 129, 130, 200]:
        out.append(enc(ops=[(11, b"")] * k)[:1152])
        if k < 150:
            out.append(enc(ops=[(11, b"")] * k, pl=b"x"))
    for n in [65535, 65804, 65805 - 1]:
        out.append(enc(ops=[(n, b"a")]))
    out.append(enc(ops=[(65804, b"a"), (2 * 65804, b"b")]))
    for lim in range(0, 9):
        out.append(enc(tok=bytes(range(lim))))
    return out

def parse_scenarios(dgs, per=200, pools="pools 128 128 1024"):
    return [[pools] + ["parse " + hx(d) for d in dgs[i:i + per]] for i in range(0, len(dgs), per)]

def api_scenario(r):
    """A history of calls on one message object, with formats into buffers around the exact size."""
    cmds = ["pools %d %d 1024" % r.choice([(128, 128), (128, 128), (8, 128), (128, 8), (16, 16)])]
    for _ in range(r.randrange(1, 4)):
        cmds.append("new")
        st = dict(type=0, cls=0, det=0, mid=0, tok=b"", pl=b"")
        ops = []
        for _ in range(r.randrange(2, 14)):
            k = r.randrange(10)
            if k == 0:
                t = r.choice([0, 1, 2, 3, 4, 7]); cmds.append("type %d" % t)
                if t < 4: st["type"] = t
            elif k == 1:
                c, d = r.choice(CODES + [(0, 0), (7, 31), (8, 0), (0, 32), (1, 1), (3, 3)]); cmds.append("code %d %d" % (c, d))
                if c < 8 and d < 32: st["cls"], st["det"] = c, d
            elif k == 2:
                m = r.choice([0, 255, 256, 65535, 65536, r.randrange(65536)]); cmds.append("mid %d" % m)
                if m < 65536: st["mid"] = m
            elif k == 3:
                t = rb(r, r.choice([0, 1, 4, 7, 8, 8, 9, 12])); cmds.append("token " + hx(t))
                if len(t) <= 8: st["tok"] = t
            elif k == 4:
                p = rb(r, r.choice(EDGE_PAY + [1023, 1024, 1025])); cmds.append("pay " + hx(p)); st["pl"] = p if len(p) <= 1024 else b""
            elif k == 5:
                if r.random() < 0.3:
                    cmds.append("clrpay"); st["pl"] = b""
            else:
                n = r.choice(EDGE_NUM)
                v = rb(r, r.choice(EDGE_LEN) if r.random() < 0.5 else r.randrange(0, 5))
                if n in (23, 27): v = rb(r, r.choice([0, 1, 2, 3, 4]))
                cmds.append("op %d %s" % (n, hx(v)))
                i = len(ops)
                while i > 0 and ops[i - 1][0] > n: i -= 1
                ops.insert(i, (n, v))
            if r.random() < 0.35:
                cmds += fmts(r, dict(st, ops=ops))
        cmds += fmts(r, dict(st, ops=ops))
    cmds.append("drop")
    return cmds

def fmts(r, m):
    L = len(enc(**m)) if m["cls"] < 8 else 4
    caps = [L]
    caps += r.sample([L - 1, L + 1, L - 2, L + 7, 1152, 0, 3, 4, max(0, L - len(m["pl"]) - 1), max(0, L - len(m["pl"]) - 2), max(0, L - len(m["pl"]))], 3)
    return ["fmt %d" % c for c in caps if c >= 0]

def tight_fmt_scenarios():
    """Every buffer size from 0 to the exact size, for small messages of each option shape."""
    res = []
    for n in (1, 12, 13, 14, 268, 269, 300):
        for l in (0, 1, 12, 13, 14, 40):
            m = dict(type=0, cls=0, det=1, mid=258, tok=b"ab", ops=[(n, b"v" * l)], pl=b"")
            L = len(enc(**m))
            cmds = ["pools 16 16 1024", "new", "code 0 1", "mid 258", "token 6162", "op %d %s" % (n, hx(b"v" * l))]
            cmds += ["fmt %d" % c for c in range(max(0, L - 20), L + 2)]
            cmds += ["op %d 77" % (n + 1)]
            L2 = len(enc(**dict(m, ops=m["ops"] + [(n + 1, b"w")])))
            cmds += ["fmt %d" % c for c in range(L2 - 4, L2 + 2)]
            cmds += ["pay 7a", "fmt %d" % (L2 + 1), "fmt %d" % (L2 + 2), "drop"]
            res.append(cmds)
    return res

def block_scenarios(r, n):
    res = []
    cmds = []
    for L in (0, 1, 2, 3, 4):
        for num in sorted({0, 1, 7, 8, 14, 15, 16, 17, 255, 256, 4094, 4095, 4096, 4097, 65535, 65536, 1048574, 1048575, 1048576, 1048577}):
            for size in (16, 64, 1024):
                cmds.append("bfmt %d %d %d %d" % (L, num, r.randrange(2), size))
    for size in list(range(0, 40)) + [63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 4096, 65536]:
        cmds.append("szx %d" % size)
        cmds.append("bfmt 3 5 1 %d" % size)
    for k in range(256):
        cmds.append("bparse %02x" % k)
    cmds.append("bparse -")
    for k in range(n):
        L = r.choice([0, 2, 2, 3, 3, 4, 5])
        cmds.append("bparse " + hx(rb(r, L)))
    for k in range(n):
        cmds.append("bfmt %d %d %d %d" % (r.choice([1, 2, 3]), r.choice([r.randrange(16), r.randrange(4096), r.randrange(1 << 20)]), r.choice([0, 1, 1, 2, 5]), 16 << r.randrange(7)))
    for k in range(0, 300):
        cmds.append("recog %d" % k)
    for i in range(0, len(cmds), 250):
        res.append(["pools 16 16 1024"] + cmds[i:i + 250])
    return res
