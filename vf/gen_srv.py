"""Scenarios for the CoAP server harness (h_srv): scripts of datagrams, times and faults."""

CON, NON, ACK, RST = range(4)


def opt(prev, num, val):
    def nib(x):
        return (13, bytes([x - 13])) if 13 <= x < 269 else (14, (x - 269).to_bytes(2, "big")) if x >= 269 else (x, b"")
    d, de = nib(num - prev)
    l, le = nib(len(val))
    return bytes([d << 4 | l]) + de + le + val


def msg(type=CON, cls=0, det=1, mid=1, tok=b"", ops=(), pl=b""):
    b = bytes([0x40 | type << 4 | len(tok), cls << 5 | det, mid >> 8, mid & 255]) + tok
    prev = 0
    for n, v in sorted(ops, key=lambda o: o[0]):
        b += opt(prev, n, v)
        prev = n
    return b + (b"\xff" + pl if pl else b"")


def path(p):
    return [(11, s.encode()) for s in p.split("/") if s]


def block(num, more, size, width=None):
    szx = size.bit_length() - 5
    v = num << 4 | more << 3 | szx
    n = width if width is not None else (0 if v == 0 else (v.bit_length() + 7) // 8)
    return v.to_bytes(max(n, (v.bit_length() + 7) // 8), "big")


def hx(b):
    return b.hex() if b else "-"


def post(lines):
    """Group the raw events of one scenario into steps: one per received datagram, one per
    retransmission."""
    out, cur = [], None
    for x in lines:
        k = x["k"]
        if k == "wait":
            cur = None
        elif k == "rx":
            cur = dict(x)
            cur["ev"] = []
            out.append(cur)
        elif k in ("h", "brx", "tx"):
            if cur is not None:
                cur["ev"].append(x)
            else:
                y = dict(x)
                if k == "tx":
                    y["k"] = "tmr"
                out.append(y)
        else:
            out.append(x)
    return out


class S:
    def __init__(self, r):
        self.r, self.c, self.t = r, [], 0
        self.last = {}

    def head(self, *c):
        self.c.extend(c)

    def dt(self, d):
        """delays are multiples of 10 ms"""
        return int(d) // 10 * 10

    def rx(self, d, ep, b):
        self.c.append("rx %d %d %s" % (self.dt(d), ep, hx(b)))
        self.last[ep] = b

    def cmd(self, name, d, *a):
        self.c.append(" ".join([name, str(self.dt(d))] + [str(x) for x in a]))

    def done(self):
        self.c.append("adv 200000")
        return self.c


RES = {
    "a": "res a fix 2 5 %s 1",
    "b/c": "res b/c fix 2 4 %s 1",
    "e": "res e err -5",
    "s": "res s fix 2 5 %s 1",
    "s/t": "res s/t fix 4 3 %s 0 12 00",
    "o": "res o fix 2 5 %s 1 12 2a",
}


def std_res(s, r, seps=("/s", "/s/t")):
    for p in seps:
        s.head("sep " + p)
    for k, v in RES.items():
        s.head(v % bytes(r.randrange(256) for _ in range(r.randrange(1, 12))).hex() if "%s" in v else v)


def rand_tok(r):
    return bytes(r.randrange(256) for _ in range(r.choice([0, 1, 2, 4, 8])))


def gap(r):
    return r.choice([10, 100, 700, 1000, 1500, 2500, 4000, 9000]) + r.randrange(0, 30) * 10


def bad_dgram(r):
    return r.choice([
        b"", b"\x40", b"\x41\x01\x00", bytes([0x80, 1, 0, 9]), bytes([0x49, 1, 0, 5]) + bytes(9), bytes([0x40, 1, 0, 6, 0xff]),
        bytes([0x40, 0x21, 0, 6]), bytes([0x50, 0x21, 0, 6]), bytes([0x40, 1, 0, 7, 0xb5, 0x61]), bytes([0x40, 1, 0, 7, 0xf1, 0x61]),
        bytes([0x41, 0, 0, 8, 1]), bytes([0x70, 1, 0, 8]), bytes([0x50, 0, 0, 3]), bytes([0x00, 1, 0, 2]), bytes([0x60, 0x21, 1, 1]),
        bytes([0x4f, 1, 0, 5]) + bytes(15), bytes([0x40, 0xe1, 7, 7])])


CRIT_BAD = [9, 13, 19, 21, 25, 29, 31, 33, 37, 41, 65001]
ELECT_UNK = [2, 6, 10, 16, 18, 22, 30, 2048, 65000]


def mixed(r, neps=3, steps=14, faults=0.0, noise=0.25, crit=0.08):
    s = S(r)
    if r.random() < 0.3:
        s.head("rand %d %d" % (r.choice([0xfd, 0xfe, 0xff]), 0xff))      # message ids about to wrap
    std_res(s, r)
    nextmid = {e: r.choice([0, 0, 1, 65534, 65535, r.randrange(65536)]) for e in range(neps)}
    sent = {e: [] for e in range(neps)}
    for _ in range(r.randrange(4, steps)):
        ep = r.randrange(neps)
        x = r.random()
        if x < 0.30 and sent[ep]:
            b = sent[ep][-1]                                               # duplicate of the last request
        elif x < 0.36 and len(sent[ep]) > 1:
            b = sent[ep][-2]                                               # an older one
        elif x < 0.36 + noise:
            y = r.random()
            if y < 0.35:
                s.cmd("ack", gap(r), ep, r.choice([ACK, RST]), r.choice([0, 0, 0, 1, -1, 5]))
                continue
            if y < 0.6:
                b = bad_dgram(r)
            else:
                lm = (nextmid[ep] - 1) % 65536
                b = r.choice([msg(CON, 0, 0, r.randrange(65536)), msg(CON, 0, 0, nextmid[ep]), msg(ACK, 0, 0, r.randrange(65536)),
                              msg(RST, 0, 0, r.randrange(65536)), msg(CON, 2, 5, r.randrange(65536), b"x"), msg(NON, 2, 5, 7, b"yy", pl=b"z"),
                              msg(ACK, 2, 5, lm, b"q"), msg(ACK, 0, 0, lm), msg(RST, 0, 0, lm), msg(ACK, 0, 1, lm, b"", path("a")),
                              msg(CON, 4, 4, r.randrange(65536)), msg(CON, 5, 0, lm)])
        else:
            ops = path(r.choice(["a", "a", "b/c", "s", "s", "s/t", "e", "zz", "", "o"]))
            if r.random() < crit:
                ops += [(r.choice(CRIT_BAD), b"\x01")]
            if r.random() < 0.1:
                ops += [(r.choice(ELECT_UNK), b"\x02\x03")]
            if r.random() < 0.1:
                ops += [(15, b"q=1"), (17, b"")]
            b = msg(r.choice([CON, CON, CON, NON]), 0, r.choice([1, 1, 2, 3, 4]), nextmid[ep], rand_tok(r), ops,
                    bytes(r.randrange(256) for _ in range(r.choice([0, 0, 3, 20]))))
            nextmid[ep] = (nextmid[ep] + 1) % 65536
            sent[ep].append(b)
        if r.random() < faults:
            s.cmd("sendfail", 10, r.choice([1, 1, 2]))
        s.rx(gap(r), ep, b)
        if r.random() < 0.25:
            s.cmd("ack", gap(r), ep, r.choice([ACK, ACK, RST]), 0)
    if faults:
        s.cmd("sendfail", 10, 0)
    # the server must still be serving afterwards
    s.rx(gap(r), 50, msg(CON, 0, 1, 77, b"ok", path("a")))
    return s.done()


def separate(r):
    """Separate responses: retransmission schedule, stop on ACK/RST, new request while pending."""
    s = S(r)
    std_res(s, r)
    n = r.choice([1, 1, 2, 3])
    mid = r.randrange(65000)
    for e in range(n):
        s.rx(gap(r), e, msg(CON, 0, 1, mid + e, rand_tok(r), path(r.choice(["s", "s/t"]))))
    for _ in range(r.randrange(0, 7)):
        e = r.randrange(n)
        x = r.random()
        d = r.choice([100, 1900, 2100, 3500, 5000, 7000, 13000, 25000, 40000, 60000])
        if x < 0.3:
            s.cmd("ack", d, e, r.choice([ACK, RST]), r.choice([0, 0, 0, 1]))
        elif x < 0.5:
            s.rx(d, e, s.last[e])
        elif x < 0.75:
            mid += 7
            s.rx(d, e, msg(r.choice([CON, CON, NON]), 0, 1, mid, rand_tok(r), path(r.choice(["a", "s", "a", "e"]))))
        elif x < 0.85:
            s.rx(d, e, msg(CON, 0, 0, r.randrange(65536)))
        elif x < 0.93:
            s.cmd("sendfail", d, 1)
        else:
            s.cmd("adv", d)
    s.cmd("adv", 100000)
    s.rx(100, 50, msg(CON, 0, 1, 9, b"", path("a")))
    return s.done()


def evict(r):
    """More endpoints than transactions; activity in a known order; who is remembered?"""
    s = S(r)
    std_res(s, r)
    n = r.choice([8, 9, 9, 10, 12])
    base = r.randrange(60000)
    eps = list(range(n))
    r.shuffle(eps)
    req = {}
    for e in eps:
        req[e] = msg(r.choice([CON, CON, CON, NON]), 0, 1, (base + (0 if r.random() < 0.5 else e)) % 65536, bytes([e]), path(r.choice(["a", "a", "s"])))
        s.rx(r.choice([1000, 1000, 1300, 2000] if r.random() < 0.9 else [100]), e, req[e])
        if r.random() < 0.3:
            k = r.choice([x for x in eps if x in req])
            s.rx(1000, k, req[k])                # duplicates refresh activity
        if r.random() < 0.1:
            s.rx(1000, r.choice([30, 31]), bad_dgram(r))
        if r.random() < 0.1:
            s.rx(1000, r.choice([30, 31]), msg(RST, 0, 0, 4))
    for _ in range(r.randrange(4, 12)):
        e = r.choice(eps)
        x = r.random()
        if x < 0.7:
            s.rx(r.choice([1000, 1100, 2000]), e, req[e])
        elif x < 0.85:
            req[e] = msg(CON, 0, 1, (base + 100 + r.randrange(50)) % 65536, bytes([e, 1]), path("a"))
            s.rx(1000, e, req[e])
        else:
            s.cmd("ack", 1000, e, ACK, 0)
    return s.done()


SIZES = [16, 32, 64, 128]


def body(r, n):
    return bytes((i * 7 + r.randrange(256)) % 256 for i in range(n))


def upload(r, faults=0.0, neps=1, force=None):
    """Blockwise PUT/POST towards library-level transfers, mostly in order, with deviations."""
    s = S(r)
    cap = r.choice([96, 128, 200, 256])
    s.head("mem 512 512 %d %d" % (r.choice([8, 16]), cap))
    if r.random() < 0.2:
        s.head("sep /w")
    b1 = r.choice(SIZES + [0, 20] if r.random() < 0.1 else SIZES)
    b2 = r.choice(SIZES)
    rb = r.choice([0, 0, 1, b2 - 1, b2, b2 + 1, 2 * b2, 2 * b2 + 5])
    rb = min(rb, cap)
    fail = r.random()
    spec = "bw %d %d %s %d %d %d %d %s" % (b1, b2, hx(body(r, r.choice([0, 5, 40]))), 0 if r.random() < 0.05 else 1,
                                           -5 if fail < 0.08 else 0, 4 if 0.08 <= fail < 0.2 else 2,
                                           9 if 0.08 <= fail < 0.2 else r.choice([1, 4]), hx(body(r, rb)))
    s.head("res w " + spec)
    s.head("res w/up " + spec)
    s.head("res v bw %d %d %s 1 0 2 4 -" % (32, 32, hx(body(r, 40))))
    s.head("res a fix 2 5 aa 1")
    for ep in range(neps):
        mid = r.randrange(60000)
        for _ in range(r.choice([1, 1, 2])):
            up_once(s, r, ep, mid, cap, b1, b2, rb, faults, force)
            mid += 100
    s.rx(gap(r), 50, msg(CON, 0, 1, 77, b"ok", path("a")))
    return s.done()


def up_once(s, r, ep, mid, cap, b1, b2, rb, faults, force=None):
    det = r.choice([2, 3])
    size = r.choice(SIZES)
    n = r.choice([1, size - 1, size, size + 1, 2 * size, 3 * size - 1, cap - 1, cap, cap + 1, cap + size])
    n = max(1, min(n, 300))
    data = body(r, n)
    off = 0
    tok = rand_tok(r)
    eff = size
    typ = r.choice([CON, CON, CON, NON])
    p = r.choice(["w", "w/up"])
    dev = r.random() < 0.35
    devat = r.randrange(0, 4) if dev else -1
    if force:
        size = eff = r.choice([16, 32])
        n, devat = 3 * size + r.choice([1, size - 1]), force[0]
        if n > cap:
            n = cap
        data = body(r, n)
    k = 0
    while off < n:
        pl = data[off:off + eff]
        more = 1 if off + eff < n else 0
        num, d2, pp = off // eff, det, p
        ops1 = [(27, block(num, more, eff, r.choice([None, 3])))]
        if k == devat:
            z = force[1] if force else r.randrange(15)
            if z == 0:
                ops1 = [(27, block(num + 1, more, eff))]
            elif z == 1:
                pl = b""
            elif z == 2:
                d2 = 5 - det
            elif z == 3:
                pp = r.choice(["v", "v", "w", "w/u", "w/up", "w/uq", "w/up/x", "wup", "w/UP", "up", ""])
            elif z == 4:
                ops1 = [(27, b"\x07")]
            elif z == 5:
                ops1 = [(27, b"\x00\x00\x00\x08")]
            elif z == 6:
                ops1 = [(23, b"\x07")] + ops1
            elif z == 7:
                d2 = r.choice([1, 4])
            elif z == 12:
                ops1 = [(27, block(0, more, eff))]
            elif z == 13:
                pl = pl[:-1]
            elif z == 14 and eff < 1024:
                ops1 = [(27, block(off // (2 * eff), more, 2 * eff))]
            elif z == 8 and off:
                ops1 = [(27, block(max(0, num - 1), more, eff))]
            elif z == 9:
                ops1 = []
            elif z == 10:
                ops1.append((9, b"\x01"))
            elif z == 11:
                pl = pl + b"extra"
        if r.random() < 0.15 and more == 0:
            ops1.append((23, block(0, 0, r.choice(SIZES))))
        b = msg(typ, 0, d2, (mid + k) % 65536, tok, path(pp) + ops1, pl)
        if r.random() < faults:
            s.cmd("sendfail", 10, 1)
        s.rx(gap(r) if r.random() < 0.5 else 100, ep, b)
        if r.random() < 0.2:
            s.rx(300, ep, b)                      # retransmitted by the client
        if r.random() < 0.06:
            s.rx(100, ep, msg(CON, 0, 0, r.randrange(65536)))
        off += eff
        k += 1
        if k == 1 and b1 in SIZES and b1 < eff:
            if r.random() < 0.8:
                eff = b1                          # follow the server's preference
        elif r.random() < 0.08 and eff > 16 and off % (eff // 2) == 0:
            eff //= 2
    # fetch the rest of the response body
    size2 = b2 if b2 in SIZES else 16
    if rb:
        num = 1
        while num * size2 <= rb + 1 and num < 12:
            if r.random() < 0.05:
                num += 1
            b = msg(typ, 0, det, (mid + k) % 65536, tok, path(p) + [(23, block(num, 0, size2, r.choice([None, 3])))])
            s.rx(200, ep, b)
            if r.random() < 0.15:
                s.rx(200, ep, b)
            k += 1
            num += 1


def deviations(r, kinds, rep):
    """Every kind of deviation at every one of the first blocks."""
    return [kinds[0](r, force=(j, z)) for j in range(0, 5) for z in range(kinds[1]) for _ in range(rep)]


def download(r, neps=1, force=None):
    s = S(r)
    cap = r.choice([96, 200, 256])
    s.head("mem 512 512 %d %d" % (r.choice([8, 16]), cap))
    if r.random() < 0.2:
        s.head("sep /d")
    b2 = r.choice(SIZES + [0, 17] if r.random() < 0.1 else SIZES)
    n = r.choice([0, 1, 15, 16, 17, 31, 32, 33, 64, 95, 96, 97, 128, 199, 200, 256, 257])
    if force:
        b2, n = r.choice([16, 32]), r.choice([80, 96, 90])
    spec = "bw %d %d %s %d 0 2 4 -" % (r.choice([0, 16, 32]), b2, hx(body(r, n)), r.choice([0, 1]))
    base = r.choice(["d", "d/ee"])
    s.head("res d " + spec)
    s.head("res d/ee " + spec)
    s.head("res f bw 16 16 %s 1 0 2 4 -" % hx(body(r, 40)))
    s.head("res a fix 2 5 aa 1")
    for ep in range(neps):
        mid = r.randrange(60000)
        for _ in range(r.choice([1, 2])):
            tok = rand_tok(r)
            typ = r.choice([CON, CON, CON, NON])
            eff = b2 if b2 in SIZES else 16
            ask = r.choice([None, None, 16, 32, 64, 128])
            if ask is not None and ask < eff:
                eff = ask
            off, k = 0, 0
            devat = r.randrange(0, 5) if r.random() < 0.35 else -1
            if force:
                devat = force[0]
            while off <= n and k < 20:
                ops = []
                if k or ask is not None:
                    sz = eff if k else ask
                    ops = [(23, block(off // sz, 0, sz, r.choice([None, 3])))]
                pp, det = base, 1
                if k == devat:
                    z = force[1] if force else r.randrange(11)
                    if z == 0:
                        ops = [(23, block(off // eff + 1, 0, eff))]
                    elif z == 1:
                        ops = [(23, b"\x0f")]
                    elif z == 2:
                        pp = r.choice(["f", "d", "d/e", "d/ef", "d/ee", "d/ee/x", "dee", ""])
                    elif z == 3:
                        det = r.choice([2, 3, 4])
                    elif z == 4:
                        ops = []
                    elif z == 5:
                        ops += [(27, b"\x07")]
                    elif z == 6 and eff > 16:
                        eff //= 2
                        ops = [(23, block(off // eff, 0, eff))]
                    elif z == 7:
                        ops += [(25, b"\x01")]
                    elif z == 8:
                        ops = [(23, block(max(0, off // eff - 1), 0, eff))]
                    elif z == 9 and eff < 1024:
                        ops = [(23, block(off // (2 * eff), 0, 2 * eff))]
                    elif z == 10:
                        ops = [(23, block(0, 0, eff))]
                b = msg(typ, 0, det, (mid + k) % 65536, tok, path(pp) + ops, b"p" if r.random() < 0.05 else b"")
                s.rx(gap(r) if r.random() < 0.5 else 100, ep, b)
                if r.random() < 0.2:
                    s.rx(300, ep, b)
                if r.random() < 0.06:
                    s.rx(100, ep, msg(r.choice([ACK, RST]), 0, 0, r.randrange(65536)))
                off += eff
                k += 1
            mid += 100
    s.rx(gap(r), 50, msg(CON, 0, 1, 77, b"ok", path("a")))
    return s.done()


def critical(r):
    """Every option number class, alone and combined, on every kind of resource and in transfers."""
    s = S(r)
    std_res(s, r)
    s.head("res w bw 16 16 %s 1 0 2 4 -" % hx(body(r, 40)))
    mid = r.randrange(60000)
    k = 0
    for _ in range(12):
        ops = path(r.choice(["a", "s", "w", "b/c", "e"]))
        for _ in range(r.choice([1, 1, 2, 3])):
            n = r.choice([r.randrange(0, 70), r.choice(CRIT_BAD), r.choice(ELECT_UNK), r.randrange(0, 65535)])
            if n in (23, 27):
                continue
            ops.append((n, bytes(r.randrange(256) for _ in range(r.choice([0, 1, 4])))))
        det = 1
        s.rx(200, k % 3, msg(r.choice([CON, CON, NON]), 0, det, mid + k, rand_tok(r), ops))
        if r.random() < 0.4:
            s.rx(200, k % 3, s.last[k % 3])
        k += 1
        s.cmd("ack", 200, k % 3, ACK, 0)
    return s.done()


def sequences(seqs):
    """Scripts for abstract input sequences enumerated by TLC (SeqGen, 14 inputs)."""
    out = []
    for q in seqs:
        s = S(None)
        s.head("sep /s", "res a fix 2 5 aa 1", "res s fix 2 5 bb 1", "res e err -5")
        mid = {0: 0, 1: 0}

        def req(ep, typ, p, extra=()):
            b = msg(typ, 0, 1, mid[ep], bytes([mid[ep] + 1]), path(p) + list(extra))
            mid[ep] += 1
            s.rx(300, ep, b)
        for x in q:
            if x == 0:
                req(0, CON, "a")
            elif x == 1:
                s.rx(300, 0, s.last.get(0, msg(CON, 0, 1, 0, b"\x01", path("a"))))
            elif x == 2:
                req(0, CON, "s")
            elif x == 3:
                s.cmd("ack", 300, 0, ACK, 0)
            elif x == 4:
                s.cmd("ack", 300, 0, RST, 0)
            elif x == 5:
                req(0, NON, "a")
            elif x == 6:
                s.c.append("rx 300 0 " + msg(CON, 0, 0, 4660).hex())
            elif x == 7:
                s.c.append("rx 300 0 4fff0001")
            elif x == 8:
                s.cmd("adv", 3000)
            elif x == 9:
                s.cmd("adv", 110000)
            elif x == 10:
                s.cmd("sendfail", 10, 1)
            elif x == 11:
                req(1, CON, "s")
            elif x == 12:
                req(0, CON, "a", [(9, b"")])
            elif x == 13:
                req(0, CON, "e")
        s.cmd("sendfail", 10, 0)
        if 0 in s.last:
            s.rx(400, 0, s.last[0])
        req(0, CON, "a")
        out.append(s.done())
    return out


def every_option(n):
    """Every option number below n (and a few beyond), one request each."""
    out = []
    nums = [k for k in list(range(0, n)) + [2047, 2048, 65001, 65535] if k not in (23, 27)]
    for i in range(0, len(nums), 25):
        s = S(None)
        s.head("sep /s", "res a fix 2 5 aa 1", "res s fix 2 5 bb 1")
        for j, k in enumerate(nums[i:i + 25]):
            s.rx(300, 0, msg(CON if k % 3 else NON, 0, 1, j + 1, bytes([j]), path("s" if k % 7 == 3 else "a") + [(k, bytes([k % 251]))]))
        out.append(s.done())
    return out
