"""Scenarios for the CoAP client harness (h_cli): exchanges and a scripted peer."""
from .gen_srv import CON, NON, ACK, RST, SIZES, CRIT_BAD, ELECT_UNK, block, body, hx, bad_dgram


def post(lines):
    out, cur = [], None
    for x in lines:
        k = x["k"]
        if k == "wait":
            cur = None
        elif k in ("rx", "call"):
            cur = dict(x)
            cur["ev"] = []
            out.append(cur)
        elif k == "tx":
            if cur is not None:
                cur["ev"].append(x)
            else:
                y = dict(x)
                y["k"] = "tmr"
                out.append(y)
        else:
            if k == "ret":
                cur = None
            out.append(x)
    return out


def ops(l):
    l = sorted(l, key=lambda o: o[0])
    return ",".join("%d:%s" % (n, v.hex()) for n, v in l) if l else "-"


def on(j, n, delay, ref, typ, cls, det, mid="=", tok="=", op=(), pl=b""):
    return "on %d %d %d %d %d %d %d %s %s %s %s" % (j, n, delay, ref, typ, cls, det, mid, tok, ops(op), hx(pl))


# delays are 5 modulo 10 ms while timeouts are 3 modulo 10, so that they never coincide
def dl(r, *c):
    return (r.choice(c) if c else r.choice([10, 100, 900, 1900, 2500, 3500, 6000, 9000, 14000, 29000])) // 10 * 10 + 5


RCODES = [(2, 5), (2, 4), (2, 1), (2, 2), (2, 3), (4, 4), (4, 0), (5, 0), (5, 3), (2, 31)]


def rops(r, crit=0.06):
    o = []
    if r.random() < 0.3:
        o.append((12, bytes([r.randrange(60)])))
    if r.random() < 0.1:
        o.append((4, b"etag"))
    if r.random() < crit:
        o.append((r.choice(CRIT_BAD), b"\x01"))
    if r.random() < 0.1:
        o.append((r.choice(ELECT_UNK), b"\x07"))
    return o


def payload(r):
    return bytes(r.randrange(256) for _ in range(r.choice([0, 0, 1, 5, 40])))


def reply_rules(r, j, typ):
    """What the peer does about request j: mostly sensible, sometimes not."""
    c = []
    if r.random() < 0.15:
        return c                                              # silence
    n = r.choice([1, 1, 1, 1, 2, 3, 5]) if typ == CON else 1   # earlier transmissions were lost
    cls, det = r.choice(RCODES)
    pl = payload(r)
    x = r.random()
    mid = r.choice(["+%d" % r.randrange(1, 65000), str(r.randrange(65536))])
    if typ == CON and x < 0.45:
        c.append(on(j, n, dl(r), 0, ACK, cls, det, "=", "=", rops(r), pl))
        if r.random() < 0.3:
            c.append(on(j, n, dl(r), 0, ACK, cls, det, "=", "=", rops(r), pl))
    elif x < 0.8:
        if typ == CON and r.random() < 0.8:
            c.append(on(j, n, dl(r), 0, ACK, 0, 0, "=", "-"))
            if r.random() < 0.3:
                c.append(on(j, n, dl(r), 0, ACK, 0, 0, "=", "-"))
        mid = mid if r.random() < 0.85 else "="
        t = r.choice([CON, CON, NON])
        o = rops(r)
        c.append(on(j, n, dl(r), 0, t, cls, det, mid, "=", o, pl))
        if r.random() < 0.4:
            c.append(on(j, n, dl(r), 0, t, cls, det, mid, "=", o, pl))          # duplicate or early/late copy
    elif x < 0.88:
        c.append(on(j, n, dl(r), 0, RST, 0, 0, "=", "-"))
    else:
        c.append(on(j, n, dl(r), 0, ACK, 0, 0, "=", "-"))
    return c


def noise(r, j):
    x = r.random()
    t = r.choice([CON, NON, ACK])
    d = dl(r, 10, 500, 1500, 2700, 5000)
    if x < 0.18:
        return on(j, 1, d, 0, t, 2, 5, "+%d" % r.randrange(1, 60000), r.choice("xfsl-"), [], b"zz")     # wrong token
    if x < 0.30:
        return on(j, 1, d, 0, ACK, 2, 5, "=", r.choice("xfsl-"), [], b"zz")                              # right id, wrong token
    if x < 0.42:
        return on(j, 1, d, 0, r.choice([ACK, RST]), 0, 0, "+%d" % r.choice([1, 2, 65535, 256, 255]), "-")  # other id
    if x < 0.54:
        return on(j, 1, d, 0, t, 0, r.choice([1, 2]), r.choice(["=", "+9"]), r.choice("=x"), [(11, b"a")])   # a request
    if x < 0.62:
        return on(j, 1, d, 0, CON, 0, 0, "+7", "-")                                                      # ping
    if x < 0.74 and j > 1:
        return on(j, 1, d, 1, r.choice([CON, NON, ACK]), 2, 5, r.choice(["=", "+3"]), "=", [], b"old")   # late answer to the previous request
    if x < 0.80:
        return on(j, 1, d, 0, ACK, 0, 1, "=", "=", [(11, b"a")])                                         # request code in an ACK
    if x < 0.86:
        return on(j, 1, d, 0, ACK, 2, 5, "+5", "=", [], b"yy")                                           # right token, wrong id, ACK
    return "raw %d 1 %d %s" % (j, d, hx(bad_dgram(r)))


def exchanges(r, nx=None, noisy=0.5, faults=0.0):
    c = ["seed %d" % r.randrange(1, 1 << 30)]
    nx = nx or r.choice([1, 2, 3])
    calls = []
    for j in range(1, nx + 1):
        typ = r.choice([CON, CON, NON])
        o = [(11, b"p%d" % j)] + ([(15, b"q=1")] if r.random() < 0.2 else [])
        calls.append("x %d %d 0 %d %s %s" % (r.choice([0, 0, 10, 4000]), typ, r.choice([1, 2, 3, 4]), ops(o), hx(payload(r))))
        rules = reply_rules(r, j, typ)
        k = 0
        while r.random() < noisy and k < 4:
            rules.append(noise(r, j))
            k += 1
        r.shuffle(rules)
        c += rules
    if r.random() < faults:
        for _ in range(r.choice([1, 1, 2])):
            c.append("failtx %d" % r.randrange(1, 8))
    return c + calls


def invalid(r):
    """Calls that are not requests, and requests too large for a datagram."""
    c = []
    for typ, cls, det in [(ACK, 0, 1), (RST, 0, 0), (CON, 2, 5), (CON, 4, 4)]:
        c.append("x 0 %d %d %d - -" % (typ, cls, det))
    for n in range(1120, 1160, 3):
        c.append("x 0 %d 0 2 %s %s" % (NON, "11:61", "00" * n))
    c += ["x 0 0 0 2 11:61 " + "00" * 1139, on(1, 1, 15, 0, NON, 2, 5, "+3", "=")]
    return c


def timeouts(r):
    """Losses only: the full schedule of every exchange."""
    c = ["seed %d" % r.randrange(1, 1 << 30)]
    for j in range(1, 3):
        typ = r.choice([CON, CON, CON, NON])
        k = r.choice([0, 1, 2, 3, 4, 5, 6])
        if k and typ == CON:
            how = r.choice(["pig", "ack", "sep", "rst"])
            if how == "pig":
                c.append(on(j, k, dl(r), 0, ACK, 2, 5, "=", "=", [], b"r"))
            elif how == "ack":
                c.append(on(j, k, dl(r), 0, ACK, 0, 0, "=", "-"))
                if r.random() < 0.5:
                    c.append(on(j, k, dl(r, 12000, 29900, 31000, 36000), 0, CON, 2, 5, "+1", "="))
            elif how == "sep":
                c.append(on(j, k, dl(r), 0, CON, 2, 5, "+1", "="))
            else:
                c.append(on(j, k, dl(r), 0, RST, 0, 0, "=", "-"))
        elif typ == NON and r.random() < 0.6:
            c.append(on(j, 1, dl(r, 100, 29900, 29990, 30010, 31000), 0, NON, 2, 5, "+1", "="))
        c.append("x %d %d 0 1 11:61 -" % (r.choice([0, 50000]), typ))
    return c


def _serve(r, c, j, typ, mid, cls, det, o, pl, lossy):
    """One sensible answer to request j."""
    n = r.choice([1, 1, 1, 2]) if lossy and typ == CON else 1
    if typ == CON and r.random() < 0.8:
        c.append(on(j, n, 15, 0, ACK, cls, det, "=", "=", o, pl))
    else:
        if typ == CON:
            c.append(on(j, n, 15, 0, ACK, 0, 0, "=", "-"))
        c.append(on(j, n, 105, 0, r.choice([CON, NON]), cls, det, "+%d" % (1000 + j), "=", o, pl))
    if r.random() < 0.1:
        c.append(on(j, n, 205, 0, r.choice([CON, NON]), cls, det, "+%d" % (1000 + j), "=", o, pl))


def upload(r, lossy=True, force=None):
    c = ["seed %d" % r.randrange(1, 1 << 30)]
    b1 = r.choice(SIZES + [0, 48, 2048] if r.random() < 0.08 else SIZES)
    b2 = r.choice(SIZES + [0, 15] if r.random() < 0.08 else SIZES)
    n = r.choice([0, 1, 15, 16, 17, 32, 33, 64, 65, 100, 128, 200, 256])
    data = body(r, n)
    typ = r.choice([CON, CON, NON])
    det = r.choice([2, 3])
    size = b1 if b1 in SIZES else 16
    srv = r.choice([16, 32, 64, 128, 1024])
    off, j = 0, 1
    dev = r.randrange(1, 6) if r.random() < 0.4 else 0
    if force:
        b1, size, n, dev = 32, 32, r.choice([130, 200]), force[0]
        data = body(r, n)
    fin = r.choice([1, 4])
    rb = min(n, r.choice([0, 0, 1, 16, 40, n, n + 1])) if r.random() < 0.9 else n + 20
    rdata = body(r, rb)
    k2 = min(b2 if b2 in SIZES else 16, r.choice([16, 32, 128]))
    while True:
        ln = min(size, n - off)
        more = 1 if off + size < n else 0
        nsize = min(size, srv)
        o = [(27, block(off // nsize, more, nsize, r.choice([None, 3])))]
        cls, dt = (2, 31) if more else (2, fin)
        pl = b""
        if not more and rb:
            m2 = 1 if rb > k2 else 0
            o.append((23, block(0, m2, k2)))
            pl = rdata[:k2]
            if m2:
                dt = r.choice([31, fin])
        if j == dev:
            z = force[1] if force else r.randrange(13)
            if z == 0:
                o = [(27, block(off // nsize + 1, more, nsize))]
            elif z == 1:
                o = []
            elif z == 2:
                o = [(27, b"\x07")]
            elif z == 3:
                cls, dt = r.choice([(4, 13), (4, 8), (5, 0), (4, 0)])
            elif z == 4:
                dt = r.choice([5, 2, 3, 0])
            elif z == 5:
                o.append((9, b"\x00"))
            elif z == 6:
                o = [(27, block(max(0, off // nsize - 1), more, nsize))]
            elif z == 7:
                pl = b"unasked"
            elif z == 8:
                o = [(27, b"\x00\x00\x00\x08")]
            elif z == 9:
                o = [(27, block(0, more, nsize))]
            elif z == 10:
                o = [(27, block(off // nsize, 1 - more, nsize))]
            elif z == 11 and nsize < 1024:
                o = [(27, block(off // (2 * nsize), more, 2 * nsize))]
            elif z == 12 and nsize > 16:
                o = [(27, block(off // nsize, more, nsize // 2))]
        _serve(r, c, j, typ, None, cls, dt, o, pl, lossy)
        if r.random() < 0.1:
            c.append(noise(r, j))
        off += ln
        size = nsize
        j += 1
        if not more:
            break
    off = k2
    while rb > k2 and off < rb and j < 30:
        m2 = 1 if off + k2 < rb else 0
        o = [(23, block(off // k2, m2, k2))]
        if r.random() < 0.05:
            o = [(23, block(off // k2 + 1, m2, k2))]
        _serve(r, c, j, typ, None, 2, r.choice([31, fin]) if m2 else fin, o, rdata[off:off + k2], lossy)
        off += k2
        j += 1
    c.append("bw 0 %d %d 11:61 %d %d 0 %s" % (typ, det, b1, b2, hx(data)))
    c.append(on(j, 1, 15, 0, NON, 2, 5, "+1", "=", [], b"k"))
    c.append("x 0 1 0 1 11:62 -")
    return c


def download(r, lossy=True, force=None):
    c = ["seed %d" % r.randrange(1, 1 << 30)]
    b2 = r.choice(SIZES + [0, 15, 2048] if r.random() < 0.08 else SIZES)
    n = r.choice([0, 1, 15, 16, 17, 32, 33, 64, 65, 100, 128, 200, 256])
    data = body(r, n)
    cap = n if r.random() < 0.5 else r.choice([max(0, n - 1), n + 1, n + 50, n // 2])
    typ = r.choice([CON, CON, NON])
    srv = r.choice([16, 32, 64, 128, 1024])
    size = min(b2 if b2 in SIZES else 16, srv)
    off, j = 0, 1
    dev = r.randrange(1, 6) if r.random() < 0.4 else 0
    if force:
        b2, size, n, dev = 32, 32, r.choice([130, 200]), force[0]
        data, cap = body(r, n), n + r.choice([0, 1, 50])
    while j < 40:
        more = 1 if off + size < n else 0
        o = [(23, block(off // size, more, size, r.choice([None, 3])))]
        pl = data[off:off + size]
        cls, dt = 2, 5 if not more else r.choice([31, 5])
        if j == dev:
            z = force[1] if force else r.randrange(14)
            if z == 0:
                o = [(23, block(off // size + 1, more, size))]
            elif z == 1:
                o = []
            elif z == 2:
                o = [(23, b"\x0f")]
            elif z == 3:
                cls, dt = r.choice([(4, 4), (5, 0), (4, 0)])
            elif z == 4:
                dt = r.choice([4, 1, 2, 3])
            elif z == 5:
                o.append((9, b"\x00"))
            elif z == 6:
                pl = pl + b"x"
            elif z == 7 and pl:
                pl = pl[:-1]
            elif z == 8 and size > 16 and off % (size // 2) == 0:
                size //= 2
                o = [(23, block(off // size, 1, size))]
                pl = data[off:off + size]
            elif z == 9:
                o = [(23, block(off // size, more, size * 2 if size < 1024 else size))]
            elif z == 10:
                o = [(23, block(max(0, off // size - 1), more, size))]
            elif z == 11:
                o = [(23, block(0, more, size))]
            elif z == 12:
                o = [(23, block(off // size, 1 - more, size))]
            elif z == 13:
                pl = b""
        _serve(r, c, j, typ, None, cls, dt, o, pl, lossy)
        if r.random() < 0.1:
            c.append(noise(r, j))
        off += size
        j += 1
        if not more:
            break
    c.append("bw 0 %d 1 11:61 %d %d %d -" % (typ, 16, b2, cap))
    c.append(on(j, 1, 15, 0, NON, 2, 5, "+1", "=", [], b"k"))
    c.append("x 0 1 0 1 11:62 -")
    return c


def deviations(r, f, kinds, rep):
    """Every kind of deviation at every one of the first blocks."""
    return [f(r, k > 0, (j, z)) for j in range(1, 6) for z in range(kinds) for k in range(rep)]


def oom(r):
    """Exchanges with hardly any pool buffers: nothing may leak."""
    c = upload(r) if r.random() < 0.5 else download(r)
    return ["mem %d %d" % (r.choice([8, 16]), r.choice([8, 16]))] + c


def sequences(seqs):
    """Peer behaviours enumerated by TLC (SeqGen, 12 inputs): the n-th datagram back to one
    confirmable exchange, followed by a second exchange."""
    out = []
    for q in seqs:
        c, t = [], 15
        for x in q:
            if x == 0:
                c.append(on(1, 1, t, 0, ACK, 0, 0, "=", "-"))
            elif x == 1:
                c.append(on(1, 1, t, 0, ACK, 2, 5, "=", "=", [], b"a"))
            elif x == 2:
                c.append(on(1, 1, t, 0, CON, 2, 5, "+1", "=", [], b"b"))
            elif x == 3:
                c.append(on(1, 1, t, 0, NON, 2, 5, "=", "=", [], b"c"))
            elif x == 4:
                c.append(on(1, 1, t, 0, RST, 0, 0, "=", "-"))
            elif x == 5:
                c.append(on(1, 1, t, 0, CON, 2, 5, "+1", "x", [], b"d"))
            elif x == 6:
                c.append(on(1, 1, t, 0, ACK, 2, 5, "+1", "x"))
            elif x == 7:
                c.append(on(1, 1, t, 0, CON, 0, 1, "+2", "=", [(11, b"a")]))
            elif x == 8:
                t += 2500
            elif x == 9:
                t += 31000
            elif x == 10:
                c.append("raw 1 1 %d 4fff0001" % t)
            elif x == 11:
                c.append(on(1, 1, t, 0, RST, 0, 0, "+1", "-"))
            t += 200
        c += ["x 0 0 0 1 11:61 -", on(2, 1, 15, 0, ACK, 2, 5, "=", "=", [], b"z"), "x 0 0 0 1 11:62 -"]
        out.append(c)
    return out
