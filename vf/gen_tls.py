"""Scenarios for the TLS sockets of the proxy and their stores of sessions."""
NCERTS = 19
NAMES = ["-", "-", "peer", "peer", "other"]


def hs(r, bad=0.3):
    n = r.choice([0, 0, 1, 2, 3, 5, 9])
    return "A" * n + (r.choice("WIFE") if r.random() < bad else "S")


def sel(r, n=12, bad=0.12):
    s = ""
    for _ in range(n):
        if r.random() < bad:
            return s + r.choice("TIE")
        s += "R"
    return s


def rx(r, n, quiet=False):
    s = ""
    for _ in range(r.randrange(1, 7)):
        x = r.random()
        if x < 0.4:
            s += "D%d" % r.choice([1, 2, n // 2 + 1, n, n + 9])
        elif x < 0.75:
            s += "A" * r.choice([1, 1, 2, 4])
        elif x < 0.85:
            s += "H"
        elif not quiet:
            s += r.choice("0IE")
    return s


def tx(r, n):
    return rx(r, n).replace("H", "A")


def setup(r, n):
    out = [["tlsinit %d" % f] for f in range(4)] + [["tlsinit 2", "tlsinit 0", "tlsinit 1", "tlsinit 0"]]
    for k in ("client", "server"):
        for t, c, y in (("t", "c", "k"), ("t", "-", "-"), ("-", "c", "k"), ("t2", "c2", "k2"), ("t", "c", "-")):
            if k == "client" and t == "-" or k == "server" and (c == "-" or y == "-"):
                continue
            out += [["%s %d %s %s %s" % (k, f, t, c, y)] for f in range(8)]
            out.append(["%s %d %s %s %s" % (k, f, t, c, y) for f in (0, 3, 0, 5, 0)])
    for f in range(8):
        out.append(["up", "listen 3 %d" % f, "unlisten"] if f in (0, 7) else ["up", "listen 3 %d" % f])
    out.append(["up", "listen -1 0"])
    for c in range(NCERTS):
        for nm in ("-", "peer", "other", "pee"):
            out.append(["up", "open 0 10.0.0.1 1 %s 3 %d 0 0 -1" % (nm, c)])
        out.append(["up", "listen 3 0", "accept 0 %d 0 0 -1" % c])
    for f in range(1, 9):
        out.append(["up", "open 0 10.0.0.1 2 peer 3 0 %d 0 -1" % f])
        out.append(["up", "open 0 10.0.0.1 2 peer 3 0 0 %d -1" % f])
        out.append(["up", "cset 10.0.0.1 64 7", "open 0 10.0.0.1 2 peer 3 0 %d 0 -1" % f])
        out.append(["up", "listen 3 0", "accept 0 0 %d 0 5" % f])
        out.append(["up", "listen 3 0", "accept 0 0 0 %d 5" % f])
    for na in (0, 1, 2, 3):
        for con in ("S", "F", "FS", "FF", "FFS", "FFF"):
            out.append(["up", "open 0 10.0.0.%d %d - 3 0 0 0 -1 con=%s" % (na + 1, na, con)])
    out.append(["up", "open 0 10.0.0.1 1 - -1 0 0 0 -1"])
    for k in range(n):
        s = ["up"]
        if r.random() < 0.5:
            s.append("listen %d 0" % r.choice([0, 1, 3, 10]))
            for q in range(r.choice([1, 2, 3])):
                s.append("accept %d %d %d %d %d hs=%s sel=%s acc=%s" % (q, r.choice([0] * 4 + [r.randrange(NCERTS)]), r.choice([0] * 6 + [1, 2, 3, 4]), r.choice([0] * 6 + [1, 2]),
                                                                    r.choice([-1, 1, 2]), hs(r), sel(r), r.choice(["", "AC", "AAC", "AAAAC", "I", "E", "AI", "AE"])))
        else:
            for q in range(r.choice([1, 2, 3])):
                s.append("open %d 10.0.0.%d %d %s %d %d %d %d -1 hs=%s sel=%s con=%s bye=%s" % (
                    q, r.randrange(1, 4), r.choice([1, 1, 2, 3]), r.choice(NAMES), r.choice([0, 1, 3, 10]), r.choice([0] * 6 + [r.randrange(NCERTS)]), r.choice([0] * 6 + [1, 2, 3, 4, 5]),
                    r.choice([0] * 6 + [1, 2, 3]), hs(r), sel(r), r.choice(["S", "S", "FS", "FFS"]), r.choice("SAE")))
        out.append(s)
    return out


def letters(seqs):
    """Every short sequence of outcomes and waits, for every operation."""
    out = []
    for q in seqs:
        o = "".join("DAA0IEHR"[x] for x in q)
        sl = "".join("RRTIE"[x % 5] for x in q)
        base = ["up", "listen 1 0", "accept 0 0 0 0 -1", opened_plain(1)]
        d = o.replace("D", "D3").replace("R", "D1")
        t = o.replace("H", "A").replace("D", "D3").replace("R", "D1")
        h = o.translate(str.maketrans("D0HR", "SFWA"))
        b = o.translate(str.maketrans("D0HR", "SEAA"))
        for sc in ("RRRR", sl):
            for i in (0, 1):
                out.append(base + ["read %d 7 rx=%s sel=%s" % (i, d, sc), "readf %d 7 rx=%s sel=%s hs=%s" % (i, d, sc, h), "write %d 7 tx=%s sel=%s" % (i, t, sc),
                                   "writef %d 7 tx=%s sel=%s" % (i, t, sc), "rehs %d 100 0 hs=%s sel=%s" % (i, h, sc), "rehs %d 40 0 hs=%s sel=%s" % (i, h, sc),
                                   "close %d 50 9 bye=%s sel=%s" % (i, b, sc), "cget 10.0.0.9"])
            out.append(["up", "listen 1 0", "accept 0 0 0 0 -1 hs=%s sel=%s" % (h, sc), "open 1 10.0.0.9 1 - 1 0 0 0 -1 hs=%s sel=%s" % (h, sc),
                        "accept 2 0 0 0 -1 acc=%s sel=%s" % (o.translate(str.maketrans("D0HR", "CEAA")), sc)])
    return out


def opened_plain(q):
    return "open %d 10.0.0.9 1 - 1 0 0 0 -1" % q


def streams(r):
    """Several sockets at work, closing and coming back."""
    s = ["up", "listen %d 0" % r.choice([1, 3, 10])]
    up = {}
    tag = 300
    for _ in range(r.randrange(6, 24)):
        q = r.randrange(3)
        if q not in up:
            if r.random() < 0.5:
                s.append("accept %d 0 0 0 %d acc=%s hs=%s" % (q, r.choice([-1, 1, 2, 3]), r.choice(["C", "AAC"]), r.choice(["S", "AS", "AAS"])))
                up[q] = "s"
            else:
                s.append("open %d 10.0.0.%d 1 - %d 0 0 0 -1 hs=%s" % (q, r.randrange(1, 5), r.choice([1, 2, 10]), r.choice(["S", "AS"])))
                up[q] = "c"
            continue
        x = r.random()
        n = r.choice([1, 4, 7, 20, 60])
        if x < 0.35:
            s.append("%s %d %d rx=%s sel=%s hs=%s" % (r.choice(["read", "readf"]), q, n, rx(r, n), sel(r), hs(r, 0.1)))
        elif x < 0.7:
            s.append("%s %d %d tx=%s sel=%s" % (r.choice(["write", "writef"]), q, n, tx(r, n), sel(r)))
        elif x < 0.78:
            s.append("rehs %d %d %d hs=%s sel=%s" % (q, r.choice([100, 40]), r.choice([0, 0, 0, 1]), hs(r), sel(r)))
        else:
            s.append("close %d %d %d bye=%s sel=%s" % (q, r.choice([-1, 2, 50, 2048, 2049, 4000]), tag, r.choice(["S", "S", "AS", "AAAS", "I", "E", "AAAAAAA"]), sel(r)))
            tag += 1
            del up[q]
    for q in sorted(up):
        s.append("close %d -1 0" % q)
    return s


def caches(r):
    s = ["up"]
    srv = r.random() < 0.6
    many = r.choice([3, 20, 49, 50, 51, 60, 120])
    tag = 1
    for _ in range(r.randrange(20, 160)):
        x = r.random()
        k = r.randrange(1, many + 1)
        n = r.choice([2, 3, 100, 2048, 2048, 2049])
        if srv:
            kl = r.choice([32, 32, 32, 31, 33, 3])
            if x < 0.55:
                s.append("sset %d %d %d %d" % (k, kl, n, tag))
            elif x < 0.85:
                s.append("sget %d %d" % (k, kl))
            else:
                s.append("sdel %d %d" % (k, kl))
        elif x < 0.6:
            s.append("cset 10.0.%d.%d %d %d" % (k % 3, k, n, tag))
        else:
            s.append("cget 10.0.%d.%d" % (k % 3, k))
        tag += 1
    return s


def sweep(r):
    """Fill the store in order, then look at what is there."""
    n = r.choice([49, 50, 51, 60, 99, 100, 101])
    srv = r.random() < 0.5
    s = ["up"]
    for k in range(n):
        s.append("sset %d 32 2048 %d" % (k, k + 1) if srv else "cset 10.1.0.%d 2048 %d" % (k, k + 1))
        if r.random() < 0.1:
            j = r.randrange(k + 1)
            s.append(("sdel %d 32" % j if r.random() < 0.5 else "sset %d 32 5 %d" % (j, 900 + k)) if srv else "cset 10.1.0.%d 5 %d" % (j, 900 + k))
    for k in range(n):
        s.append("sget %d 32" % k if srv else "cget 10.1.0.%d" % k)
    return s


def store(seqs):
    """Every short history of a store with two keys."""
    out = []
    for q in seqs:
        s, tag = ["up"], 1
        for x in q:
            k = x % 2
            s.append(["sset %d 32 %d %d" % (k, 40, tag), "sget %d 32" % k, "sdel %d 32" % k, "cset 10.0.0.%d 40 %d" % (k, tag), "cget 10.0.0.%d" % k, "sset %d 33 9 %d" % (k, tag)][x // 2])
            tag += 1
        s += ["sget 0 32", "sget 1 32", "cget 10.0.0.0", "cget 10.0.0.1"]
        out.append(s)
    return out
