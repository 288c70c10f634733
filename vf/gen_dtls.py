"""Scenarios for the library built with DTLS."""
from .gen_srv import msg, path, rand_tok, bad_dgram, std_res, S, CON, NON, ACK, RST
from . import gen_cli as gc

KINDS = ("rx", "flight", "alert", "recerr", "junk")
NCERTS = 19


def srv_post(lines):
    out, cur = [], None
    for x in lines:
        k = x["k"]
        if k == "wait":
            cur = None
        elif k in KINDS:
            cur = dict(x)
            cur["ev"] = []
            out.append(cur)
        elif k in ("h", "brx", "tx", "bye", "hsr", "odd") and cur is not None:
            cur["ev"].append(x)
        else:
            y = dict(x)
            if k == "tx":
                y["k"] = "tmr"
            if k in ("live", "ret"):
                cur = None
            out.append(y)
    return out


def cli_post(lines):
    out, cur = [], None
    for x in lines:
        k = x["k"]
        if k in ("wait", "bye") or (k == "rx" and not x["d"]):         # an empty datagram holds no record
            cur = None
        elif k in ("rx", "call", "alert", "recerr", "junk"):
            cur = dict(x)
            cur["ev"] = []
            out.append(cur)
        elif k == "tx":
            if cur is not None:
                cur["ev"].append(x)
            else:
                y = dict(x)
                y["k"] = "tmr"
                out.append(y)
        else:
            if k == "ret":
                cur = None
            out.append(x)
    return out


def flight(n, cert=0):
    return "16%02x%02x" % (n, cert)


def gap(r):
    return r.choice([10, 50, 200, 900, 1500, 3000, 20000])


def sessions(r, neps, flights, steps, faults=0.0, sep=False):
    """Handshakes, requests, alerts and rubbish in any order."""
    s = S(r)
    s.head("records %d" % flights)
    if sep:
        std_res(s, r)
    else:
        s.head("res a fix 2 5 aa 1", "res e err -5", "res b/c fix 2 4 - 0")
    mid = [r.randrange(60000) for _ in range(neps)]
    at = [0] * neps
    for _ in range(r.randrange(steps // 2, steps)):
        e = r.randrange(neps)
        x = r.random()
        if r.random() < faults:
            s.cmd("sendfail", 10, r.choice([1, 1, 2]))
        if r.random() < 0.1 and not faults:
            s.cmd("fgfail", 10, r.choice([1, 2, 3]))
        if sep:
            s.cmd("dg", 10, e, flight(1))       # so that no handshake is left pending: timers are not served meanwhile
            at[e] = flights
        if at[e] < flights and x < 0.75 or x < 0.08:
            at[e] = min(at[e], flights - 1)
            n = at[e] + 1 if sep or r.random() < 0.9 else r.choice([0, 1, 2, 3, 9])
            cert = 0 if r.random() < 0.8 else r.randrange(NCERTS)
            s.cmd("dg", gap(r), e, flight(n, cert))
            at[e] = at[e] + 1 if n == at[e] + 1 else at[e]
            if cert and n == flights:
                at[e] = 0
        elif x < 0.70:
            if r.random() < 0.15 and mid[e]:
                mid[e] -= 1
            s.rx(gap(r), e, msg(r.choice([CON, CON, NON]), 0, r.choice([1, 1, 2, 3]), mid[e], rand_tok(r),
                                path(r.choice(["a", "a", "b/c", "e", "s", "zz"]))))
            mid[e] += 1
        elif x < 0.78:
            s.cmd("dg", gap(r), e, "15" + r.choice(["00", "01", "02"]))
            at[e] = 0
        elif x < 0.82:
            s.cmd("dg", gap(r), e, "14ff")
            at[e] = 0
        elif x < 0.90:
            s.cmd("dg", gap(r), e, r.choice(["17", "16", "1601", "00", "ff00", "15", "150000", "160100ff", "4001000061"]))
        elif x < 0.94:
            s.rx(gap(r), e, bad_dgram(r))
            at[e] = 0
        elif x < 0.97:
            s.cmd("ack", gap(r), e, r.choice([ACK, RST]), r.choice([0, 1]))
        else:
            s.cmd("adv", r.choice([3000, 70000, 130000]))
            if flights > 1:
                at = [a if a >= flights else 0 for a in at]
    if faults:
        s.cmd("sendfail", 10, 0)
    for n in range(1, flights + 1):
        s.cmd("dg", 100, 50, flight(n))
    s.rx(100, 50, msg(CON, 0, 1, 77, b"ok", path("a")))
    return s.done()


def crowd(r, flights):
    """More endpoints than the server keeps sessions for."""
    s = S(r)
    s.head("records %d" % flights, "res a fix 2 5 aa 1")
    n = r.choice([8, 9, 10, 12])
    order = [r.randrange(n) for _ in range(r.randrange(n, 3 * n))]
    mid = 1
    known = []
    for e in list(range(n)) + order:
        if e not in known or r.random() < 0.2:
            for k in range(1, flights + 1):
                s.cmd("dg", r.choice([10, 1100, 1100, 2100]), e, flight(k))
            known.append(e)
        s.rx(r.choice([10, 1100, 1100, 3000]), e, msg(CON, 0, 1, mid, rand_tok(r), path("a")))
        mid += 1
    return s.done()


def slow(r):
    """A handshake that does not progress."""
    s = S(r)
    s.head("records %d" % r.choice([2, 3]), "res a fix 2 5 aa 1")
    s.cmd("dg", 100, 0, flight(1))
    t = 0
    while t < 130000:
        d = r.choice([500, 2500, 10000, 30000])
        t += d
        s.cmd("dg", d + 10, 0, r.choice(["00", flight(1), flight(3), flight(1), "1701"]))
    s.cmd("dg", 70000, 0, flight(1))
    return s.done()


def sequences(seqs, flights=2):
    out = []
    for q in seqs:
        for opened in (0, 1):
            s = S(None)
            s.head("records %d" % flights, "res a fix 2 5 aa 1")
            mid = [0, 0]
            if opened:
                s.cmd("dg", 100, 0, flight(1))
                s.cmd("dg", 100, 0, flight(2))

            def req(ep):
                s.rx(300, ep, msg(CON, 0, 1, mid[ep], b"t", path("a")))
                mid[ep] += 1
            for x in q:
                if x == 2 or x == 5:
                    req(0 if x == 2 else 1)
                elif x == 9:
                    s.cmd("adv", 70000)
                else:
                    ep, d = {0: (0, flight(1)), 1: (0, flight(2)), 3: (1, flight(1)), 4: (1, flight(2, 5)), 6: (0, "1500"), 7: (0, "0000"),
                             8: (0, "14ff"), 10: (0, flight(2, 12)), 11: (1, "1502")}[x]
                    s.cmd("dg", 300, ep, d)
            req(0)
            req(1)
            out.append(s.done())
    return out


# ---- client
def cli_records(r, base):
    """Make alerts, unreadable records and rubbish part of a client scenario."""
    out = ["records"] + list(base)
    n = sum(1 for l in base if l.startswith(("x ", "bw ")))
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        j = r.randrange(1, max(2, n + 1) if r.random() < 0.7 else n + 6)
        d = r.choice(["1500", "1501", "1502", "14ff", "14", "00", "16010203", "17", "ff17", "4001000061"])
        out.append("raw %d %d %d %s" % (j, r.choice([0, 1, 1, 2]), r.choice([5, 15, 105, 1905, 2505, 9005]), d))
    return out


def setup(r, n):
    """Creating and destroying clients and servers."""
    out = []
    certs = list(range(NCERTS))
    names = ["-", "peer", "peer2", "other", "pee"]
    hs = ["S", "A" * 59 + "S", "A" * 60 + "S", "A" * 61 + "S", "AAAS", "T", "F", "W", "E", "I", "AAT", "AF", "AE", "AI", ""]
    for k in ("client", "server"):
        for c in certs:
            for nm in names if k == "client" else names[:1]:
                out.append(["%s key cert trust crl %s %d S 0 0 0" % (k, nm, c)])
        for h in hs:
            out.append(["%s key cert trust crl peer 0 %s 0 0 0" % (k, h or "A")])
        for f in range(1, 14):
            for z in (0, 1):
                for tr, cr in (("trust", "crl"), ("-", "crl"), ("trust", "-"), ("@", "@")):
                    out.append(["%s key cert %s %s peer 0 S %d %d 0" % (k, tr, cr, f, z)])
        for f in range(1, 12):
            out.append(["%s key cert trust crl peer 0 S 0 0 %d" % (k, f)])
        out.append(["%s key cert - - - 0 S 0 0 0" % k, "%s k2 c2 t2 r2 - 0 S 0 0 0" % k])
        out.append(["%s key cert @ @ - 0 S 0 0 0" % k])
    for _ in range(n):
        out.append(["%s k%d c%d %s %s %s %d %s %d %d %d" % (
            r.choice(["client", "client", "server"]), r.randrange(9), r.randrange(9), r.choice(["-", "@", "t1", "t2"]), r.choice(["-", "@", "r1", "r2"]),
            r.choice(names), r.choice(certs + [0] * 15), r.choice(hs[:5] * 3 + hs) or "A", r.choice([0] * 8 + list(range(1, 12))), r.randrange(2),
            r.choice([0] * 8 + list(range(1, 10)))) for _ in range(r.choice([1, 2, 3]))])
    return out
