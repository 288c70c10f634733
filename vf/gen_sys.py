"""Scenarios for the end-to-end harness (h_sys): clients, server and the network between them."""
from . import gen_cli as gc, gen_srv as gs
from .gen_srv import CON, NON, body, hx


def sys_post(lines):
    out = []
    if any(x["k"] == "nocreate" for x in lines):
        return [x for x in lines if x["k"] in ("start", "end", "crash", "fin")]
    for x in lines:
        k, w = x["k"], x.get("w")
        if k == "tx" and w > 0:
            out.append(dict(x, k="sent"))
        elif k in ("wait", "rx", "tx", "idle", "al", "fr", "open", "close") or (k == "ret" and w == 0):
            continue
        else:
            out.append(x)
    return out


def res_post(lines):
    return [x for x in lines if x["k"] in ("start", "end", "crash", "al", "fr", "open", "close", "fault", "idle", "fin", "nocreate")
            or (x["k"] == "ret" and x["w"] == 0)]


def srv_post(lines):
    return gs.post([x for x in lines if (x.get("w", 0) == 0 or x["k"] == "fin") and x["k"] not in ("al", "fr", "open", "close", "fault")])


def cli_post(lines):
    ends = [x for x in lines if x["k"] in ("start", "end", "crash", "fin")]
    out = []
    for w in sorted({x["w"] for x in lines if x.get("w", 0) > 0}):
        out += [x for x in ends if x["k"] == "start"]
        out += gc.post([x for x in lines if x.get("w", 0) == w and x["k"] not in ("al", "fr", "open", "close", "fault", "idle")])
        out += [x for x in ends if x["k"] != "start"]
    return out


RES = ["res a fix 2 5 6161 1", "res s fix 2 5 7373 1", "res n fix 4 4 - 1", "sep /s"]


def resources(r):
    c = list(RES)
    bodies = {}
    for name in ("u", "v"):
        rb = body(r, r.choice([0, 0, 0, 5, 40]))
        c.append("res %s bw %d %d - 1 0 2 4 %s" % (name, r.choice([16, 32, 64]), r.choice([16, 32, 64]), hx(rb)))
        bodies[name] = rb
    for name in ("d", "e"):
        b = body(r, r.choice([1, 15, 16, 17, 32, 40, 64, 100, 200, 250]))
        c.append("res %s bw %d %d %s 0 0 2 4 -" % (name, 16, r.choice([16, 32, 64]), hx(b)))
    return c, bodies


def p(name):
    return "11:" + name.encode().hex()


def op(r, kind, w, pause, rb=b""):
    typ = NON if kind == "non" or (kind in ("up", "down") and r.random() < 0.15) else CON
    if kind in ("con", "sep", "non"):
        name = "s" if kind == "sep" else r.choice(["a", "a", "a", "n", "zzz"])
        return "%d x %d %d 0 %d %s %s" % (w, pause, typ, r.choice([1, 2, 3, 4]), p(name), hx(body(r, r.choice([0, 0, 3, 30]))))
    if kind == "up":
        n = max(r.choice([1, 16, 17, 20, 40, 64, 100, 200]), len(rb))
        return "%d bw %d %d %d %s %d %d %d %s" % (w, pause, typ, r.choice([2, 3]), p(r.choice("uv")), r.choice([16, 32, 64]), r.choice([16, 32]), n,
                                             hx(body(r, n)))
    return "%d bw %d %d 1 %s %d %d 256 -" % (w, pause, typ, p(r.choice("de")), 16, r.choice([16, 32, 64]))


def pauses(r):
    return r.choice([0, 0, 0, 20, 500, 5000, 40000])


def tame(r, nc=1, nops=4, loss=0.15, dup=0.15):
    res, bodies = resources(r)
    c = ["seed %d" % r.randrange(1, 1 << 30), "tame 1"] + res
    d = r.choice([10, 50, 200, 400]) + 4
    fates = []
    for _ in range(400):
        x = r.random()
        fates.append("-" if x < loss else "%d+%d" % (d, d) if x < loss + dup else "%d" % d)
    c.append("net " + " ".join(fates))
    for w in range(1, nc + 1):
        for _ in range(nops):
            c.append(op(r, r.choice(["con", "sep", "non", "up", "down"]), w, pauses(r), max(bodies.values(), key=len)))
    return c


def wild(r, nc=1, nops=4):
    res, bodies = resources(r)
    c = ["seed %d" % r.randrange(1, 1 << 30), "tame 0"] + res
    fates = []
    for _ in range(300):
        x = r.random()
        d = r.choice([10, 50, 400, 2500, 9000, 40000]) + r.randrange(9) * 10 + 4
        e = r.choice([10, 400, 3000, 30000, 100000]) + r.randrange(9) * 10 + 4
        q = r.choice([20, 40, 80])
        fates.append("-" if x < 0.1 else "%d+%d" % (d, e) if x < 0.35 else "%d" % (q if x < 0.8 else d))
    c.append("net " + " ".join(fates))
    for w in range(1, nc + 1):
        for _ in range(nops):
            c.append(op(r, r.choice(["con", "sep", "non", "up", "down"]), w, pauses(r), max(bodies.values(), key=len)))
    return c


def fates(r, seqs):
    """Every combination of fates of the first datagrams of an operation."""
    out = []
    for q in seqs:
        for kind in ("con", "sep", "up", "down"):
            res, bodies = resources(r)
            net = " ".join({0: "34", 1: "-", 2: "34+34"}[x] for x in q)
            c = ["seed %d" % r.randrange(1, 1 << 30), "tame 1"] + res + ["net " + net + " 34" * 200]
            c += [op(r, kind, 1, 0, max(bodies.values(), key=len)), op(r, r.choice(["con", "sep"]), 1, 0)]
            out.append(c)
    return out


def fault_base(r, kinds):
    """Client 1 does what the faults hit; client 2 comes later and must be served."""
    res, bodies = resources(r)
    d = r.choice([10, 200]) + 4
    net = " ".join("-" if r.random() < 0.08 else "%d+%d" % (d, d) if r.random() < 0.1 else "%d" % d for _ in range(100))
    c = ["seed %d" % r.randrange(1, 1 << 30), "tame 2", "ledger"] + res + ["net " + net]
    c += [op(r, k, 1, r.choice([0, 50]), max(bodies.values(), key=len)) for k in kinds]
    c += ["2 x 300000 0 0 1 %s -" % p("a"), "2 x 10 0 0 1 %s -" % p("s")]
    return c
