"""Scenarios for the registrar (h_reg)."""
from .gen_http import hx

IDS = [b"client1", b"client2", b"c", b"client", b"x" * 31, b"x" * 30, b"Client1", b"id with space", b"\xff", b"client10"]
ADDRS = [b"10.0.0.1", b"255.255.255.255", b"1.2.3.4", b"0.0.0.0"]


def from_history(h):
    cmds = []
    for k, x in enumerate(h):
        cmds.append("add %s %s" % (hx(IDS[abs(x)]), hx(b"10.0.0.%d" % k)) if x > 0 else "del " + hx(IDS[abs(x)]))
        cmds.append("list")
    return cmds + ["find " + hx(i) for i in IDS[:5]]


def random(r):
    cmds = []
    for _ in range(r.randrange(5, 60)):
        k = r.randrange(10)
        i = hx(r.choice(IDS))
        cmds.append("add %s %s" % (i, hx(r.choice(ADDRS))) if k < 5 else "del " + i if k < 8 else "find " + i if k < 9 else "list")
    return cmds + ["list"] + ["find " + hx(i) for i in IDS]
