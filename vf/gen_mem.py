"""Scenarios for the allocator harness (h_mem)."""

def scenario(r, n):
    ps = []
    for _ in range(3):
        ps.append((r.choice([8, 8, 16, 24, 40]), r.choice([1, 2, 3, 7, 8, 16, 33, 64])))
    cmds = []
    if r.random() < 0.3:
        bad = [list(p) for p in ps]
        k = r.randrange(3)
        if r.random() < 0.5:
            bad[k][0] += r.choice([1, 4, 7, -1])
        else:
            bad[k][1] = 0
        cmds.append("create " + " ".join("%d %d" % tuple(p) for p in bad))
        for p in range(3):
            cmds.append("alloc %d 1" % p)
    cmds.append("create " + " ".join("%d %d" % p for p in ps))
    nh = 0
    live = []
    free = [p[0] for p in ps]
    bias = r.choice([0.35, 0.5, 0.65, 0.9])
    for _ in range(n):
        x = r.random()
        if x < bias:
            p = r.randrange(3) if r.random() < 0.7 else 0
            L = ps[p][1]
            k = r.choice([0, 1, L, L, L, L - 1, L + 1, 2 * L, r.randrange(L + 1)])
            cmds.append("alloc %d %d" % (p, max(0, k)))
            if k <= L and free[p] > 0:
                free[p] -= 1
                live.append((nh, p))
                nh += 1
        elif x < 0.90:
            if live:
                i = r.choice([0, len(live) - 1, r.randrange(len(live))])
                h, p = live.pop(i)
                free[p] += 1
                cmds.append("free %d" % h)
        elif x < 0.97:
            cmds.append("bogus %d %d" % (r.randrange(3), r.randrange(7)))
        else:
            cmds.append("check")
    cmds.append("check")
    # drain, then everything must be available again
    r.shuffle(live)
    for h, p in live:
        free[p] += 1
        cmds.append("free %d" % h)
    for p in range(3):
        for _ in range(ps[p][0] + 1):
            cmds.append("alloc %d %d" % (p, ps[p][1]))
    cmds += ["check", "destroy"]
    return cmds

def exhaust(num):
    """Fill each pool completely, free every k-th, refill, in all positions."""
    res = []
    for k in (2, 3, 5, 7, 8, 9):
        cmds = ["create %d 5 8 3 8 9" % num]
        cmds += ["alloc 0 5"] * (num + 2)
        nh = num
        gone = list(range(0, num, k))
        cmds += ["free %d" % i for i in gone]
        cmds += ["check"] + ["alloc 0 4"] * (len(gone) + 1) + ["check", "destroy"]
        res.append(cmds)
    return res
