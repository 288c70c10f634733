"""Scenarios for the proxy's listener."""


def one(idx=0, op=0, attr=0, lf=0, nm=(0, 0), stop=5, acc="", new="", thr=""):
    return ["run %d %d %d %d %d %d %d acc=%s new=%s thr=%s" % (idx, op, attr, lf, nm[0], nm[1], stop, acc, new, thr)]


def sequences(seqs):
    out = []
    for q in seqs:
        acc = "".join("OOOTIEHO"[x] for x in q)
        new = "".join("0" if x == 1 else "1" for x in q if x in (0, 1, 2, 7))
        thr = "".join("0" if x == 2 else "1" for x in q if x in (0, 2, 7))
        out.append(one(3, stop=len(q), acc=acc, new=new, thr=thr))
        out.append(one(0, stop=len(q) + 3, acc=acc + "OTO", new=new, thr=thr))
    return out


def random(r, n):
    out = [one(op=-9), one(attr=1), one(lf=1), one(stop=0), one(lf=1, stop=0)]
    for k in range(12):
        out.append(one(nm=(k, k + 1), acc="OOTOO"))
        out.append(one(nm=(k, 99), acc="OEOOO"))
    for _ in range(n):
        m = r.randrange(1, 40)
        k = r.randrange(60)
        out.append(one(r.randrange(5), stop=m, acc="".join(r.choice("OOOOTIEH") for _ in range(m)), new="".join("0" if r.random() < 0.04 else "1" for _ in range(m)),
                       thr="".join("0" if r.random() < 0.04 else "1" for _ in range(m)), nm=(k, k + 1) if r.random() < 0.2 else (0, 0)))
    return out
