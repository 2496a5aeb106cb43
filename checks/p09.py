import json
from filegen import *

def leaf(rng, **k):
    n = dict(n=[97], r=rng.choice([0, 1, 2]), id=[])
    n.update(rtype(rng))
    n.update(k)
    return n

def check(c):
    rng = c.rng
    cases = []
    T = []
    for t in range(8):
        T += [dict(t=t, len=3 if t == 7 else 0, c=[], l=[])]
    for x in ([5, 9, 2], [11], [13], [17], [6]):
        T.append(dict(t=1, len=0, c=x, l=[]))
    for x in ([14], [18], [9], [5, 18, 1]):
        T.append(dict(t=2, len=0, c=x, l=[]))
    for x in (["INTEGER", 32, False], ["INTEGER", 32, True], ["UNKNOWN"], ["DATE"]):
        T.append(dict(t=1, len=0, c=rng.choice([[], [17], [13]]), l=x))
    T += [dict(t=2, len=0, c=[], l=["INTEGER", 64, False]), dict(t=2, len=0, c=[14], l=["INTEGER", 64, True]),
          dict(t=6, len=0, c=[5, 30, 3], l=[]), dict(t=6, len=0, c=[], l=["DECIMAL", 30, 3]), dict(t=6, len=0, c=[0], l=["STRING"]),
          dict(t=7, len=5, c=[5, 11, 3], l=[]), dict(t=7, len=5, c=[], l=["DECIMAL", 11, 3]), dict(t=7, len=12, c=[21], l=[]), dict(t=7, len=16, c=[], l=["UUID"]),
          dict(t=7, len=70, c=[], l=[]), dict(t=7, len=40, c=[5, 90, 3], l=[])]
    for ty in T:
        for _ in range((40 if c.thorough else 8) * (3 if ty["t"] == 6 else 1)):
            lf = dict(n=[97], r=rng.choice([0, 1]), id=[], **ty)
            s = dict(n=[115], f=[lf])
            k = rng.choice([1, 2, 2, 3, 4])
            mode = rng.choice(["full", "part", "part", "miss"])
            pages = []
            late = []    # bounds that differ after a long common part
            if lf["t"] in (6, 7) and rng.random() < .5:
                late = [rng.choice([1, 1, 7, 128, 255])] * (lf["len"] if lf["t"] == 7 else rng.choice([3, 7, 8, 15, 16, 31, 32, 63, 64, 65, 127, 130, 260]))
            for j in range(k):
                n = rng.randint(1, 9)
                st = None if mode == "miss" and rng.random() < .4 else stats(rng, lf, n, full=mode == "full")
                if late and st:
                    for b in ("min", "max"):
                        if st[b]:
                            d = [rng.choice([0, 1, 127, 128, 255]) for _ in range(rng.choice([1, 1, 2]) if lf["t"] == 7 else rng.choice([0, 1, 2]))]
                            st[b] = [late[:len(late) - len(d)] + d if lf["t"] == 7 else late + d]
                pages.append(data_page(rng, lf, n, n, st=st))
            if rng.random() < .3:
                pages.insert(0, dict(p=dict(k=2, n=3, sorted=False, body=[1, 2]), rows=[], us=2, codec=0))
            col = dict(mode="comp", codec=[0], scratch=[], err=[], pages=pages)
            cases.append(dict(schema=s, ver=2, ws=False, by=[], ops=[["write", dict(cols=[col])], ["end", []]], sink=NOSINK,
                              modes=["sync" if rng.random() < .7 else "async"], read=dict(sizes=[], pos=0, order=[], sels=[])))
    for _ in range(400 if c.thorough else 60):
        cases.append(case(rng, stw=False, zero=rng.random() < .3, modes=("sync",), ws=False, read=dict(sizes=[], pos=0, order=[], sels=[])))
    cases += [long_bounds(rng, True), long_bounds(rng, False)]
    c.judge("P09_J", "file", cases)
    dec = []
    for _ in range(1500 if c.thorough else 300):
        lf = leaf(rng)
        st = stats(rng, lf, 9)
        if rng.random() < .3:
            # a bound that is not plain-encoded
            st[rng.choice(["min", "max"])] = [rbytes(rng, rng.choice([0, 1, 2, 3, 5, 7, 9, 13]))]
        for k in ("min", "max"):
            if lf["t"] == 0 and st[k] and len(st[k][0]) == 1:
                st[k][0][0] &= 1
        dec.append(dict(leaf=lf, st=st))
    c.judge("P09_J", "stats", dec)
    pairs = []
    for _ in range(3000 if c.thorough else 400):
        a = rng.choice(dec)
        b = json.loads(json.dumps(a))
        q = rng.random()
        if q < .5:
            o = stats(rng, b["leaf"], 9)
            k = rng.choice(["min", "max", "nc", "dc"])
            b["st"][k] = o[k]
        elif q < .6:
            b["leaf"][rng.choice(["n", "id"])] = [98] if b["leaf"]["id"] != [98] else []
        elif q < .8:
            b = rng.choice(dec)
        pairs.append(dict(a=a, b=b))
    # both zeros, NaNs
    for t, n in ((4, 4), (5, 8)):
        for x in ([0] * n, [0] * (n - 1) + [128], [255] * n):
            for y in ([0] * n, [0] * (n - 1) + [128], [255] * n):
                f = lambda v: dict(leaf=dict(n=[97], r=0, id=[], t=t, len=0, c=[], l=[]), st=dict(min=[v], max=[v], nc=[], dc=[], omin=[], omax=[]))
                pairs.append(dict(a=f(x), b=f(y)))
    c.judge("P09_J", "stateq", pairs)
