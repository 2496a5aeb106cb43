from chunks import *

def ivs(rng, n, m=None):
    """sorted disjoint intervals of n rows, touching and empty ones included"""
    m = rng.choice([0, 1, 1, 2, 3, 6]) if m is None else m
    b = sorted(rng.randint(0, n) for _ in range(2 * m))
    if rng.random() < .3:   # touching
        b = [x for i in range(0, len(b), 2) for x in ((b[i - 1] if i and rng.random() < .5 else b[i]), b[i + 1])]
    return [[b[i], b[i + 1] - b[i]] for i in range(0, len(b), 2)]

def rand_select(rng):
    k = rng.choice([0, 1, 1, 2, 3, 5, 8])
    n = rng.choice([0, 1, 5, 30, 30])
    f = sorted([rng.randint(0, n) for _ in range(k)])
    if f and rng.random() < .8:
        f[0] = 0
    at, locs = rng.choice([0, 4, 1000]), []
    for x in f:
        s = rng.choice([0, 1, 20, 70])
        locs.append([num(at), s, num(x)])
        at += s
    r = rng.random()
    if locs and r < .3:
        l = locs[rng.randrange(k)]
        h = rng.randrange(4)
        if h == 0:
            l[0] = num(rng.choice([-1, -100, -(1 << 31)]))
        elif h == 1:
            l[1] = rng.choice([-1, -(1 << 31)])
        elif h == 2:
            l[2] = num(rng.choice([-1, -5, n + 1, n + 7, -(1 << 31), -(1 << 63), (1 << 63) - 1, 1 << 40]))
        else:
            l[2] = num(rng.randint(0, n))
    return dict(locs=locs, rows=n, ivs=ivs(rng, n), pages=[rng.random() < .5 for _ in f])

def wide_select(rng):
    """many pages and many intervals of many rows, numbered from afar or not"""
    k = rng.choice([3, 15, 16, 40, 130, 260])
    n = rng.choice([300, 70000, 40000000, (1 << 31) - 2])
    f = sorted(rng.randint(0, n) for _ in range(k))
    if rng.random() < .6:
        f[0] = 0
    up = rng.choice([0, 0, 1, 2, 3, 1 << 20, (1 << 32) - 2])
    if rng.random() < .05:
        f[rng.randrange(k)] = n + rng.choice([1, 0, 0]) * (n < 1 << 30)
    at, locs = rng.choice([4, 1000]), []
    for x in f:
        s = rng.choice([0, 1, 20, 70, 7000000])
        locs.append([num(at), s, num(x)])
        at += s
    m = rng.choice([0, 1, 5, 20, 90])
    return dict(locs=locs, rows=n, ivs=ivs(rng, n, m), pages=[rng.random() < .5 for _ in f], up=up)

def rand_indexed(rng):
    pages = ([("dict", 0)] if rng.random() < .5 else []) + [(rng.choice(["v1", "v2"]), rng.choice([0, 1, 2, 9])) for _ in range(rng.choice([0, 1, 2, 3, 5]))]
    start = rng.choice([0, 0, 4, 9])
    fault = rng.choice(["none"] * 12 + ["cutbody", "cuthead", "type", "nohead", "negsize", "negus", "negn", "enc", "noreq"])
    at = rng.randint(1, len(pages)) if pages and fault != "none" else 0
    data, _, ends = concrete(rng, pages, at, fault if at else "none")
    begin = [0] + ends
    fp = []
    for j, (k, n) in enumerate(pages):
        if k == "dict" or j >= len(begin):
            continue
        e = begin[j + 1] if j + 1 < len(begin) else len(data)
        x = dict(start=start + begin[j], len=e - begin[j], sel=[[0, 1]] * (rng.random() < .6) + [[2, rng.randint(1, 4)]] * (rng.random() < .4), n=rng.randint(0, 9))
        r = rng.random()
        if r < .05:
            x["len"] = max(0, x["len"] + rng.choice([-1, -2, 1, 5]))
        fp.append(x)
    s = start
    if rng.random() < .05:
        s += rng.choice([-1, 1, 2, 50]) if start else 3
    if rng.random() < .1 and fp:
        fp = fp[1:]
    tail = rbytes(rng, rng.choice([0, 0, 7]))
    return far(rng, bytes=rbytes(rng, start) + data + tail, sizes=rng.choice([[], [1], [2, 1, 7], [5, 0]]), codec=rng.choice([0, 1, 2, 6]), total=num(100), start=s,
                scratch=rbytes(rng, rng.choice([0, 3, 50])), pages=fp)

def rows_of(o):
    """selected rows page by page: how rows are grouped into intervals is not part of the prediction"""
    if not isinstance(o, dict) or "ok" not in o.get("select", {}):
        return o
    return [[r for s, l in p["sel"] for r in range(s, s + l)] for p in o["select"]["ok"]]

def check(c):
    rng = c.rng
    gen = c.gen("SelectM", "SelectM3.cfg" if c.thorough else "SelectM2.cfg")
    cases = []
    for g in gen:
        cases.append(dict(locs=[[num(4 + 10 * i), 10, num(f)] for i, f in enumerate(g["first"])], rows=g["rows"], ivs=g["ivs"],
                          pages=[rng.random() < .5 for _ in g["first"]], expect=[[r for s, l in p for r in range(s, s + l)] for p in g["expect"]]))
    c.replay("select", cases, project=rows_of)
    c.judge("P08_J", "select", [rand_select(rng) for _ in range(20000 if c.thorough else 3000)])
    c.judge("P08_J", "select", [wide_select(rng) for _ in range(400 if c.thorough else 80)])
    c.judge("P08_J", "indexed", [rand_indexed(rng) for _ in range(20000 if c.thorough else 3000)])
    # no number of skipped pages may exhaust the stack
    k = dict(rand_indexed(rng), bytes=[], pages=[dict(start=0, len=5, sel=[], n=1)] * 100000, start=0)
    c.judge("P08_J", "indexed", [k])
    files = []
    for _ in range(1500 if c.thorough else 250):
        ro = read_opts(rng)
        ro["ivs"] = ivs(rng, rng.choice([2, 5, 9, 20, 200]))
        files.append(case(rng, ngroups=rng.choice([1, 1, 2]), read=ro, zero=rng.random() < .3))
    c.judge("P08_J", "file", files)
