"""Random cases for the file-level checks: schemas, row groups, pages, statistics, histories of writer calls."""
from common import *

def num(x):
    return {"i": x} if -(1 << 31) <= x < (1 << 31) else {"big": le(x % (1 << 64), 8)}

# ------------------------------------------------------------------ schemas
NAMES = ["a", "b", "c", "col_1", "x.y", "list", "element", "é€", "A", "a b", "key_value"]

def name(rng, i=None, dup=False):
    n = rng.choice(NAMES)
    if rng.random() < .01:
        n *= rng.choice([16, 128, 130, 300])
    if i is not None and not dup:
        n += str(i)
    return list(n.encode())

def rtype(rng, plain=False):
    """physical type, length, converted and logical type compatible with each other (LogicalTypes.md)"""
    t = rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 6, 6, 7, 7])
    ln = 0
    c, l = [], []
    if t == 7:
        ln = rng.choice([1, 2, 4, 8, 12, 16, 16, 5])
    if not plain and rng.random() < 0.6:
        if t == 1:
            c = rng.choice([[], [6], [7], [11], [12], [13], [15], [16], [17], [5, 9, 0], [5, 5, 5], [5, 1, 0]])
            l = rng.choice([[], ["DATE"], ["TIME", "ms", rng.random() < .5], ["INTEGER", rng.choice([8, 16, 32]), rng.random() < .5],
                            ["UNKNOWN"], ["DECIMAL", 9, rng.choice([0, 4, 9])]])
        elif t == 2:
            c = rng.choice([[], [8], [9], [10], [14], [18], [5, 18, 2]])
            l = rng.choice([[], ["TIME", rng.choice(["us", "ns"]), rng.random() < .5], ["TIMESTAMP", rng.choice(["ms", "us", "ns"]), rng.random() < .5],
                            ["INTEGER", 64, rng.random() < .5], ["DECIMAL", 18, 3]])
        elif t == 6:
            c = rng.choice([[], [0], [4], [19], [20], [5, 30, 7]])
            l = rng.choice([[], ["STRING"], ["ENUM"], ["JSON"], ["BSON"], ["DECIMAL", 40, 2]])
        elif t == 7:
            if ln == 12:
                c = rng.choice([[], [21]])
            if ln == 16:
                l = rng.choice([[], ["UUID"], ["DECIMAL", 38, 1]])
            if ln == 5:
                c = rng.choice([[], [5, 11, 3]])
    return dict(t=t, len=ln, c=c, l=l)

def node(rng, depth, i, plain=False, dup=False):
    n = dict(n=name(rng, i, dup), r=rng.choice([0, 1, 2]), id=[] if rng.random() < .6 else [rng.choice([0, 1, 7, -5, 2147483647])])
    if depth > 0 and rng.random() < 0.4:
        n["c"], n["l"] = [], []
        if rng.random() < .4:
            n["c"], n["l"] = rng.choice([([3], ["LIST"]), ([1], ["MAP"]), ([3], []), ([], ["LIST"]), ([2], []), ([], ["MAP"])])
        n["f"] = [node(rng, depth - 1, j, plain) for j in range(rng.randint(1, 3))]
    else:
        n.update(rtype(rng, plain))
    return n

def is_group(n):
    return "f" in n

def leaves(n):
    if "f" in n:
        return [x for f in n["f"] for x in leaves(f)]
    return [n]

def wide(rng, n, plain=False):
    return dict(n=name(rng), f=[node(rng, 0, i, plain) for i in range(n)])

def deep(rng, n, plain=False):
    """groups within groups, some with leaves beside"""
    f = [node(rng, 0, i, plain) for i in range(rng.randint(1, 2))]
    for i in range(n):
        g = dict(n=name(rng, i), r=rng.choice([0, 1, 2]), id=[], c=[], l=[], f=f)
        f = [g] + [node(rng, 0, 77, plain)] * (rng.random() < .15)
        rng.shuffle(f)
    return dict(n=name(rng), f=f)

def schema(rng, maxf=3, depth=2, plain=False):
    r = rng.random()
    if r < .015 and maxf > 1:
        return wide(rng, rng.choice([15, 16, 17, 40]), plain)
    if r < .03 and depth > 1:
        return deep(rng, rng.choice([7, 14, 15, 16, 20]), plain)
    return dict(n=name(rng), f=[node(rng, depth, i, plain) for i in range(rng.randint(1, maxf))])

# ------------------------------------------------------------------ statistics
WIDTH = {0: 1, 1: 4, 2: 8, 3: 12, 4: 4, 5: 8}

def value(rng, leaf, special=True):
    """a plain-encoded value of the leaf's type: extreme and close values are likely"""
    t = leaf["t"]
    import struct
    if t == 0:
        return [rng.randint(0, 1)]
    if t in (1, 2):
        w = WIDTH[t]
        v = rng.choice([0, 1, -1, 2, -2, 127, 128, 255, 256, -128, -129, (1 << (8 * w - 1)) - 1, -(1 << (8 * w - 1)), rng.getrandbits(8 * w)])
        return le(v % (1 << (8 * w)), w)
    if t == 3:
        return rbytes(rng, 12)
    if t in (4, 5):
        v = rng.choice([0.0, -0.0, 1.0, -1.0, 1.5, -2.25, 1e30, -1e30, float("inf"), float("-inf"), 1e-40, -1e-40, rng.uniform(-10, 10)])
        if special and rng.random() < .05:
            v = float("nan")
        return list(struct.pack("<f" if t == 4 else "<d", v))
    n = leaf["len"] if t == 7 else rng.choice([0, 1, 1, 2, 2, 3, 5]) if rng.random() < .97 else rng.choice([127, 128, 200, 300])
    v = [rng.choice([0, 1, 2, 127, 128, 255, rng.randrange(256)]) for _ in range(n)]
    if rng.random() < (.3 if t == 7 else .12):     # values that differ late
        m = n if t == 7 else rng.choice([7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 130, 256])
        k = rng.randint(0, 2)
        x = [rng.choice([1, 1, 1, 255, 128])] * m
        v = x[:max(0, m - k)] + [rng.choice([0, 1, 2, 127, 128, 255]) for _ in range(min(m, k) if t == 7 else k)]
    return v

def stats(rng, leaf, n, full=False):
    """statistics of a page of n values; full: with everything a column index needs"""
    a, b = value(rng, leaf), value(rng, leaf)
    allnull = rng.random() < .15
    s = dict(omax=[], omin=[], max=[b], min=[a], nc=[num(rng.randint(0, n))], dc=[])
    if allnull:
        s.update(max=[], min=[], nc=[num(n)])
    elif not full:
        if rng.random() < .25:
            s["max"] = []
        if rng.random() < .25:
            s["min"] = []
        if rng.random() < .3:
            s["nc"] = []
    if not full and rng.random() < .3:
        s["dc"] = [num(rng.choice([0, 3, n, 1 << 40]))]
    if rng.random() < .2:
        s["omax"], s["omin"] = [value(rng, leaf)], [value(rng, leaf)]
    return s

# ------------------------------------------------------------------ pages
ENCS = [0, 3, 5, 6, 7, 8, 9, 4, 2]

def body(rng, big=False):
    m = rng.random()
    if m < .15:
        return []
    if m < .3:
        return [rng.randrange(256)] * rng.randint(1, 120)
    if big and m < .5:
        return rbytes(rng, 3) * rng.randint(50, 300)
    return rbytes(rng, rng.randint(1, 40))

def data_page(rng, leaf, n, rows, v2=None, st=None, us=None):
    b = body(rng)
    if v2 is None:
        v2 = rng.random() < .5
    if v2:
        rl = rng.randint(0, min(len(b), 9))
        dl = rng.randint(0, min(len(b) - rl, 9))
        if rng.random() < .2:
            dl = len(b) - rl
        p = dict(k=3, n=n, nulls=rng.randint(0, n), nrows=rows, enc=rng.choice(ENCS), dl=dl, rl=rl, ic=rng.choice([[], [True], [True], [False]]))
    else:
        p = dict(k=0, n=n, enc=rng.choice(ENCS), de=rng.choice([3, 4]), re=rng.choice([3, 4]))
    p["st"] = [] if st is None else [st]
    p["body"] = b
    return dict(p=p, rows=[rows], us=len(b), codec=0)

def split(rng, total, k):
    """total as k addends, zeros allowed but likely positive"""
    cuts = sorted(rng.randint(0, total) for _ in range(k - 1))
    xs = [b - a for a, b in zip([0] + cuts, cuts + [total])]
    return xs

def column(rng, leaf, rows, ws, raw=None, zero=False, codec=None):
    """ws: True: statistics for a column index; False: arbitrary; None: absent"""
    raw = rng.random() < .25 if raw is None else raw
    k = rng.choice([1, 1, 2, 3, 5])
    pages = []
    parts = [x for x in split(rng, rows, k) if x > 0 or zero]
    for r in parts:
        n = r if leaf["r"] != 2 or r == 0 else r + rng.randint(0, 3)
        if ws is None or (ws is False and rng.random() < .15):
            st = None
        else:
            st = stats(rng, leaf, n, full=ws)
        pages.append(data_page(rng, leaf, n, r, st=st))
    if rng.random() < .4 and pages:
        b = body(rng)
        pages.insert(0, dict(p=dict(k=2, n=rng.randint(0, 50), sorted=rng.random() < .4, body=b), rows=[], us=len(b), codec=0))
    codec = codec or rng.choice([[0], [1], [2], [2, rng.randint(1, 9)], [4], [4, rng.randint(0, 11)], [6], [6, rng.randint(1, 19)], [7]])
    if raw:
        codec = [0]
    return dict(mode="raw" if raw else "comp", codec=codec, scratch=rbytes(rng, rng.choice([0, 0, 7, 60])), err=[], pages=pages)

def group(rng, s, ws, rows=None, **kw):
    rows = rng.choice([0, 1, 2, 5, 9, 20, 1000]) if rows is None else rows
    return dict(cols=[column(rng, l, rows, ws, **kw) for x in s["f"] for l in leaves(x)])

def kvs(rng):
    if rng.random() < .4:
        return []
    return [[[name(rng), rng.choice([[], [name(rng)], [list(b"v" * rng.choice([0, 1, 127, 128, 300]))]])] for _ in range(rng.choice([0, 1, 2, 3, 14, 15, 16, 16] if rng.random() < .97 else [127, 128, 140]))]]

NOSINK = dict(fail=[], transient=False, flush=False, sizes=[])

def case(rng, ngroups=None, ws=None, modes=("sync",), read=False, smax=3, depth=2, stw="auto", plain=False, **kw):
    s = schema(rng, smax, depth, plain)
    ws = rng.random() < .5 if ws is None else ws
    n = rng.choice([0, 1, 1, 2, 3]) if ngroups is None else ngroups
    st = (True if ws else rng.choice([None, False, True])) if stw == "auto" else stw
    ops = [["write", group(rng, s, st, **kw)] for _ in range(n)] + [["end", kvs(rng)]]
    sizes = rng.choice([[], [], [1], [3, 1, 50], [7]])
    if rng.random() < .04:   # a page larger than the usual buffers
        ps = [(c, p) for o in ops if o[0] == "write" for c in o[1]["cols"] for p in c["pages"]]
        if ps:
            c, p = rng.choice(ps)
            b = rbytes(rng, 50) * (rng.choice([4096, 5000, 8192, 20000]) // 50 + 1)
            p["p"]["body"] = p["p"]["body"] + b
            p["us"] += len(b)
            sizes = []
            if rng.random() < .7:
                c["codec"] = [0]
    return dict(schema=s, ver=rng.choice([1, 2]), ws=ws, by=rng.choice([[], [list(b"me")], [[]]]), ops=ops,
                sink=dict(NOSINK, sizes=sizes), modes=list(modes), read=read)

def read_opts(rng, ncols=6):
    r = far(rng, sizes=rng.choice([[], [1], [2, 1, 5], [64]]), pos=rng.choice([0, 0, 3, 1000]),
                order=[rng.randrange(50) for _ in range(rng.choice([0, 3, 8]))],
                sels=[])
    if "far" in r and r["sizes"]:      # the end of the file is read as a whole
        r["sizes"] = rng.choice([[5000, 1, 700], [64]])
    return r

def le8(n):
    return list(int(n).to_bytes(8, "little"))

def many_pages(rng, n, ws):
    """a chunk of n pages: its indexes are long"""
    c = case(rng, ngroups=1, ws=ws, stw=True if ws else None, smax=1, depth=0, modes=["sync" if rng.random() < .5 else "async"], read=read_opts(rng))
    g = c["ops"][0][1]
    leaf = [l for x in c["schema"]["f"] for l in leaves(x)][0]
    g["cols"] = [dict(mode="raw", codec=[0], scratch=[], err=[], pages=[data_page(rng, leaf, k, k, st=stats(rng, leaf, k, full=True) if ws else None) for k in (rng.choice([1, 1, 2, 300]) for _ in range(n))])]
    c["read"]["sels"] = []
    return c

def long_bounds(rng, ws, n=3):
    """pages whose statistics are longer than their values: long headers and long indexes"""
    c = many_pages(rng, n, ws)
    g = c["ops"][0][1]
    leaf = [l for x in c["schema"]["f"] for l in leaves(x)][0]
    leaf.update(t=6, len=0, c=[], l=[])
    g["cols"] = [dict(mode="raw", codec=[0], scratch=[], err=[], pages=[])]
    for k in [rng.choice([1, 2, 300]) for _ in range(n)]:
        st = stats(rng, leaf, k, full=True)
        if rng.random() < .8:
            st.update(min=[rbytes(rng, rng.choice([0, 1000, 2100]))], max=[rbytes(rng, rng.choice([1, 1100, 5000]))], nc=[num(0)])
        g["cols"][0]["pages"].append(data_page(rng, leaf, k, k, st=st))
    return c

def large_page(rng, c, dic=False):
    """c: body, us, rows, nulls"""
    n = c["n"]
    st = [] if c.get("nulls") is None else [dict(min=[[0, 0, 0, 0]], max=[[1, 0, 0, 0]], omin=[], omax=[], nc=[num(c["nulls"])], dc=[])]
    k = 2 if dic else rng.choice([0, 3])
    return dict(k=k, n=le8(n), rows=le8(c["rows"]), us=le8(c["us"]), body=le8(c["body"]), nulls=[le8(c["nulls"])] if c.get("nulls") is not None else [],
                h=dict(k=k, n=min(n, (1 << 31) - 1), enc=0, de=3, re=3, st=st, nulls=0, nrows=min(n, (1 << 31) - 1), dl=0, rl=0, ic=[]))

def large(rng, far_body=None):
    """files of pages of gigabytes, rows and values of billions"""
    M, G = 1 << 20, 1 << 30
    ws = rng.random() < .6
    groups = []
    total = 0
    for _ in range(rng.choice([1, 1, 2, 3])):
        cols = []
        for _ in range(2):
            pages = []
            if rng.random() < .3:
                pages.append(large_page(rng, dict(n=rng.choice([0, 5, (1 << 31) - 1]), rows=0, us=rng.choice([9, G, 2 * G - 1]), body=rng.choice([M, G])), dic=True))
            for _ in range(rng.choice([0, 1, 2, 3, 4])):
                body = rng.choice([M, M + 1, M + rng.randrange(M), G, 2 * G - 5000, 2 * G - rng.randint(4097, 99999)])
                if rng.random() < .03:
                    body = 2 * G + rng.choice([-1, -2, -20, -100, 0, 1, 7, G])
                us = rng.choice([body, body, 5, G, 2 * G - 1, 2 * G - 200])
                if rng.random() < .03:
                    us = 2 * G + rng.choice([0, 1, 2 * G, 2 * G + 5])
                rows = rng.choice([0, 1, 1000, G, 2 * G - 1, 4 * G - 1, 4 * G, 1 << 40])
                pages.append(large_page(rng, dict(n=rng.choice([0, 1, G, 2 * G - 1]), rows=rows, us=us, body=body,
                                                  nulls=rng.choice([0, 1, 2 * G - 1, 4 * G + 3, 1 << 45]) if ws else None)))
            cols.append(pages)
        groups.append(cols)
    leaf = lambda n: dict(n=list(n), r=0, id=[], c=[], l=[], t=1, len=0)
    return {"schema": dict(n=[115], f=[leaf(b"a"), leaf(b"b")]), "ws": ws, "async": rng.random() < .4, "groups": groups}

def many_columns(rng, n, ws, ngroups=1):
    """groups of n columns each"""
    c = case(rng, ngroups=0, ws=ws, modes=["sync" if rng.random() < .5 else "async"], read=read_opts(rng))
    s = c["schema"] = wide(rng, n)
    c["ops"] = [["write", group(rng, s, True if ws else None, rows=rng.choice([1, 3]))] for _ in range(ngroups)] + c["ops"][-1:]
    c["read"]["sels"] = []
    c["read"]["order"] = [rng.randrange(n) for _ in range(5)]
    return c
