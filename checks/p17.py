from filegen import *
import p14
import thrift

UN = dict(STRING=1, MAP=2, LIST=3, ENUM=4, DECIMAL=5, DATE=6, TIME=7, TIMESTAMP=8, INTEGER=10, UNKNOWN=11, JSON=12, BSON=13, UUID=14)
E = ("f", [])
def logical(l):
    if l[0] == "DECIMAL":
        a = ("f", [(1, ("i", l[2])), (2, ("i", l[1]))])
    elif l[0] in ("TIME", "TIMESTAMP"):
        a = ("f", [(1, ("b", l[2])), (2, ("f", [(dict(ms=1, us=2, ns=3)[l[1]], E)]))])
    elif l[0] == "INTEGER":
        a = ("f", [(1, ("y", l[1])), (2, ("b", l[2]))])
    else:
        a = E
    return ("f", [(UN[l[0]], a)])

def o(x, f):
    return f(x[0]) if x else None
I = lambda x: ("i", x)
L = lambda x: ("i64", x)
S = lambda x: ("s", x)

def element(e):
    return ("f", [(1, o(e["ty"], I)), (2, o(e["len"], I)), (3, o(e["r"], I)), (4, S(e["n"])), (5, o(e["nc"], I)), (6, o(e["c"], I)), (7, o(e["scale"], I)),
                  (8, o(e["prec"], I)), (9, o(e["id"], I)), (10, logical(e["l"]) if e["l"] else None)])

def i64(rng, neg=.02):
    if rng.random() < neg:
        return rng.choice([-1, -(1 << 40), -(1 << 63)])
    return rng.choice([0, 1, 4, rng.randrange(1000), rng.randrange(1 << 31), (1 << 31) - 1, 1 << 31, (1 << 31) + 5, 1 << 32, rng.randrange(1 << 59)])

def maybe(rng, p, f):
    return f() if rng.random() < p else None

def string(rng):
    return S(list(rng.choice(["", "a", "part-0.parquet", "é€", "x" * 40]).encode()))

def column(rng, bad):
    b = bad if rng.random() < .3 else 0
    B = lambda: rbytes(rng, rng.choice([0, 1, 8]))
    md = [(1, I(rng.randrange(8))), (2, ("l", "i", [I(rng.choice([0, 3, 8, 99])) for _ in range(rng.choice([0, 1, 2, 16]))])),
          (3, ("l", "s", [string(rng) for _ in range(rng.choice([0, 1, 3]))])), (4, I(rng.randrange(8) if rng.random() >= b else rng.choice([-1, 8, 100]))),
          (5, L(i64(rng))), (6, L(i64(rng))), (7, L(i64(rng, b))),
          (8, maybe(rng, .2, lambda: ("l", "f", [("f", [(1, string(rng)), (2, maybe(rng, .7, lambda: string(rng)))])] * rng.choice([0, 1, 2])))),
          (9, L(i64(rng, b))), (10, maybe(rng, .2, lambda: L(i64(rng)))), (11, maybe(rng, .4, lambda: L(i64(rng, b)))),
          (12, maybe(rng, .4, lambda: ("f", [(1, maybe(rng, .5, lambda: S(B()))), (2, maybe(rng, .5, lambda: S(B()))), (3, maybe(rng, .5, lambda: L(i64(rng)))),
                                            (4, maybe(rng, .5, lambda: L(i64(rng)))), (5, maybe(rng, .5, lambda: S(B()))), (6, maybe(rng, .5, lambda: S(B())))]))),
          (13, maybe(rng, .3, lambda: ("l", "f", [("f", [(1, I(0)), (2, I(8)), (3, I(rng.randrange(99)))])] * rng.choice([0, 1, 2])))),
          (14, maybe(rng, .3, lambda: L(i64(rng))))]
    return ("f", [(1, maybe(rng, .3, lambda: string(rng))), (2, L(i64(rng))), (3, ("f", md) if rng.random() >= b / 3 else None),
                  (4, maybe(rng, .4, lambda: L(i64(rng)))), (5, maybe(rng, .4, lambda: I(rng.randrange(1 << 20)))),
                  (6, maybe(rng, .4, lambda: L(i64(rng)))), (7, maybe(rng, .4, lambda: I(rng.randrange(1 << 20))))])

def group(rng, ncols, bad):
    b = bad if rng.random() < .3 else 0
    n = ncols if rng.random() >= b else max(0, ncols + rng.choice([-1, 1]))
    return ("f", [(1, ("l", "f", [column(rng, bad) for _ in range(n)])), (2, L(i64(rng, b))), (3, L(i64(rng, b))),
                  (4, maybe(rng, .1, lambda: ("l", "f", [("f", [(1, I(0)), (2, ("b", True)), (3, ("b", False))])]))),
                  (5, maybe(rng, .3, lambda: L(i64(rng)))), (6, maybe(rng, .3, lambda: L(i64(rng)))), (7, maybe(rng, .3, lambda: ("i16", rng.randrange(100))))])

def count(el):
    """number of leaves"""
    return sum(1 for e in el if e["ty"])

def meta(rng, ngroups=None, bad=.06, el=None):
    if el is None:
        el = p14.elements(rng, rng.choice([0, 1, 2]), root=True)
    nc = count(el)
    return thrift.struct([(1, I(rng.choice([1, 2, 0, -1]))), (2, ("l", "f", [element(e) for e in el])), (3, L(i64(rng, bad))),
                          (4, ("l", "f", [group(rng, nc, bad) for _ in range(rng.choice([0, 1, 2, 3]) if ngroups is None else ngroups)])),
                          (5, maybe(rng, .5, lambda: ("l", "f", [("f", [(1, string(rng)), (2, maybe(rng, .7, lambda: string(rng)))]) for _ in range(rng.choice([0, 1, 2, 15]))]))),
                          (6, maybe(rng, .5, lambda: string(rng))),
                          (7, maybe(rng, .5, lambda: ("l", "f", [("f", [(1, E)])] * rng.choice([nc, nc, nc, max(0, nc - 1), nc + 1, 0]))))])

def op(rng):
    return rng.choice([["thrift"], ["sidecar"], ["json"], ["filter", [rng.random() < .6 for _ in range(rng.randint(1, 4))]]])

def plain(rng, k):
    """a valid schema of k leaves"""
    leaf = lambda i: dict(n=[97 + i], ty=[1], len=[], r=[0], nc=[], c=[], prec=[], scale=[], id=[], l=[])
    return [dict(leaf(0), ty=[], r=[], nc=[k])] + [leaf(i) for i in range(k)]

def rows(s):
    return [x["rows"].get("i") for x in s["view"]["rgs"]]

def check(c):
    rng = c.rng
    c.judge("P17_J", "codes", [dict(code=k) for k in list(range(-3, 40)) + [127, 128, 255, 256, 2147483647, -2147483648]])
    types = [(t, 0) for t in range(7)] + [(7, n) for n in (1, 12, 16)]
    c.judge("P17_J", "sort", [dict(of=[dict(n=[110], r=1, id=[], t=t, len=n, c=cc, l=ll) for cc, ll in p14.annotations()]) for t, n in types])
    gen = []
    for g in c.gen("MetaM", "MetaM3.cfg" if c.thorough else "MetaM2.cfg"):
        el = plain(rng, rng.choice([0, 1, 2]))
        nc = len(el) - 1
        gs = [("f", [(1, ("l", "f", [column(rng, 0) for _ in range(nc)])), (2, L(7)), (3, L(k + 1))]) for k in range(g["n"])]
        b = thrift.struct([(1, I(1)), (2, ("l", "f", [element(e) for e in el])), (3, L(6)), (4, ("l", "f", gs))])
        gen.append(dict(meta=b, ops=g["ops"], expect=g["expect"]))
    # compared op by op: row groups are numbered by their rows
    c.replay("remeta", gen, project=lambda x: [rows(s) for s in x["states"][1:]] if isinstance(x, dict) and "states" in x else x)
    c.judge("P17_J", "remeta", [dict(meta=meta(rng, bad=rng.choice([0, 0, 0, .2])), ops=[op(rng) for _ in range(rng.choice([0, 1, 2, 3]))])
                                for _ in range(6000 if c.thorough else 1200)])
