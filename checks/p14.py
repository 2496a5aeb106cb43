import copy
import filegen
from filegen import *

def leaf_el(rng, n):
    x = rtype(rng)
    if rng.random() < .12:           # annotations that may not fit
        y = rtype(rng)
        x["c"], x["l"] = rng.choice([(y["c"], x["l"]), (x["c"], y["l"]), (y["c"], y["l"])])
    e = dict(n=n, ty=[x["t"]], len=[x["len"]] if x["t"] == 7 else rng.choice([[], [], [0], [4]]), r=[rng.randrange(3)], nc=rng.choice([[], [], [], [0]]),
             c=x["c"][:1], prec=[], scale=[], id=rng.choice([[], [5], [-1]]), l=x["l"])
    if x["c"][:1] == [5]:
        e["prec"], e["scale"] = [x["c"][1]], [x["c"][2]]
    elif rng.random() < .1:
        e["prec"], e["scale"] = [3], [1]
    return e

def elements(rng, depth, root=False):
    k = rng.choice([0, 1, 1, 2, 2, 3, 5]) if root else rng.choice([0, 1, 1, 2, 3])
    g = dict(n=name(rng), ty=[], len=[], r=[] if root and rng.random() < .8 else [rng.randrange(3)], nc=[k], c=[], prec=[], scale=[], id=rng.choice([[], [7]]), l=[])
    if not root or rng.random() < .1:
        g["c"], g["l"] = rng.choice([([], []), ([], []), ([3], ["LIST"]), ([1], ["MAP"]), ([2], [])])
    out = [g]
    for _ in range(k):
        out += elements(rng, depth - 1) if depth > 0 and rng.random() < .4 else [leaf_el(rng, name(rng))]
    return out

def spoil(rng, el):
    """one element changed, dropped, doubled or moved"""
    el = copy.deepcopy(el)
    k = rng.randrange(len(el))
    e = el[k]
    m = rng.randrange(13)
    if m == 0:
        e["nc"] = [rng.choice([0, 1, 2, 3, -1, -2147483648, 2147483647])] if not e["ty"] else rng.choice([[0], [], [-1]])
    elif m == 1:
        del el[k]
    elif m == 2:
        el.insert(k, copy.deepcopy(rng.choice(el)))
    elif m == 3:
        el[k], el[0] = el[0], el[k]
    elif m == 4:
        e["r"] = rng.choice([[], [3], [-1], [1]])
    elif m == 5:
        e["c"] = [rng.choice([-1, 0, 1, 2, 3, 4, 5, 6, 9, 21, 22, 100])]
        if e["c"] == [5] and e["prec"] == []:
            e["prec"], e["scale"] = rng.choice([([], []), ([9], [0]), ([0], [0]), ([-1], [0]), ([3], [-1]), ([3], [4]), ([10], [2])])
    elif m == 6:
        if e["ty"]:
            e["ty"] = rng.choice([[8], [-1], [1], [7]])
            if e["ty"] == [7]:
                e["len"] = rng.choice([[], [-1], [0], [16], [2147483647]])
    elif m == 7:
        e["l"] = rng.choice([["MAP"], ["LIST"], ["STRING"], ["DATE"], ["UUID"], ["DECIMAL", 0, 0], ["DECIMAL", 3, -1], ["DECIMAL", -3, 0], ["INTEGER", 64, True]])
    elif m == 8 and e["ty"]:
        e["ty"], e["nc"] = [], rng.choice([[], [0], [1]])
    elif m == 9 and e["ty"]:
        e["len"] = rng.choice([[], [-1], [12], [16], [3]])
    elif m == 10:
        return []
    elif m == 11:
        return el[:k]
    else:
        el.append(leaf_el(rng, name(rng)))
    return el

def flat(rng):
    el = elements(rng, rng.choice([0, 1, 2, 3]), root=True)
    for _ in range(rng.choice([0, 0, 1, 1, 1, 2])):
        if el:
            el = spoil(rng, el)
    return dict(el=el)

def far(rng, n):
    """a leaf within n groups, some with leaves beside"""
    leaf = lambda i: dict(leaf_el(rng, name(rng, i)), c=[], prec=[], scale=[], l=[])
    f = [leaf(0)]
    for i in range(n):
        k = rng.random() < .15
        g = dict(n=name(rng, i), ty=[], len=[], r=[rng.randrange(3)], nc=[1], c=[], prec=[], scale=[], id=[], l=[])
        f = [g] + f
        if k:
            g["nc"] = [2]
            f.append(leaf(i))
    return dict(el=[dict(n=name(rng), ty=[], len=[], r=[], nc=[1], c=[], prec=[], scale=[], id=[], l=[])] + f, only=1)

def empties(rng, f):
    """groups without fields"""
    for x in f:
        if "f" in x:
            if rng.random() < .15:
                x["f"] = []
            empties(rng, x["f"])

def tree(rng):
    s = schema(rng, maxf=5, depth=rng.choice([0, 1, 2, 3, 4]))
    if rng.random() < .3:
        empties(rng, s["f"])
    if rng.random() < .05:
        s["f"] = []
    if rng.random() < .1:
        l = [x for f in s["f"] for x in leaves(f)]
        if l:
            x = rng.choice(l)
            if "t" in x:
                x.update(rng.choice([dict(c=[0]), dict(c=[6]), dict(c=[5, 4, 5]), dict(l=["UUID"]), dict(l=["STRING"]), dict(c=[21]), dict(l=["DECIMAL", 19, 0])]))
    return dict(schema=s)

def sub(rng, x, top=False):
    """a part of a node, perhaps with a change in a leaf"""
    y = copy.deepcopy(x)
    if "f" in y:
        y["f"] = [sub(rng, f) for f in y["f"] if rng.random() < .7]
        if rng.random() < .2:
            rng.shuffle(y["f"])
        if rng.random() < .05:
            y["f"].append(node(rng, 1, 9))
        if top:
            y["n"] = name(rng)
    elif rng.random() < .05:
        y.update(rng.choice([dict(r=(y["r"] + 1) % 3), dict(id=[99]), dict(c=[], l=[]), dict(t=1, len=0, c=[], l=[]), dict(n=[120])]))
    return y

def contains(rng):
    s = schema(rng, maxf=5, depth=rng.choice([0, 1, 2, 3]))
    a = dict(s, r=1, id=[], c=[], l=[])
    if rng.random() < .1 and len(a["f"]) > 1:
        a["f"][0]["n"] = a["f"][-1]["n"]
    return dict(a=a, b=sub(rng, a, True)) if rng.random() < .9 else dict(a=a, b=rng.choice(a["f"]))

def depths(o):
    if not isinstance(o, dict) or "schema" not in o:
        return [] if isinstance(o, dict) and "err" in o else o
    d = []
    def walk(x, k):
        d.append(k)
        for f in x.get("f", []):
            walk(f, k + 1)
    walk(o["schema"], 0)
    return [d]

def script(g):
    el = []
    for k in g["el"]:
        e = dict(n=[97 + len(el)], ty=[], len=[], r=[0], nc=[], c=[], prec=[], scale=[], id=[], l=[])
        if k in (-1, 10):
            e.update(ty=[1], nc=[] if k == -1 else [0])
        else:
            e.update(nc=[k])
        el.append(e)
    return dict(el=el, expect=g["expect"])

def annotations():
    cs = [[]] + [[k] for k in [0, 4] + list(range(6, 22))] + [[5, p, s] for p in (0, 1, 2, 3, 4, 5, 9, 10, 18, 19, 38, 39) for s in {0, p, p + 1}]
    ls = [["STRING"], ["ENUM"], ["DATE"], ["UNKNOWN"], ["JSON"], ["BSON"], ["UUID"]]
    ls += [[k, u, z] for k in ("TIME", "TIMESTAMP") for u in ("ms", "us", "ns") for z in (True, False)]
    ls += [["INTEGER", w, z] for w in (8, 16, 32, 64) for z in (True, False)]
    ls += [["DECIMAL"] + c[1:] for c in cs if c[:1] == [5]]
    return [(c, []) for c in cs] + [([], l) for l in ls]

def check(c):
    rng = c.rng
    c.replay("flat", [script(g) for g in c.gen("SchemaM", "SchemaM5.cfg" if c.thorough else "SchemaM4.cfg")], project=depths)
    types = [(t, 0) for t in range(7)] + [(7, n) for n in list(range(18)) + [32, 64, 100]]
    prims = [dict(of=[dict(n=[110], r=1, id=[], t=t, len=n, c=cc, l=ll) for cc, ll in annotations()]) for t, n in types]
    big = 4 if c.thorough else 1
    c.judge("P14_J", "prim", prims)
    c.judge("P14_J", "flat", [flat(rng) for _ in range(6000 * big)])
    huge = [dict(schema=f(rng, n)) for f, n in ((wide, 128), (wide, 300), (deep, 90))]
    c.judge("P14_J", "flat", [far(rng, n) for n in (127, 130, 260)])
    c.judge("P14_J", "tree", huge)
    c.judge("P14_J", "tree", [tree(rng) for _ in range(3000 * big)])
    c.judge("P14_J", "contains", [contains(rng) for _ in range(2000 * big)])
