"""Cases of reading one chunk's bytes."""
from filegen import *
import thrift

LEAF = dict(t=1, len=0, c=[], l=[], r=0)

def mk(rng, k, n, may=True):
    if k == "dict":
        b = body(rng)
        return dict(k=2, n=rng.randint(0, 9), sorted=rng.random() < .4, body=b)
    long = may and rng.random() < .01      # a header longer than its page
    x = data_page(rng, LEAF, n, rng.randint(0, 5), v2=(k == "v2"), st=stats(rng, LEAF, max(n, 0)) if long or rng.random() < .4 else None)["p"]
    if long:
        x["st"][0][rng.choice(["min", "max"])] = [rbytes(rng, rng.choice([1000, 1100, 2100, 5000]))]
    return x

def concrete(rng, pages, at, fault, junk=True):
    """bytes of the pages; returns (bytes, max size forced by the fault, end of each page)"""
    out, mx, ends = [], None, []
    for j, (k, n) in enumerate(pages):
        p = mk(rng, k, n, fault not in ("big", "fits"))
        b = p["body"]
        us, cs = len(b) + rng.choice([0, 0, 3]), len(b)
        kw = {}
        if j + 1 == at:
            if fault == "type":
                kw["type_"] = rng.choice([1, 4, -1, 99])
            elif fault == "nohead":
                kw["drop"] = {0: 5, 2: 7, 3: 8}[p["k"]]
            elif fault == "negsize":
                cs = rng.choice([-1, -len(b) - 1, -(1 << 31)])
            elif fault == "negus":
                us = rng.choice([-1, -(1 << 31)])
            elif fault == "negn":
                p["n"] = rng.choice([-1, -7, -(1 << 31)])
            elif fault == "enc" and p["k"] != 2:
                p[rng.choice(["enc", "de", "re"] if p["k"] == 0 else ["enc"])] = rng.choice([1, 10, -1, 1000])
            elif fault == "enc":
                kw["drop"] = 7
            elif fault == "noreq":
                kw["drop"] = rng.choice([1, 2, 3, -1, -2])
            elif fault == "big":
                b = rbytes(rng, 2000)
                p["body"], cs, us = b, 2000, 2000
                mx = rng.choice([1999, 1999, 1600])
                if rng.random() < .3:
                    cs = rng.choice([1 << 25, 1 << 30, (1 << 31) - 1])
            elif fault == "fits":
                b = rbytes(rng, 2000)
                p["body"], cs, us = b, 2000, 2000
                mx = 2000
        h = thrift.page_header(p, us, cs, crc=rng.choice([None, None, 7]), **kw)
        if j + 1 == at and fault == "cuthead":
            return out + h[:rng.randint(0, len(h) - 1)], mx, ends
        if j + 1 == at and fault == "cutbody":
            if not b:
                b = [1, 2]
                h = thrift.page_header(p, 2, 2)
            return out + h + b[:rng.randint(0, len(b) - 1)], mx, ends
        out += h + b
        ends.append(len(out))
    return out, mx, ends

def wrap(rng, data, total, filt, mx, codec=None):
    pos = rng.choice([0, 0, 4, 9])
    return far(rng, bytes=rbytes(rng, pos) + data, pos=pos, total=num(total), filter=filt,
                max=num(mx if mx is not None else rng.choice([1 << 20, 1 << 20, (1 << 62), 2000])), codec=rng.choice([0, 1, 2, 4, 6, 7, 5]) if codec is None else codec,
                scratch=rbytes(rng, rng.choice([0, 3, 50])), sizes=rng.choice([[], [], [1], [2, 1, 7], [30]]), swap=rng.randint(0, 1))

def scripted(rng, x):
    c = x["chunk"]
    data, mx, ends = concrete(rng, [(p["k"], p["n"]) for p in c["pages"]], c["at"], c["f"])
    if mx is None and len(data) > 900:
        mx = rng.choice([1 << 20, 1 << 62])
    return wrap(rng, data, x["total"], x["filter"], mx), ends

def rand_chunk(rng):
    n = rng.choice([0, 1, 2, 3, 5, 8])
    pages = [(rng.choice(["dict", "v1", "v1", "v2", "v2"]), rng.choice([0, 1, 1, 2, 9, 100, 1 << 27])) for _ in range(n)]
    s = sum(v for k, v in pages if k != "dict")
    data, mx, ends = concrete(rng, pages, 0, "none")
    total = rng.choice([s, s, s, s, max(0, s - 1), s + 1, rng.randint(0, s + 2), -1, (1 << 40), -(1 << 40)])
    filt = [rng.random() < .6 for _ in range(rng.choice([0, 0, 1, 2, 5]))]
    r = rng.random()
    if r < .25 and data:
        data = data[:rng.randint(0, len(data))]
    elif r < .5:
        data += rbytes(rng, rng.randint(0, 40))
    if rng.random() < .15:
        mx = rng.choice([0, 1, 10, 40, 100, 200])
    elif pages and rng.random() < .2:   # around the size of one page
        data, mx, ends = concrete(rng, pages, rng.randint(1, n), "fits")
        mx += rng.choice([-1, 0, 0, 1])
    return wrap(rng, data, total, filt, mx)

def many_filtered(rng, n):
    """a long run of pages the filter rejects"""
    p = thrift.page_header(dict(k=0, n=1, enc=0, de=3, re=3, st=[]), 0, 0)
    return dict(wrap(rng, p * n, n, [True] + [False] * (n - 2) + [True], None), sizes=[])
