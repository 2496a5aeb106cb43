"""Files built without the writer: columns of pages whose bodies are real encodings, with statistics, indexes and bloom filters."""
from common import *
import thrift as th
import p19

PHYS = dict(bool=0, i32=1, i64=2, i96=3, f32=4, f64=5, binary=6, fixed=7)
ENC = dict(plain=0, dict=2, rle_dict=8, rle=3, delta=5, bss=9)
F = lambda *f: ("f", list(f))

def snappy(b):
    """a block of literals"""
    out = th.uleb(len(b))
    for i in range(0, len(b), 60):
        out += [(len(b[i:i + 60]) - 1) << 2] + b[i:i + 60]
    return out

def column(rng, npages=None):
    """cases of p19 that may be pages of one column"""
    while True:
        a = p19.case(rng)
        up = a["maxdef"] - a["opt"]
        if a["maxdef"] <= 9 and up >= a["maxrep"] and len(a["body"]) < 600 and (a["ty"] != "fixed" or a["size"] > 0):
            break
    ps = [a]
    tries = 0
    while len(ps) < (npages or rng.choice([1, 1, 2, 3])) and tries < 400:
        tries += 1
        b = p19.case(rng)
        if all(b[k] == a[k] for k in ("ty", "maxdef", "maxrep", "opt", "size")) and len(b["body"]) < 600:
            ps.append(b)
    return ps

def stats(rng, ty, size):
    if rng.random() < .5:
        return None
    w = 1 if ty == "bool" else size if ty == "fixed" else rng.randint(0, 9) if ty == "binary" else p19.SIZES[ty]
    s = lambda: ("s", bytes(rbytes(rng, w if rng.random() < .95 else rng.randint(0, 13))))
    return F((3, th.L(rng.randint(0, 9)) if rng.random() < .5 else None), (5, s() if rng.random() < .7 else None), (6, s() if rng.random() < .7 else None))

def header(rng, p, us, cs, st):
    if p["v2"]:
        h = (8, F((1, th.I(p["n"])), (2, th.I(0)), (3, th.I(p["n"])), (4, th.I(ENC[p["enc"]])), (5, th.I(p["dlen"])), (6, th.I(p["rlen"])),
                  (7, None if p.get("ic") is None else ("b", p["ic"])), (8, st)))
    else:
        h = (5, F((1, th.I(p["n"])), (2, th.I(ENC[p["enc"]])), (3, th.I(3)), (4, th.I(3)), (5, st)))
    return th.val(F((1, th.I(3 if p["v2"] else 0)), (2, th.I(us)), (3, th.I(cs)), h))

def build(rng, cols, codec=None, index=True):
    """the bytes of a file of one row group"""
    out, chunks = [80, 65, 82, 49], []
    schema = [F((4, ("s", b"r")), (5, th.I(len(cols))))]
    ixs = []
    for k, ps in enumerate(cols):
        a = ps[0]
        up = a["maxdef"] - a["opt"]
        for g in range(up):
            schema.append(F((3, th.I(2 if g < a["maxrep"] else 1)), (4, ("s", b"c%d" % k if g == 0 else b"g")), (5, th.I(1))))
        leaf = b"v" if up else b"c%d" % k
        schema.append(F((1, th.I(PHYS[a["ty"]])), (2, th.I(a["size"]) if a["ty"] == "fixed" else None), (3, th.I(1 if a["opt"] else 0)), (4, ("s", leaf))))
        path = [b"c%d" % k] + [b"g"] * (up - 1) + ([b"v"] if up else [])
        cd = rng.choice([0, 0, 0, 1]) if codec is None else codec
        start, locs, row = len(out), [], 0
        d = next((p["dict"][0] for p in ps if p["dict"]), None)
        if d is not None:
            b = [x for i in d for x in (le(len(i), 4) + i if a["ty"] == "binary" else i)]
            c = snappy(b) if cd else b
            out += th.val(F((1, th.I(2)), (2, th.I(len(b))), (3, th.I(len(c))), (7, F((1, th.I(len(d))), (2, th.I(0)))))) + c
        data = len(out)
        for p in ps:
            b = p["body"]
            lv = max(0, min(len(b), p["rlen"] + p["dlen"])) if p["v2"] else 0
            ic = p["v2"] and rng.choice([None, None, True, False])
            p = dict(p, ic=ic if p["v2"] else None)
            c = b[:lv] + snappy(b[lv:]) if cd and ic is not False else b
            h = header(rng, p, len(b), len(c), stats(rng, a["ty"], a["size"]))
            locs.append((len(out), len(h) + len(c), row))
            row += p["n"]
            out += h + c
        chunks.append(dict(start=start, data=data, d=d is not None, size=len(out) - start, n=row, locs=locs, path=path, codec=cd, a=a, st=stats(rng, a["ty"], a["size"])))
    cs = []
    for c in chunks:
        a, n = c["a"], len(c["locs"])
        f = []
        if index and rng.random() < .8:
            w = 1 if a["ty"] == "bool" else a["size"] if a["ty"] == "fixed" else 3 if a["ty"] == "binary" else p19.SIZES[a["ty"]]
            v = lambda: ("s", bytes([rng.getrandbits(1)] if a["ty"] == "bool" else rbytes(rng, w)))
            ix = th.val(F((1, ("l", "b", [("b", rng.random() < .2) for _ in range(n)])), (2, ("l", "s", [v() for _ in range(n)])), (3, ("l", "s", [v() for _ in range(n)])),
                          (4, th.I(rng.randint(0, 2))), (5, ("l", "i64", [th.L(rng.randint(0, 9)) for _ in range(n)]) if rng.random() < .7 else None)))
            f += [(6, th.L(len(out))), (7, th.I(len(ix)))]
            out += ix
        if index:
            ix = th.val(F((1, ("l", "f", [F((1, th.L(o)), (2, th.I(l)), (3, th.L(r))) for o, l, r in c["locs"]]))))
            f = [(4, th.L(len(out))), (5, th.I(len(ix)))] + f
            out += ix
        bloom = None
        if rng.random() < .5:
            m = rng.choice([1, 1, 2, 3])
            bloom = th.L(len(out))
            out += th.val(F((1, th.I(32 * m)), (2, F((1, F()))), (3, F((1, F()))), (4, F((1, F()))))) + rbytes(rng, 32 * m)
        md = F((1, th.I(PHYS[a["ty"]])), (2, ("l", "i", [th.I(0), th.I(3)])), (3, ("l", "s", [("s", x) for x in c["path"]])), (4, th.I(c["codec"])), (5, th.L(c["n"])),
               (6, th.L(c["size"])), (7, th.L(c["size"])), (9, th.L(c["data"])), (11, th.L(c["start"]) if c["d"] else None), (12, c["st"]), (14, bloom))
        cs.append(F((2, th.L(c["start"])), (3, md), *f))
    rows = max([c["n"] for c in chunks], default=0)
    m = th.val(F((1, th.I(2)), (2, ("l", "f", schema)), (3, th.L(rows)),
                 (4, ("l", "f", [F((1, ("l", "f", cs)), (2, th.L(sum(c["size"] for c in chunks))), (3, th.L(rows)))])), (6, ("s", b"me"))))
    return out + m + le(len(m), 4) + [80, 65, 82, 49]
