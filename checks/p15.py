from filegen import *
import gzip, zlib

CODECS = [[0], [1], [2], [2, 1], [2, 9], [4], [4, 5], [6], [6, 19], [7]]

def bodyof(rng, n):
    k = rng.random()
    if k < .4:
        return rbytes(rng, n)
    if k < .7:
        return [rng.randrange(256)] * n
    return (rbytes(rng, 5) * (n // 5 + 1))[:n]

def mkpage(rng, n, codec, kind=None):
    b = bodyof(rng, n)
    kind = kind or rng.choice(["v1", "v2", "v2", "dict"])
    if kind == "dict":
        p = dict(k=2, n=rng.randint(0, 50), sorted=rng.random() < .5, body=b)
    else:
        p = data_page(rng, dict(t=1, len=0), rng.randint(0, 9), rng.randint(0, 9), v2=(kind == "v2"), st=stats(rng, dict(t=1, len=0), 5) if rng.random() < .2 else None)["p"]
        p["body"] = b
        if kind == "v2":
            p["rl"] = rng.choice([0, 0, n, rng.randint(0, n)])
            p["dl"] = rng.choice([0, n - p["rl"], rng.randint(0, n - p["rl"])])
            r = rng.random()
            if r < .04:
                p["dl"] = n - p["rl"] + rng.choice([1, 100, 1 << 30])
            elif r < .06:
                p["rl"], p["dl"] = (1 << 31) - 1, (1 << 30)
            elif r < .08:
                p["dl"], p["rl"] = -1 - p["rl"], p["rl"]
    return dict(p=p, rows=[1] if kind != "dict" else [], codec=codec, damage=[],
                sel=[] if rng.random() < .6 else [[[rng.randrange(99), rng.randrange(9)] for _ in range(rng.choice([0, 1, 3]))]])

def scripted(rng, g):
    """pages of the state machine: sizes 0, 1, 3 stand for none, few and many bytes"""
    size = {0: 0, 1: rng.randint(1, 20), 2: 60, 3: rng.randint(50, 120), 4: 300}
    one = rng.choice(CODECS[1:])
    pages = []
    for x in g["pages"]:
        c = (one if rng.random() < .5 else rng.choice(CODECS[1:])) if x["c"] else [0]
        p = mkpage(rng, size[x["n"]], c)
        if p["p"]["k"] == 3 and x["c"]:
            p["p"]["ic"] = rng.choice([[], [True]])
        if x["bad"]:
            p["damage"] = rng.choice([["size", rng.choice([1, 5, 1000])], ["cut", rng.randint(1, 3)]])
        pages.append(p)
    return dict(pages=pages, inner=rbytes(rng, size[g["inner"]]), outer=rbytes(rng, size[g["outer"]]), one=[])

def rand(rng, sizes=(0, 1, 2, 5, 20, 100, 255, 256, 257)):
    one = rng.choice(CODECS) if rng.random() < .5 else None
    pages = []
    for _ in range(rng.choice([1, 2, 3, 5, 8])):
        if rng.random() < .06:
            pages.append(dict(err=True))
            continue
        c = one or rng.choice(CODECS + [[3], [5]])
        p = mkpage(rng, rng.choice(sizes), c)
        if rng.random() < .25 and one is None:
            p["damage"] = rng.choice([["size", rng.choice([1, -1, 3, 10000])], ["cut", rng.randint(1, 9)], ["flip", rng.randint(0, 60), rng.choice([1, 2, 16, 128, 255])],
                                      ["flip", rng.randint(0, 60), rng.choice([1, 2, 16, 128, 255])]])
            n = len(p["p"]["body"])
            if p["damage"] == ["size", -1] and n == 0:
                p["damage"] = ["size", 1]
        pages.append(p)
    return dict(pages=pages, inner=rbytes(rng, rng.choice([0, 5, 300])), outer=rbytes(rng, rng.choice([0, 5, 300])), one=[one] if one else [])

def copies(rng, codec):
    """a block whose copies are damaged, after other pages left their bytes on the buffers"""
    n = rng.choice([20, 30, 60, 200])
    p = mkpage(rng, n, codec, rng.choice(["v1", "v2", "dict"]))
    unit = rbytes(rng, rng.choice([1, 1, 2, 4]))
    p["p"]["body"] = (unit * n)[:n]
    if p["p"]["k"] == 3:
        p["p"].update(rl=0, dl=rng.choice([0, 2]), ic=[True])
    p["damage"] = ["flip", len(unit) + rng.choice([0, 1, 1, 1, 2]) + (8 if codec == [5] else 0) + (p["p"].get("dl") or 0 if p["p"]["k"] == 3 else 0), rng.choice([len(unit), len(unit), 1, 2, 4, 255])]
    before = [mkpage(rng, rng.choice([30, 100, 300]), rng.choice(CODECS[1:3] + [codec])) for _ in range(rng.choice([0, 1, 2]))]
    return dict(pages=before + [p], inner=rbytes(rng, rng.choice([0, 300])), outer=rbytes(rng, rng.choice([0, 300])), one=[])

def check(c):
    rng = c.rng
    gen = c.gen("StreamM", "StreamM4.cfg" if c.thorough else "StreamM3.cfg")
    rng.shuffle(gen)
    cases = [scripted(rng, g) for g in gen[:20000 if c.thorough else 2000]]
    cases += [rand(rng) for _ in range(20000 if c.thorough else 2500)]
    cases += [rand(rng, (1000, 3000, 4096, 4097, 0, 1)) for _ in range(300 if c.thorough else 20)]
    cases += [rand(rng, (65535, 65536, 65537, 70001)) for _ in range(60 if c.thorough else 8)]
    cases += [copies(rng, k) for k in ([7], [7], [5]) for _ in range(2000 if c.thorough else 150)]
    c.judge("P15_J", "stream", [dict(x, sup=[1, 2, 4, 6, 7]) for x in cases])
    # built with few codecs, one of them from another library
    cases = [dict(rand(rng), sup=[2, 7]) for _ in range(8000 if c.thorough else 700)]
    cases += [dict(copies(rng, [7]), sup=[2, 7]) for _ in range(2000 if c.thorough else 150)]
    c.judge("P15_J", "stream", cases, outs=c.run("stream", cases, few=True))
    lv = [(2, n) for n in list(range(13)) + [127, 128, 255]] + [(4, n) for n in list(range(14)) + [255, 256, 1 << 30]] + \
         [(6, n) for n in list(range(-2, 25)) + [256 + 3, -131072, -(1 << 31), (1 << 31) - 1]]
    c.judge("P15_J", "level", [dict(codec=k, n=n, body=rng.choice([[], rbytes(rng, 5), rbytes(rng, 40) * 30])) for k, n in lv])
