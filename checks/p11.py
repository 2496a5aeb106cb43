from common import *
from p10 import uleb

def pack1(bs):
    bs = bs + [0] * (-len(bs) % 8)
    return [sum(bs[i + j] << j for j in range(8)) for i in range(0, len(bs), 8)]

def runs(rng):
    """random runs of width 1; the number of rows they hold"""
    out, n = [], 0
    for _ in range(rng.choice([1, 2, 3, 5, 9])):
        if rng.random() < 0.5:
            c = rng.choice([0, 1, 2, 7, 8, 9, 63, 64, 65, rng.randint(0, 200)])
            out += uleb(2 * c) + [rng.getrandbits(1)]
            n += c
        else:
            g = rng.choice([0, 1, 1, 2, 3, 9, 17, 33])
            p = rng.choice([.1, .5, .9, 0, 1])
            out += uleb(2 * g + 1) + pack1([int(rng.random() < p) for _ in range(8 * g)])
            n += 8 * g
    if rng.random() < .2:   # rows beyond the data's: declared more groups than there are bytes
        g = rng.randint(1, 3)
        out += uleb(2 * (g + 5) + 1) + pack1([rng.getrandbits(1) for _ in range(8 * g)])
        n += 8 * g
    return out, n

def intervals(rng, n):
    out, at = [], 0
    style = rng.randrange(4)
    while True:
        at += rng.choice([0, 0, 1, rng.randint(0, 9), rng.randint(0, max(1, n // 3))] if style else [0, 1])
        l = min(rng.choice([0, 1, 1, 2, 7, 8, rng.randint(0, 20), rng.randint(0, max(1, n // 2))] if style != 1 else [1]), n - at)
        if at > n or l < 0:
            return out
        out.append([at, l])
        at += l
        if at >= n and rng.random() < .7 or len(out) > 60:
            return out

def given(rng):
    """runs given one by one, a bitmap's last byte possibly used in part"""
    out, n = [], 0
    for _ in range(rng.choice([1, 2, 3, 5, 8])):
        l = rng.choice([0, 1, 3, 7, 8, 9, 15, 16, 17, rng.randint(0, 90)])
        if rng.random() < .4:
            out.append(["r", rng.getrandbits(1), l])
        else:
            out.append(["b", [rng.choice([0, 255, rng.getrandbits(8), rng.getrandbits(8)]) for _ in range((l + 7) // 8 + rng.choice([0, 0, 1]))], l])
        n += l
    return dict(runs=out, ivs=intervals(rng, n), ops=rand_ops(rng, n))

def long(rng):
    """runs of tens of thousands to millions of rows, selected and looked at around their ends"""
    out, ends = [], [0]
    for _ in range(rng.choice([1, 2, 3, 5])):
        if rng.random() < .6:
            k = rng.choice([1, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 70000, 131072, rng.randint(0, 1 << 19)])
            out += uleb(2 * k) + [rng.getrandbits(1)]
        else:
            g = rng.choice([31, 32, 33, 64, 8191, 8192, 8193])
            if g > 100:   # few changes: the pieces stay few
                b = [0] * g if rng.random() < .5 else [255] * g
                for _ in range(rng.randint(0, 9)):
                    b[rng.choice([0, 31, 32, g - 1, rng.randrange(g)])] = rng.getrandbits(8)
            else:
                b = [rng.choice([0, 255, rng.getrandbits(8)]) for _ in range(g)]
            out += uleb(2 * g + 1) + b
            k = 8 * g
        ends.append(ends[-1] + k)
    n = ends[-1] - (rng.choice([0, 0, 1, 3]) if ends[-1] > ends[-2] + 3 else 0)
    cuts = sorted(x for x in {min(n, max(0, rng.choice(ends + [rng.randint(0, n)]) + rng.choice([-9, -1, 0, 0, 1, 8]))) for _ in range(rng.choice([0, 1, 2, 4, 9, 14]))})
    ivs = [[a, b - a] for a, b in zip(cuts[::2], cuts[1::2])] if rng.random() < .7 else [[a, b - a] for a, b in zip(cuts, cuts[1:])]
    ops, pos = [["hint"]], 0
    for e in sorted(set(ends + cuts)):
        for t in (e - 2, e + 1):
            if t >= pos:
                ops += [["nth", t - pos], ["next"], ["hint"]]
                pos = t + 2
    return dict(long=1, bytes=out, n=n, ivs=ivs, ops=ops)

def check(c):
    rng = c.rng
    cfg = "ValidityMT.cfg" if c.thorough else "ValidityMQ.cfg"
    c.mc("ValidityM", cfg)
    keep = ("runs", "bits", "paired", "rows", "slice")
    c.replay("valid", c.gen("ValidityM", cfg), project=lambda o: {k: o.get(k) for k in keep})
    cases = []
    for _ in range(6000 if c.thorough else 500):
        b, n = runs(rng)
        n -= rng.choice([0, 0, 0, 1, 3]) if n > 3 else 0
        ops = rand_ops(rng, n)
        cases.append(dict(bytes=b, n=n, ivs=intervals(rng, n), ops=ops))
    cases.append(dict(bytes=[0, 1] * 100 + [4, 1], n=2, ivs=[[1, 1]], ops=[["rest"]]))
    c.judge("P11_J", "valid", cases)
    c.judge("P11_J", "vruns", [given(rng) for _ in range(4000 if c.thorough else 500)])
    c.judge("P11_J", "vlong", [long(rng) for _ in range(1500 if c.thorough else 120)])
