from common import *

def uleb(v):
    o = []
    while True:
        b = v & 127
        v >>= 7
        if v:
            o.append(b | 128)
        else:
            return o + [b]

def pack(vals, w):
    x = 0
    for i, v in enumerate(vals):
        x |= v << (i * w)
    return le(x, (len(vals) * w + 7) // 8)

def structured(rng, w):
    """a random run list, encoded; the number of values it holds"""
    out, n = [], 0
    for _ in range(rng.randint(0, 6)):
        if rng.random() < 0.5:
            c = rng.choice([0, 1, 1, 2, 7, 8, 63, 64, 65, 127, 128, rng.randint(0, 300)])
            out += uleb(2 * c) + le(rng.getrandbits(w), (w + 7) // 8)
            n += c
        else:
            g = rng.choice([0, 1, 1, 2, 3, 4, 5, 8, 9])
            out += uleb(2 * g + 1) + pack([rng.getrandbits(w) for _ in range(8 * g)], w)
            n += 8 * g
    if rng.random() < 0.4:  # a final run cut short by the end of the data
        c = rng.randint(1, 40)
        out += uleb(2 * (rng.choice([0, 0, 3]) + (c + 7) // 8) + 1) + pack([rng.getrandbits(w) for _ in range(c)], w)
        n += c
    return out, n

def longruns(rng):
    """runs of thousands to hundreds of millions of values, looked at around their ends"""
    w = rng.choice([1, 1, 2, 3, 7, 8, 9, 16, 17, 24, 31, 32])
    out, ends = [], [0]
    for _ in range(rng.choice([1, 2, 3, 4])):
        if rng.random() < .6:
            c = rng.choice([255, 256, 300, 65535, 65536, 65537, 70000, 1 << 20, (1 << 20) + 1, 1 << 24, 1 << 27, rng.randint(0, 1 << 27)])
            v = rng.getrandbits(w)
            out += uleb(2 * c) + le(v, (w + 7) // 8)
            ends.append(ends[-1] + c)
        else:
            g = rng.choice([32, 63, 64, 65, 128, 300, 8191, 8192, 8193]) // (1 if w < 4 else 16)
            out += uleb(2 * g + 1) + (pack([rng.getrandbits(w) for _ in range(g)], w) * 8)[:g * w]
            ends.append(ends[-1] + 8 * g)
    n = ends[-1] + rng.choice([0, 0, -1, 5]) if ends[-1] else 0
    ops, pos, spent = [["hint"]], 0, 0
    for e in sorted(set(ends + [ends[0] + 8])):
        for t in (e - 2, e + 1):
            k = t - pos
            if 0 <= k and spent + k < 3000000:
                ops += [["nth", k], ["next"], ["hint"]]
                pos, spent = t + 2, spent + k
    return dict(k="long", w=w, n=max(n, 0), bytes=out, ops=ops + [["nth", rng.randint(0, 70000)], ["hint"]])

def check(c):
    rng = c.rng
    cases = c.gen("HybridM", "HybridT.cfg" if c.thorough else "HybridM.cfg")
    c.replay("hybrid", cases, project=lambda o: o.get("vals", {}).get("ops"))
    dec, enc = [], []
    reps = 60 if c.thorough else 10
    for w in range(0, 33):
        for _ in range(reps):
            b, n = structured(rng, w) if w else (rbytes(rng, 3), 5)
            m = max(0, n + rng.choice([0, 0, 0, -1, 1, -3, 9]))
            dec.append(dict(k="dec", w=w, n=m, bytes=b, ops=rand_ops(rng, m)))
            # cut, altered or random bytes
            x = list(b)
            r = rng.random()
            if r < 0.4:
                x = x[:rng.randint(0, len(x))]
            elif r < 0.7 and x:
                x[rng.randrange(len(x))] = rng.choice([0, 1, 2, 127, 128, 255, rng.randrange(256)])
            elif r < 0.85:
                x = rbytes(rng, rng.randint(0, 12))
            else:
                x += [rng.choice([128, 255])] * rng.randint(8, 11) + rbytes(rng, 2) + [0] * 8
            dec.append(dict(k="dec", w=w, n=rng.randint(0, 200), bytes=x, ops=[["rest"]]))
        for n in [0, 1, 7, 8, 31, 32, 33, 63, 64, 65, rng.randint(0, 200)]:
            enc.append(dict(k="enc", f="u32", w=w, vals=[le(rng.getrandbits(w) if rng.random() < .8 else (1 << w) - 1, 4) for _ in range(n)]))
    for n in range(0, 70):
        for f in ("bool", "bitmap"):
            enc.append(dict(k="enc", f=f, w=1, vals=[le(rng.getrandbits(1), 4) for _ in range(n)]))
    for n in (65536, 66007) if not c.thorough else (65535, 65536, 65537, 66007, 300001):
        for f, w in (("bool", 1), ("bitmap", 1), ("u32", rng.choice([1, 2, 3])), ("u32", rng.choice([9, 17]))):
            period = [le(rng.getrandbits(w), 4) for _ in range(rng.choice([3, 1000]))]
            enc.append(dict(k="enc", f=f, w=w, vals=[period[i % len(period)] for i in range(n)]))
    dec += [longruns(rng) for _ in range(300 if c.thorough else 40)]
    # sequences in periods, too long to list
    for w in [0, 1, 1, 2, 3, 7, 8, 17, 32] * (3 if c.thorough else 1):
        n = rng.choice([524287, 524288, 524289, 530000, 600001]) * (1 if w < 3 else 0) or rng.choice([65536, 100001, 131073])
        f = rng.choice(["bool", "bitmap", "u32"]) if w == 1 else "u32"
        enc.append(dict(k="period", f=f, w=w, n=n, vals=[le(rng.getrandbits(w), 4) if w else [0] * 4 for _ in range(rng.choice([1, 3, 1000]))],
                        at=sorted({x for x in [0, 1, 8, 65535, 65536, 524287, 524288, n - 1, n - 2, n - 9] + [rng.randrange(n) for _ in range(100)] if x < n})))
    # very long sequences of empty runs
    dec.append(dict(k="dec", w=3, n=4, bytes=[0, 5] * 100 + [8, 6], ops=[["rest"]]))
    c.judge("Hybrid_J", "hybrid", dec)
    c.judge("Hybrid_J", "hybrid_enc", enc)
    # the empty-run sequence is long enough to exhaust a stack if handled recursively
    long = dict(w=3, n=2, bytes=[0, 5] * 300000 + [4, 6], ops=[["rest"]], expect=[[[6, 0, 0, 0], [6, 0, 0, 0]]])
    c.replay("hybrid", [long], project=lambda o: o.get("vals", {}).get("ops"))
