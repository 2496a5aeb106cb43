def rand_ops(rng, n, rest=True):
    """a random history of iterator calls on an iterator of about n items"""
    ops = []
    for _ in range(rng.randint(0, 6)):
        o = rng.choice(["next", "nth", "hint", "next", "nth"])
        ops.append([o, rng.choice([0, 0, 1, 2, 3, 7, 8, 31, 32, 33, 64, rng.randint(0, max(1, n))])] if o == "nth" else [o])
    if rest:
        ops += [["hint"], ["rest"], ["next"], ["hint"]]
    return ops

def rbytes(rng, n):
    return [rng.randrange(256) for _ in range(n)]

def le(v, n):
    return [(v >> (8 * k)) & 255 for k in range(n)]

def far(rng, **k):
    """sometimes: where the data are to start, around and beyond the sizes of narrower integers"""
    if rng.random() < .25:
        b = rng.choice([31, 32, 32, 33, 40, 53, 62])
        k["far"] = list(((1 << b) + rng.choice([-1, 1, 0, -5, -30, -200, -1000, 12345, -rng.randint(0, 3000)])).to_bytes(8, "little"))
    return k
