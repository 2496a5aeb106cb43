from common import *

def be(x):
    return list((x % (1 << 32)).to_bytes(4, "big"))

def more(x):
    r = []
    while x >= 255:
        r.append(255)
        x -= 255
    return r + [x]

def block(rng):
    """a random LZ4 block and the length of what it denotes"""
    b, n = [], 0
    for _ in range(rng.choice([0, 1, 1, 2, 3, 6])):
        l = rng.choice([0, 1, 2, 14, 15, 16, 40, 269, 270, 271]) if n else rng.choice([1, 2, 15, 16, 300])
        m = rng.choice([4, 5, 17, 18, 19, 20, 100, 273, 274, 600])
        off = rng.choice([1, 2, 3, 7, 8, n + l, rng.randint(1, n + l)])
        off = min(off, n + l)
        b += [min(l, 15) << 4 | min(m - 4, 15)] + (more(l - 15) if l >= 15 else []) + rbytes(rng, l)
        b += le(off, 2) + (more(m - 19) if m >= 19 else [])
        n += l + m
    l = rng.choice([12, 13, 15, 16, 40]) if n else rng.choice([0, 1, 5, 14, 15, 16, 269, 270])
    return b + [min(l, 15) << 4] + (more(l - 15) if l >= 15 else []) + rbytes(rng, l), n + l

def frames(rng, blocks):
    return [x for b, n in blocks for x in be(n) + be(len(b)) + b]

def damage(rng, b, n, blocks):
    """framed input, or something close to it"""
    h = rng.randrange(12)
    if h <= 3:
        return b, n
    b = list(b)
    if h == 4:
        return b, max(0, n + rng.choice([-1, 1, -2, 5, -n, 100]))
    if h == 5:
        return b[:rng.randint(0, len(b))], n
    if h == 6:
        return b + rng.choice([[0], [0] * 7, [0] * 8, rbytes(rng, 9), be(0) + be(1) + [0], be(0) + be(0), be(0)]), n
    if h == 7 and b:
        b[rng.randrange(len(b))] ^= rng.choice([1, 128, 255, 16])
        return b, n
    if h == 8 and blocks:    # declared sizes off, their sum right
        i, j = rng.randrange(len(blocks)), rng.randrange(len(blocks))
        d = rng.choice([1, -1, 3])
        out = []
        for k, (x, m) in enumerate(blocks):
            out += be(m + (d if k == i else 0) - (d if k == j else 0)) + be(len(x)) + x
        return out, n
    if h == 9 and blocks:
        i = rng.randrange(len(blocks))
        out = []
        for k, (x, m) in enumerate(blocks):
            out += be(m) + be(len(x) + (rng.choice([-1, 1, 2, 1000, 1 << 31]) if k == i else 0)) + x
        return out, n
    if h == 10:              # a plain block
        x, m = rng.choice(blocks) if blocks else ([0], 0)
        return x, m
    x, m = rng.choice(blocks) if blocks else ([0], 0)
    return x, max(0, m + rng.choice([-1, 1, 3]))

def check(c):
    rng = c.rng
    gen = c.gen("Lz4M", "Lz4M.cfg")
    small = [(g["enc"], len(g["out"])) for g in gen if len(g["out"]) < 330]
    big = [(g["enc"], len(g["out"])) for g in gen if len(g["out"]) >= 330]
    cases = []
    pick = small if c.thorough else rng.sample(small, min(len(small), 1500))
    for b, n in pick + rng.sample(big, min(len(big), 3000 if c.thorough else 200)):
        cases.append(dict(body=b, n=n))
        f = frames(rng, [(b, n)])
        cases.append(dict(body=f, n=n))
    for _ in range(20000 if c.thorough else 3500):
        bl = [rng.choice(small) if rng.random() < .6 else block(rng) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 5]))]
        b, n = damage(rng, frames(rng, bl), sum(n for _, n in bl), bl)
        cases.append(dict(body=b, n=n))
    for m in (127, 128, 255, 256, 257, 300, 1000):   # many frames
        bl = [block(rng) if rng.random() < .05 else rng.choice(small) for _ in range(m)]
        b, n = damage(rng, frames(rng, bl), sum(n for _, n in bl), bl) if rng.random() < .3 else (frames(rng, bl), sum(n for _, n in bl))
        cases.append(dict(body=b, n=n))
    c.judge("P16_J", "legacy", cases)
    # with the codec of the other library
    some = rng.sample(cases, 12000 if c.thorough else 1500)
    c.judge("P16_J", "legacy", some, outs=c.run("legacy", some, few=True))
