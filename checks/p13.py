from common import *
import thrift

E = ("f", [])
def header(n, alg=1, hsh=1, comp=1, extra=None):
    f = [(1, ("i", n)), (2, ("f", [(alg, E)])), (3, ("f", [(hsh, E)])), (4, ("f", [(comp, E)]))]
    return thrift.struct(f + ([(extra, ("s", [1, 2]))] if extra else []))

def check(c):
    rng = c.rng
    cfg = "BloomMT.cfg" if c.thorough else "BloomMQ.cfg"
    c.mc("BloomM", cfg)
    c.replay("bloom_hist", c.gen("BloomM", cfg))
    use, hashes, reads = [], [], []
    reps = 8 if c.thorough else 1
    for _ in range(60 * reps):
        n = rng.choice([1, 2, 3, 4, 5, 7, 8, 16, 31, 33, 100, 255, 256, 257, 1000, 4096, 65537])
        pool = [rng.getrandbits(64) for _ in range(rng.randint(1, 12))]
        for h in list(pool):
            # the same block with other bits, other blocks with the same bits, the first and the last block
            pool += [h >> 32 << 32 | rng.getrandbits(32), rng.getrandbits(32) << 32 | h & 0xFFFFFFFF, h & 0xFFFFFFFF, h | 0xFFFFFFFF << 32,
                     h ^ 1 << rng.randrange(64)]
        pool += [((k << 32) // n + d) % (1 << 32) << 32 | rng.getrandbits(32) for k in (1, n - 1, rng.randint(0, n)) for d in (-1, 0, 1)]
        pre = sorted(rng.sample(range(256 * n), rng.choice([0, 0, 5, 40])))
        if n < 4 and rng.random() < .3:
            pre = [p for p in range(256 * n) if rng.random() < .7]
        ops = [[rng.choice(["in", "has"]), le(rng.choice(pool), 8)] for _ in range(rng.randint(1, 40 if n < 5000 else 12))]
        use.append(dict(k="use", n=n, pre=pre, ops=ops + [["has", o[1]] for o in ops if o[0] == "in"]))
    for l in list(range(0, 70)) + [95, 96, 97, 127, 128, 129, 200, 255, 300, 1000]:
        for _ in range(reps):
            hashes.append(dict(k="hash", ty=rng.choice(["vec", "slice"]), v=rbytes(rng, l)))
    for ty, l in dict(i32=4, i64=8, f32=4, f64=8, i96=12).items():
        for b in [[0] * l, [255] * l, [0] * (l - 1) + [128], [1] + [0] * (l - 1), [0] * (l - 2) + [0xC0, 0x7F]] + [rbytes(rng, l) for _ in range(12 * reps)]:
            hashes.append(dict(k="hash", ty=ty, v=b))
    for _ in range(150 * reps):
        n = rng.choice([0, 32, 32, 64, 96, 256, 1024, 33, 7])
        pre = rbytes(rng, rng.choice([0, 4, 100]))
        bits = rbytes(rng, n)
        h = header(rng.choice([n] * 8 + [n + 1, n - 1, 2 * n + 32, -1, -32, 1 << 28]),
                   *[rng.choice([1] * 20 + [2]) for _ in range(3)], extra=rng.choice([None, None, 5, 20]))
        f = pre + h + bits + rbytes(rng, rng.choice([0, 0, 5, 50]))
        r = rng.random()
        if r < .15:
            f = f[:rng.randint(len(pre), len(f))]
        elif r < .2:
            f[len(pre) + rng.randrange(len(h))] = rng.randrange(256)
        at = rng.choice([[len(pre)]] * 12 + [[], [len(f)], [len(f) + 9], [-1 - len(pre)]])
        reads.append(far(rng, k="read", file=f, at=at, old=rbytes(rng, rng.choice([0, 3, 40, 2000])),
                          sizes=[] if rng.random() < .5 else [rng.randint(1, 9) for _ in range(3)]))
        if at and at[0] < 0:
            reads[-1].pop("far", 0)
    c.judge("P13_J", "bloom_use", use)
    c.judge("P13_J", "bloom_hash", hashes)
    c.judge("P13_J", "bloom_read", reads)
