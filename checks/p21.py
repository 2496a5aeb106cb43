from common import *

def check(c):
    c.mc("BitPack", "BitPack8.cfg")
    c.mc("BitPack", "BitPack16.cfg")
    rng = c.rng
    packs, unpacks, maps = [], [], []
    reps = 12 if c.thorough else 2
    for ty in (8, 16, 32, 64):
        for w in range(1, ty + 1):
            def val(mode):
                if mode == 0:
                    v = (1 << w) - 1
                elif mode == 1:
                    v = 1 << rng.randrange(w)
                else:
                    v = rng.getrandbits(w)
                return le(v, ty // 8)
            for mode in range(2 + reps):
                # around one and several packs, and remainders
                for n in {ty, rng.choice([0, 1, 7, 8, 9, ty - 1, ty + 1, 2 * ty + rng.randrange(ty)])}:
                    if mode == 0 and n == ty and w % 4:
                        continue
                    f = "encode" if n > ty or rng.random() < 0.6 else "encode_pack"
                    packs.append(dict(k="pack", ty=ty, w=w, f=f, extra=rng.choice([0, 0, 0, 5]) if f == "encode_pack" else 0,
                                      vals=[val(mode) for _ in range(n)]))
            for _ in range(reps + 1):
                nb = rng.choice([0, 1, 2, ty // 8 * w, rng.randint(1, 3 * ty // 8 * w)])
                n = rng.choice([nb * 8 // w, max(0, nb * 8 // w - rng.randint(0, 9)), nb * 8 // w + rng.randint(1, 3)])
                unpacks.append(dict(k="unpack", ty=ty, w=w, n=n, bytes=rbytes(rng, nb), ops=rand_ops(rng, n)))
        unpacks.append(dict(k="unpack", ty=ty, w=0, n=3, bytes=rbytes(rng, 3), ops=[]))
        packs.append(dict(k="pack", ty=ty, w=0, f="encode_pack", extra=0, vals=[le(0, ty // 8)] * 5))
    for _ in range(150 * reps):
        nb = rng.randint(1, 9)
        off = rng.randint(0, nb * 8 - 1)
        n = rng.randint(0, nb * 8 - off)
        maps.append(dict(k="bitmap", bytes=rbytes(rng, nb), off=off, n=n, ops=rand_ops(rng, n)))
    c.judge("BitPack_J", "bitpack", packs)
    c.judge("BitPack_J", "bitunpack", unpacks)
    c.judge("BitPack_J", "bitmap", maps)
