from common import *
import struct

def instant(rng):
    day = rng.choice([2440588 + rng.randint(-106752, 106752), 2440588 + rng.randint(-30000, 30000), 2440587, 2440588, 2333836, 2547339, 0, (1 << 32) - 1, rng.getrandbits(32)])
    ns = rng.choice([0, 1, 86400 * 10 ** 9 - 1, rng.randrange(86400 * 10 ** 9), rng.randrange(86400 * 10 ** 9), (1 << 32) - 1, 1 << 32, rng.getrandbits(63), rng.getrandbits(64)])
    if rng.random() < .15:    # around the ends of what 64 bits hold
        t = rng.choice([-(1 << 63), (1 << 63) - 1]) + rng.choice([-2, -1, 0, 1, 2, rng.randint(-10 ** 14, 10 ** 14)])
        day, ns = 2440588 + t // (86400 * 10 ** 9), t % (86400 * 10 ** 9)
    return le(ns, 8) + le(day, 4)

def val(rng, ty):
    if ty == "i96":
        return instant(rng)
    if ty == "binary":
        return [rng.choice([0, 1, 127, 128, 255, rng.randrange(256)]) for _ in range(rng.choice([0, 1, 2, 3, 5, 9, 9, 12, 17, 33, 40, 70, 140, 300]))]
    if ty in ("f32", "f64"):
        w = 4 if ty == "f32" else 8
        return list(struct.pack("<f" if w == 4 else "<d", rng.uniform(-9, 9))) if rng.random() < .5 else le(rng.getrandbits(8 * w), w)
    w = 4 if ty == "i32" else 8
    v = rng.choice([rng.getrandbits(8 * w), rng.randint(-300, 300), (1 << (8 * w - 1)) + rng.randint(-2, 2)])
    return le(v % (1 << 8 * w), w)

def near(rng, ty, a):
    """another value, often close to a"""
    r = rng.random()
    if r < .4:
        return val(rng, ty)
    b = list(a)
    if ty == "binary" and r < .6:
        return b[:rng.randint(0, len(b))] if rng.random() < .5 else b + rbytes(rng, rng.randint(0, 2))
    if b:
        k = rng.choice([rng.randrange(len(b)), len(b) - 1])
        b[k] = rng.choice([b[k] ^ 1, b[k] ^ 128, (b[k] + 1) % 256, rng.randrange(256)])
    return b

def check(c):
    rng = c.rng
    cfg = "NativeMT.cfg" if c.thorough else "NativeMQ.cfg"
    c.mc("NativeM", cfg)
    c.replay("native", c.gen("NativeM", cfg), project=lambda o: o.get("ord"))
    cases = []
    for ty in ("i32", "i64", "f32", "f64", "i96", "i96", "binary"):
        for _ in range(6000 if c.thorough else 400):
            a = val(rng, ty)
            cases.append(dict(ty=ty, a=a, b=near(rng, ty, a)))
    c.judge("P23_J", "native", cases)
    ns = list(range(70)) + [255, 256, 257, 32766, 32767, 32768, (1 << 31) - 9] + [rng.randrange(1 << rng.randint(1, 31)) for _ in range(200)]
    c.judge("P23_J", "small", [dict(n=n, bytes=rbytes(rng, rng.choice([0, 1, 3, 4, 5, 9]))) for n in ns])
