from common import *
from p10 import uleb

M = 1 << 64

def zz(v):
    v &= M - 1
    s = v - M if v >> 63 else v
    return uleb(((s << 1) ^ (s >> 63)) & (M - 1))

def pack(vals, w, slots, rng):
    """w bits each; the slots after the values hold anything"""
    x = 0
    for i in range(slots):
        x |= (vals[i] if i < len(vals) else rng.getrandbits(w) if w else 0) << (i * w)
    return le(x, slots * w // 8)

def delta(rng, vals, bs, nm, wide=None, junk=True):
    """a conforming encoding of vals (mod 2^64); wide(m, j): bits of a miniblock beyond those needed"""
    out = uleb(bs) + uleb(nm) + uleb(len(vals)) + zz(vals[0] if vals else 0)
    vpm = bs // nm
    for m, at in enumerate(range(1, len(vals), bs)):
        ds = [(vals[k] - vals[k - 1]) % M for k in range(at, min(at + bs, len(vals)))]
        sd = [d - M if d >> 63 else d for d in ds]
        low = min(sd)
        if rng.random() < 0.1:
            low -= rng.choice([1, 5, 1 << 20])      # not the least: only makes the numbers larger
        ds = [(d - low) % M for d in ds]
        widths, body = [], []
        for j in range(nm):
            part = ds[j * vpm:(j + 1) * vpm]
            if not part:
                widths.append(rng.choice([0, 0, 7, 64, 65, 255]) if junk else 0)
                continue
            w = max(d.bit_length() for d in part)
            w = min(64, w + (wide(m, j) if wide else 0))
            widths.append(w)
            body += pack(part, w, vpm, rng)
        out += zz(low) + widths + body
    return out

def series(rng, n):
    """n 64-bit numbers of one of several shapes"""
    k = rng.randrange(9)
    if k == 0:
        return [rng.getrandbits(64) for _ in range(n)]
    if k == 1:
        return [rng.choice([0, 1, M - 1, M >> 1, (M >> 1) - 1, 1 << 31, (1 << 31) - 1, M - (1 << 31)]) for _ in range(n)]
    if k == 2:
        return [(5 + 3 * i) % M for i in range(n)]
    if k == 3:
        return [(-7 * i) % M for i in range(n)]
    if k == 4:
        return [rng.choice([7, 7, 7, 7, 8]) for _ in range(n)]
    if k == 5:
        a, o = rng.getrandbits(64), []
        for _ in range(n):
            a = (a + rng.getrandbits(rng.choice([1, 5, 33, 63]))) % M
            o.append(a)
        return o
    if k == 6:
        return [(rng.getrandbits(32) - (1 << 31)) % M for _ in range(n)]
    if k == 7:   # narrow, then wide, then narrow
        return [rng.getrandbits(64 if 120 < i < 140 else 3) for i in range(n)]
    return [rng.getrandbits(1 + (i // 40) % 64) for i in range(n)]

def lens(rng):
    return rng.choice([0, 1, 2, 3, 31, 32, 33, 64, 127, 128, 129, 130, 160, 256, 257, 258, rng.randint(0, 400)])

def strings(rng):
    n = rng.choice([0, 1, 2, 3, 5, 33, 129, 130, rng.randint(0, 150)])
    k = rng.randrange(4)
    out = []
    for _ in range(n):
        p = out[-1] if out else []
        r = rng.random()
        if k == 0:
            out.append([rng.randrange(256) for _ in range(rng.choice([0, 0, 1, 2, 4, 9]))])
        elif r < 0.2:
            out.append(list(p))
        elif r < 0.4:
            out.append(p[:rng.randint(0, len(p))])
        elif r < 0.7:
            out.append(p[:rng.randint(max(0, len(p) - 3), len(p))] + rbytes(rng, rng.randint(0, 3)))
        else:
            out.append([rng.choice([0, 97]) for _ in range(rng.choice([0, 1, 1, 2, 6]))])
    if k == 3 and n:
        out[rng.randrange(n)] = rbytes(rng, 700)
    return out

def prefix(a, b):
    k = 0
    while k < min(len(a), len(b)) and a[k] == b[k]:
        k += 1
    return k

SIZES = [(128, 1), (128, 2), (128, 4), (256, 1), (256, 2), (256, 4), (256, 8), (384, 3), (384, 4), (512, 16), (1024, 32)]

def check(c):
    rng = c.rng
    c.mc("DeltaM", "DeltaMT.cfg" if c.thorough else "DeltaMQ.cfg")
    # where values lie, from the specification's enumeration: lay out real bytes, check what is read and consumed
    cases = []
    for g in c.gen("DeltaM", "DeltaMT.cfg" if c.thorough else "DeltaMQ.cfg"):
        vpm, n = g["bs"] // g["nm"], g["count"]
        p = g["pat"]
        v, vals, out, prev = rng.randrange(-50, 50), [], [], None
        head = uleb(g["bs"]) + uleb(g["nm"]) + uleb(n) + zz(v)
        if n:
            vals.append(v % M)
        left, m = n - 1, 0
        while left > 0:
            low = rng.choice([0, -1, 5, -60])
            ws = [p[(m * 7 + j) % len(p)] for j in range(g["nm"])]
            out += zz(low) + [w if j * vpm < left else rng.choice([w, 200]) for j, w in enumerate(ws)]
            for j in range(g["nm"]):
                k = min(vpm, max(0, left - j * vpm))
                if k:
                    ds = [rng.getrandbits(ws[j]) if ws[j] else 0 for _ in range(k)]
                    out += pack(ds, ws[j], vpm, rng)
                    for d in ds:
                        vals.append((vals[-1] + low + d) % M)
            left -= g["bs"]
            m += 1
        cases.append(dict(bytes=head + out + rbytes(rng, rng.choice([0, 3, 40])), expect=dict(vals=[le(x, 8) for x in vals], n=len(head) + g["expect"][1])))
        assert len(vals) == g["expect"][0]
    c.replay("delta", cases)

    ints, items, var = [], [], []
    reps = 12 if c.thorough else 2
    for _ in range(110 * reps):
        vals = series(rng, lens(rng))
        ints.append(dict(k="delta", vals=[le(v, 8) for v in vals], pre=rng.choice([0, 0, 5])))
    for bs, nm in SIZES:
        for _ in range(6 * reps):
            vals = series(rng, rng.choice([lens(rng), bs // nm + 1, bs + 1, bs + 2, bs // nm + 2]) if bs <= 512 else rng.choice([0, 1, 33, 34, 66]))
            wide = rng.choice([None, None, lambda m, j: rng.choice([0, 0, 1, 9]), lambda m, j: 64])
            b = delta(rng, vals, bs, nm, wide)
            x = b + rbytes(rng, rng.choice([0, 0, 1, 30]))
            ints.append(dict(k="delta", bytes=x))
            ops = rand_ops(rng, len(vals))
            ints.append(dict(k="delta", bytes=x, ops=ops))
            # cut, or with one byte changed
            ints.append(dict(k="delta", bytes=b[:rng.randint(0, max(0, len(b) - 1))]))
            y = list(b)
            y[rng.randrange(min(len(y), 14))] = rng.choice([0, 1, 64, 65, 127, 128, 255])
            ints.append(dict(k="delta", bytes=y))
    for _ in range(60 * reps):
        it = strings(rng)
        for f in ("length", "prefix"):
            items.append(dict(k="items", f=f, items=it))
        bs, nm = rng.choice(SIZES)
        tail = rbytes(rng, rng.choice([0, 0, 1, 9]))
        flat = [x for i in it for x in i]
        items.append(dict(k="items", f="length", bytes=delta(rng, [len(x) for x in it], bs, nm) + flat + tail))
        # prefixes need not be the longest
        ps = [rng.randint(0, q) if rng.random() < .2 else q for q in [prefix(a, b) for a, b in zip([[]] + it, it)]]
        suf = [b[p:] for p, b in zip(ps, it)]
        bs2, nm2 = rng.choice(SIZES)
        items.append(dict(k="items", f="prefix", bytes=delta(rng, ps, bs, nm) + delta(rng, [len(s) for s in suf], bs2, nm2) + [x for i in suf for x in i] + tail))
        b = [x for i in it for x in le(len(i), 4) + i]
        items.append(dict(k="items", f="plain", bytes=b, **rng.choice([{}, dict(count=len(it))])))
        r = rng.random()
        if r < .5:
            b = b[:rng.randint(0, len(b))]
        elif b:
            b[rng.randrange(len(b))] = rng.choice([0, 1, 4, 128, 255])
        items.append(dict(k="items", f="plain", bytes=b))
    edge = [0, 1, 2, M - 1, M - 2, M >> 1, (M >> 1) - 1, (M >> 1) + 1] + [1 << k for k in range(64)] + [(1 << k) - 1 for k in range(64)]
    for v in edge + [rng.getrandbits(rng.randint(1, 64)) for _ in range(60 * reps)]:
        for f in ("uleb", "zigzag"):
            var.append(dict(k="varint", f=f, v=le(v, 8)))
            b = uleb(v) + rbytes(rng, rng.choice([0, 1, 9]))
            if rng.random() < .4:
                b = b[:rng.randint(0, len(b))]
            elif rng.random() < .3:
                b[rng.randrange(len(b))] |= 128
            var.append(dict(k="varint", f=f, bytes=b))
    for k in range(0, 12):       # longer than 64 bits, not terminated, padded with empty groups
        for last in (0, 1, 2, 3, 127):
            for f in ("uleb", "zigzag"):
                var.append(dict(k="varint", f=f, bytes=[128] * k + [last]))
                var.append(dict(k="varint", f=f, bytes=[255] * k + [last, 7]))
    for n in (65536, 65537, 70001) + ((1 << 20, (1 << 21) + 5) if c.thorough else (rng.randint(65000, 300000),)):
        first, step = rng.getrandbits(64), rng.choice([0, 1, M - 1, 1 << 33, rng.getrandbits(64)])
        bs, nm = rng.choice(SIZES)
        sd = step - M if step >> 63 else step
        block = zz(sd) + [0] * nm
        b = uleb(bs) + uleb(nm) + uleb(n) + zz(first) + block * (-(-(n - 1) // bs))
        ops, pos = [["hint"]], 0
        for t in sorted({0, 127, 65534, 65536, n - 2, rng.randrange(n)}):
            if t >= pos:
                ops += [["nth", t - pos], ["next"], ["hint"]]
                pos = t + 2
        ints.append(dict(k="delta", n=n, bytes=b, first=le(first, 8), step=le(step, 8), ops=ops))
    v = series(rng, 66000)
    ints.append(dict(k="delta", n=len(v), vals=[le(x, 8) for x in v], pre=3))
    for n in (127, 128, 255, 256, 300, 1000, 65535, 65536, 70000):
        it = [rbytes(rng, 3), rbytes(rng, n)]
        it += [it[1][:-1] + [1, 2, 3], rbytes(rng, 5)]
        items += [dict(k="items", f=f, items=it) for f in ("length", "prefix")] + [dict(k="items", f="plain", bytes=[x for i in it for x in le(len(i), 4) + i])]
    c.judge("P12_J", "delta", ints)
    c.judge("P12_J", "delta_items", items)
    c.judge("P12_J", "varint", var)
