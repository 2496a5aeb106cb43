from common import *
from p10 import uleb, pack
from p11 import intervals

SIZES = dict(i32=4, f32=4, i64=8, f64=8, i96=12)

def encode(rng, vals, w, long=None):
    """values as a random list of runs of width w"""
    out, i, style = [], 0, rng.choice([.1, .4, .4, .9])
    while i < len(vals):
        r = rng.random()
        if r < style:
            c = 1
            while i + c < len(vals) and vals[i + c] == vals[i] and (c < 200 or long):
                c += 1
            out += uleb(2 * c) + le(vals[i], (w + 7) // 8)
            i += c
        else:
            g = rng.choice([1, 1, 2, 3, 8]) if not long else rng.choice(long)
            part = vals[i:i + 8 * g]
            out += uleb(2 * ((len(part) + 7) // 8) + 1) + pack(part + [0] * (-len(part) % 8), w)
            i += len(part)
    if rng.random() < .1:
        out += uleb(2 * 3) + le(0, (w + 7) // 8)
    return out

def levels(rng, n, mx, long=None):
    p = rng.choice([0, .1, .5, .9, 1])
    out = []
    while len(out) < n:
        v = mx if rng.random() < p else rng.randint(0, mx)
        out += [v] * rng.choice([1, 1, 1, 2, 9, 40] if not long else [1, 300, 33000, 66000])
    return out[:n]

def item(rng, ty, size):
    if ty == "bool":
        return [rng.getrandbits(1)]
    if ty == "binary":
        return rbytes(rng, rng.choice([0, 0, 1, 2, 5, 30]))
    return rbytes(rng, size if ty == "fixed" else SIZES[ty])

def case(rng, big=False, long=None):
    ty = rng.choice(["bool", "i32", "i64", "fixed"]) if long else rng.choice(["i32", "i64", "f32", "f64", "i96", "bool", "fixed", "binary", "binary"])
    size = rng.choice([1, 2, 3, 5, 16, 12]) if ty == "fixed" else 0
    n = rng.choice([0, 1, 2, 7, 8, 9, 31, 33, 64, rng.randint(0, 120)]) if not big else rng.randint(700, 1500)
    n = rng.choice([65535, 65536, 65537, 70000]) if long else n
    opt = rng.random() < .65
    # the leaf alone, or within other groups
    maxdef = rng.choice([1, 1, 1, 2, 3, 4, 7, 8, 300] if opt else [0, 0, 0, 1, 2])
    maxrep = rng.choice([0, 0, 0, 1, 2, 3])
    d = levels(rng, n, maxdef, long) if maxdef and (opt or rng.random() < .5 and not long) else [maxdef] * n
    r = levels(rng, n, maxrep, long) if maxrep else [0] * n
    m = sum(x == maxdef for x in d)
    dic = ty != "bool" and rng.random() < .4
    dict_, enc = [], "plain"
    if dic:
        k = rng.choice([1, 1, 2, 3, 4, 5, 17, 256, 300])
        dict_ = [[item(rng, ty, size) for _ in range(k)]]
        ix = [rng.randrange(k) for _ in range(m)]
        if rng.random() < .3:
            ix = sorted(ix)
        w = max(0, (k - 1).bit_length())
        w = rng.choice([w, w, w, w + 1, 8, 16, 32]) if w <= 8 else w + rng.choice([0, 0, 3])
        vals = [w] + (encode(rng, ix, w, long and [64, 300, 8200]) if w else rng.choice([[], [2, 0]]))
        enc = rng.choice(["dict", "rle_dict"])
    else:
        vs = [item(rng, ty, size) for _ in range(m)]
        if ty == "bool":
            vals = pack([v[0] for v in vs] + [0] * (-m % 8), 1)
        else:
            vals = [x for v in vs for x in (le(len(v), 4) + v if ty == "binary" else v)]
    wd, wr = maxdef.bit_length(), maxrep.bit_length()
    D = encode(rng, d, wd, long and [1, 8, 33]) if maxdef else []
    R = encode(rng, r, wr, long and [1, 8, 33]) if maxrep else []
    if long:    # more levels than the page has values
        for s, w in ((D, wd), (R, wr)):
            if s and rng.random() < .3:
                g = rng.choice([32768, 65536, 66000]) // w
                s += uleb(2 * g + 1) + rbytes(rng, 7) * (g * w // 7) + [0] * (g * w % 7)
    v2 = rng.random() < .5
    rlen, dlen = len(R), len(D)
    if v2:
        body = R + D + vals
    else:
        body = (le(len(R), 4) + R if maxrep else []) + (le(len(D), 4) + D if maxdef else []) + vals
    q = rng.random()
    if long:
        p = sorted({rng.choice([0, n - 1, 255, 256, 32767, 32768, 65534, 65535, n - 2, rng.randrange(n)]) for _ in range(30)})
        p = sorted(set(p) | {min(n - 1, max(0, i + j)) for i in range(1, n) if d[i] != d[i - 1] for j in (-1, 0, 1)} if sum(d[i] != d[i - 1] for i in range(1, n)) < 60 else set(p))
        p = [x for x in p if x < n]
        cuts = sorted({rng.choice([0, n, 255, 256, 32768, 65535, 65536, rng.randrange(n)]) for _ in range(rng.choice([2, 4, 6]))})
        cuts = [x for x in cuts if x <= n]
        sel = [[a, b - a] for a, b in zip(cuts[::2], cuts[1::2])] if rng.random() < .7 else []
        k = sum(x[1] for x in sel)
        return dict(v2=v2, maxrep=maxrep, maxdef=maxdef, opt=opt, n=n, body=body, rlen=rlen, dlen=dlen, enc=enc, ty=ty, size=size, dict=dict_, sel=sel,
                    at=p, sat=sorted({rng.randrange(k) for _ in range(30)} | {0, k - 1}) if k else [])
    if q < .08:                 # lengths that do not fit
        if v2:
            rlen, dlen = rng.choice([(rlen, len(body) - rlen + 1), (len(body) + 1, dlen), (rlen, -1), (-1, dlen), (2 ** 31 - 1, 2 ** 31 - 1), (len(body), 0), (0, len(body))])
        else:
            at = rng.choice([0, len(R) + 4 if maxrep else 0])
            body[at:at + 4] = rng.choice([le(len(body), 4), le(max(0, len(body) - at - 3), 4), [255] * 4, [255, 255, 255, 127], le(max(0, len(body) - at - 4), 4)])
    elif q < .2:
        body = body[:rng.randint(0, len(body))]
    elif q < .25:
        body = body + rbytes(rng, rng.randint(1, 3))
    elif q < .28:
        enc = rng.choice(["rle", "delta", "bss", "plain", "dict", "rle_dict"])
    elif q < .31:
        dict_ = [] if dict_ else [[item(rng, ty, size)]]
    elif q < .33 and ty == "fixed":
        size = rng.choice([0, size + 1, 2 * size])
    elif q < .36 and dic and len(vals) > 0 and len(body) >= len(vals):
        body[len(body) - len(vals)] = rng.choice([33, 255, 64])
    return dict(v2=v2, maxrep=maxrep, maxdef=maxdef, opt=opt, n=n, body=body, rlen=rlen, dlen=dlen, enc=enc, ty=ty, size=size, dict=dict_,
                sel=intervals(rng, n) if n and rng.random() < .6 else [], j=rng.choice([0, 1, 2, 8, n // 2, n, n + 1]), js=rng.choice([0, 1, 2, 5, n]))

def check(c):
    rng = c.rng
    cfg = "PageBodyMT.cfg" if c.thorough else "PageBodyMQ.cfg"
    c.mc("PageBodyM", cfg)
    c.replay("body", c.gen("PageBodyM", cfg))
    c.judge("P19_J", "body", [case(rng) for _ in range(12000 if c.thorough else 900)] + [case(rng, True) for _ in range(300 if c.thorough else 32)])
    c.judge("P19_J", "body", [case(rng, long=1) for _ in range(300 if c.thorough else 20)])
