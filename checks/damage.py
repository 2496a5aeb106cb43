"""Files damaged byte-wise, or in the values and shape of their Thrift structures."""
from common import *
import thrift as th

def uleb(b, p):
    v = s = 0
    while True:
        x = b[p]
        p += 1
        v |= (x & 127) << s
        s += 7
        if x < 128:
            return v, p

NAMES = {3: "y", 4: "i16", 5: "i", 6: "i64", 7: "d", 8: "s", 9: "l", 12: "f"}

def dec(b, p, t):
    if t in (1, 2):
        return ("b", t == 1), p
    if t == 3:
        return ("y", b[p]), p + 1
    if t in (4, 5, 6):
        v, p = uleb(b, p)
        return (NAMES[t], (v >> 1) ^ -(v & 1)), p
    if t == 7:
        return ("d", b[p:p + 8]), p + 8
    if t == 8:
        n, p = uleb(b, p)
        return ("s", bytes(b[p:p + n])), p + n
    if t == 9:
        h = b[p]
        p += 1
        n, et = h >> 4, h & 15
        if n == 15:
            n, p = uleb(b, p)
        items = []
        for _ in range(n):
            if et in (1, 2):
                items.append(("b", b[p] == 1))
                p += 1
            else:
                v, p = dec(b, p, et)
                items.append(v)
        return ("l", "b" if et in (1, 2) else NAMES[et], items), p
    fields, last = [], 0
    while True:
        h = b[p]
        p += 1
        if h == 0:
            return ("f", fields), p
        if h >> 4:
            last += h >> 4
        else:
            v, p = uleb(b, p)
            last = (v >> 1) ^ -(v & 1)
        v, p = dec(b, p, h & 15)
        fields.append((last, v))

def slots(v, path=()):
    """every place of a tree, as a path"""
    out = [path]
    if v[0] == "l":
        for i, x in enumerate(v[2]):
            out += slots(x, path + (i,))
    elif v[0] == "f":
        for i, (_, x) in enumerate(v[1]):
            out += slots(x, path + (i,))
    return out

def at(v, path):
    for i in path:
        v = v[2][i] if v[0] == "l" else v[1][i][1]
    return v

def put(v, path, f):
    """replaces the place by what f makes of it; None removes it"""
    if not path:
        return f(v)
    i = path[0]
    if v[0] == "l":
        x = put(v[2][i], path[1:], f)
        return ("l", v[1], v[2][:i] + ([] if x is None else [x]) + v[2][i + 1:])
    x = put(v[1][i][1], path[1:], f)
    return ("f", v[1][:i] + ([] if x is None else [(v[1][i][0], x)]) + v[1][i + 1:])

NUMS = [0, 1, -1, 2, 7, 8, -(1 << 31), (1 << 31) - 1, 1 << 31, 1 << 40, (1 << 62), (1 << 63) - 1, -(1 << 63), 255, 65536]

def spoil(rng, size):
    def f(v):
        k = v[0]
        if rng.random() < .1:
            return None
        if k in ("i", "i64", "i16"):
            n = rng.choice(NUMS + [v[1] + 1, v[1] - 1, v[1] + 1, -v[1], size, size - v[1], 2 * v[1]])
            if k == "i":
                n = max(-(1 << 31), min((1 << 31) - 1, n))
            if k == "i16":
                n = max(-(1 << 15), min((1 << 15) - 1, n))
            return (k, max(-(1 << 63), min((1 << 63) - 1, n)))
        if k == "b":
            return ("b", not v[1])
        if k == "s":
            return ("s", rng.choice([b"", v[1][:-1], v[1] + b"x", b"\xff\xfe", v[1] * 2, bytes(rbytes(rng, len(v[1])))]))
        if k == "l":
            x = list(v[2])
            q = rng.random()
            if q < .3 and x:
                del x[rng.randrange(len(x))]
            elif q < .6 and x:
                x.insert(rng.randint(0, len(x)), rng.choice(x))
            elif q < .8:
                rng.shuffle(x)
            else:
                x = []
            return ("l", v[1], x)
        return v
    return f

def shake(rng, tree, size, n=1):
    for _ in range(n):
        s = slots(tree)[1:]
        if not s:
            return tree
        tree = put(tree, rng.choice(s), spoil(rng, size))
    return tree

def find(v, *ids):
    """the value at a path of field ids and list positions, or None"""
    for i in ids:
        if v is None:
            return None
        if v[0] == "f":
            v = dict(v[1]).get(i)
        else:
            v = v[2][i] if i < len(v[2]) else None
    return v

def parts(b):
    """(position of the footer, its tree, [(start, end, tree, kind) of every other Thrift structure of the file that is found])"""
    n = int.from_bytes(bytes(b[-8:-4]), "little")
    f0 = len(b) - 8 - n
    m, _ = dec(b, f0, 12)
    out = []
    for g in find(m, 4)[2]:
        for c in find(g, 1)[2]:
            p = (find(c, 3, 11) or find(c, 3, 9))[1]
            end = p + find(c, 3, 7)[1]
            while p < end:
                h, q = dec(b, p, 12)
                out.append((p, q, h, 'page'))
                p = q + find(h, 3)[1]
            o = find(c, 3, 14)
            if o is not None:
                t, q = dec(b, o[1], 12)
                out.append((o[1], q, t, 'bloom'))
            for a, l, w in ((4, 5, 'loc'), (6, 7, 'ix')):
                o, k = find(c, a), find(c, l)
                if o is not None and k is not None:
                    t, q = dec(b, o[1], 12)
                    out.append((o[1], q, t, w))
    return f0, m, out

BIG = [(1 << 31) - 1, 1 << 30, 1 << 24, 65536 + 7, -1, -(1 << 31)]

def grown(rng, tree, paths):
    """the tree with one of its numbers at these paths of field ids huge or negative"""
    ps = []
    for p in paths:
        v, at_ = tree, []
        for i in p:
            k = next((j for j, (n, _) in enumerate(v[1]) if n == i), None) if v[0] == "f" else (i if i < len(v[2]) else None)
            if k is None:
                break
            at_.append(k)
            v = v[1][k][1] if v[0] == "f" else v[2][k]
        else:
            if v[0] in ("i", "i64"):
                ps.append(tuple(at_))
    if not ps:
        return tree
    return put(tree, rng.choice(ps), lambda v: (v[0], rng.choice(BIG)))

SIZES = dict(page=[(2,), (3,), (5, 1), (7, 1), (8, 1), (8, 5), (8, 6)], bloom=[(1,)])

def padded(v, pad):
    """the bytes of a value, its numbers taking pad[0] bytes more than they need, as far as they can"""
    k = v[0]
    if k in ("i", "i64", "i16"):
        b = th.zig(v[1])
        m = min(pad[0], {"i": 5, "i64": 10, "i16": 3}[k] - len(b))
        if m > 0:
            pad[0] -= m
            b = b[:-1] + [b[-1] | 128] + [128] * (m - 1) + [0]
        return b
    if k == "l" and v[1] != "b":
        h = th.val(("l", v[1], []))[0] & 15
        n = len(v[2])
        return ([n << 4 | h] if n < 15 else [0xF0 | h] + th.uleb(n)) + [y for x in v[2] for y in padded(x, pad)]
    if k == "f":
        out, last = [], 0
        for i, x in v[1]:
            d = i - last
            out += [d << 4 | th.ty(x)] if 0 < d < 16 else [th.ty(x)] + th.zig(i)
            if x[0] != "b":
                out += padded(x, pad)
            last = i
        return out + [0]
    return th.val(v)

def rebuild(b, f0, tree):
    m = th.val(tree)
    return b[:f0] + m + le(len(m), 4) + b[-4:]

def damage(rng, b):
    """(bytes, positions of the structures of each kind that still have the format's field types)"""
    f0, m, ps = parts(b)
    b = list(b[:f0])
    heads = {s: (e, t) for s, e, t, _ in ps}
    kind = {s: w for s, _, _, w in ps}
    for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
        q = rng.random()
        if q < .3:
            m = shake(rng, m, len(b), rng.choice([1, 1, 2]))
        elif q < .42:
            gs = find(m, 4)
            m = grown(rng, m, [(4, g, 1, c) + p for g in range(len(gs[2])) for c in range(9)
                               for p in ((4,), (5,), (6,), (7,), (3, 5), (3, 6), (3, 7), (3, 9), (3, 11), (3, 14))] if gs else [])
        elif q < .52 and [s for s in heads if kind[s] in SIZES]:
            # a huge size in a header, which may take bytes of what follows it
            s = rng.choice([s for s in sorted(heads) if kind[s] in SIZES])
            t = grown(rng, heads[s][1], SIZES[kind[s]])
            x = th.val(t)
            b[s:s + len(x)] = x
            e = max(heads[s][0], s + len(x))
            heads = {y: v for y, v in heads.items() if y == s or y >= e or y < s and v[0] <= s}
            heads[s] = (s + len(x), t)
        elif q < .75 and heads:
            # a structure with other contents that takes as many bytes
            for _ in range(20):
                s = rng.choice(sorted(heads))
                e, t = heads[s]
                t2 = shake(rng, t, len(b))
                pad = [e - s - len(th.val(t2))]
                x = padded(t2, pad) if pad[0] >= 0 else []
                if x and pad[0] == 0:
                    b[s:e] = x
                    heads[s] = (e, t2)
                    break
        elif q < .85 and b:
            # a part is missing, or there twice
            i = rng.randrange(len(b))
            n = min(rng.choice([1, 2, 10, 100]), len(b) - i)
            x = [] if rng.random() < .7 else b[i:i + n] * 2
            b[i:i + n] = x
            kind = {(s if s < i else s + len(x) - n): w for s, w in kind.items() if s in heads}
            heads = {(s if s < i else s + len(x) - n): (e if s < i else e + len(x) - n, t) for s, (e, t) in heads.items() if e <= i or s >= i + n}
        elif b:
            i = rng.randrange(len(b))
            b[i] = rng.choice([0, 1, 255, 128, 127, b[i] ^ 1, b[i] ^ 16, (b[i] + 1) & 255, rng.getrandbits(8)])
            heads = {s: v for s, v in heads.items() if not s <= i < v[0]}
    m = th.val(m)
    return b + m + le(len(m), 4) + [80, 65, 82, 49], {w: [s for s in sorted(heads) if kind[s] == w] for w in ('page', 'loc', 'ix', 'bloom')}
