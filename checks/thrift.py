"""A writer of the compact protocol, to build inputs: values are ("i", n) zig-zag, ("b", bool), ("s", bytes), ("l", type, items), ("f", [(id, value)]), ("y", byte), ("d", 8 bytes)."""
def uleb(v):
    r = []
    while v >= 128:
        r.append(v & 127 | 128)
        v >>= 7
    return r + [v]

def zig(v):
    return uleb(((v << 1) ^ (v >> 63)) & ((1 << 64) - 1))

TY = {"i": 5, "i64": 6, "i16": 4, "s": 8, "l": 9, "f": 12, "y": 3, "d": 7}

def ty(v):
    return (1 if v[1] else 2) if v[0] == "b" else TY[v[0]]

def val(v):
    k = v[0]
    if k in ("i", "i64", "i16"):
        return zig(v[1])
    if k == "s":
        return uleb(len(v[1])) + list(v[1])
    if k == "y":
        return [v[1] & 255]
    if k == "d":
        return list(v[1])
    if k == "l":
        et = {"b": 1}.get(v[1]) or TY[v[1]]
        h = [len(v[2]) << 4 | et] if len(v[2]) < 15 else [0xF0 | et] + uleb(len(v[2]))
        return h + [x for i in v[2] for x in ([1 if i[1] else 2] if i[0] == "b" else val(i))]
    if k == "f":
        return struct(v[1])
    raise ValueError(k)

def struct(fields, stop=True):
    out, last = [], 0
    for i, v in fields:
        if v is None:
            continue
        d = i - last
        out += [d << 4 | ty(v)] if 0 < d < 16 else [ty(v)] + zig(i)
        if v[0] != "b":
            out += val(v)
        last = i
    return out + ([0] if stop else [])

def n2i(x):
    """a number of a case as an integer"""
    if "i" in x:
        return x["i"]
    v = int.from_bytes(bytes(x["big"]), "little")
    return v - (1 << 64) if v >= 1 << 63 else v

def opt(o, f):
    return f(o[0]) if o else None

S = lambda b: ("s", b)
I = lambda n: ("i", n)
L = lambda n: ("i64", n)

def stat(s):
    return ("f", [(1, opt(s["omax"], S)), (2, opt(s["omin"], S)), (3, opt(s["nc"], lambda x: L(n2i(x)))), (4, opt(s["dc"], lambda x: L(n2i(x)))),
                  (5, opt(s["max"], S)), (6, opt(s["min"], S))])

def page_header(p, us, cs, drop=None, type_=None, crc=None, stop=True):
    """the header of page p of a case, with declared sizes; drop: id of a field to leave out"""
    f = [(1, I(p["k"] if type_ is None else type_)), (2, I(us)), (3, I(cs))]
    if crc is not None:
        f.append((4, I(crc)))
    if p["k"] == 0:
        f.append((5, ("f", [(1, I(p["n"])), (2, I(p["enc"])), (3, I(p["de"])), (4, I(p["re"])), (5, opt(p["st"], stat))])))
    elif p["k"] == 2:
        f.append((7, ("f", [(1, I(p["n"])), (2, I(p.get("enc", 0))), (3, ("b", True) if p["sorted"] else None)])))
    else:
        f.append((8, ("f", [(1, I(p["n"])), (2, I(p["nulls"])), (3, I(p["nrows"])), (4, I(p["enc"])), (5, I(p["dl"])), (6, I(p["rl"])),
                            (7, opt(p["ic"], lambda b: ("b", b))), (8, opt(p["st"], stat))])))
    def strip(f):
        return [(i, v) for i, v in f if i != drop]
    if drop is not None and drop < 0:   # a required field of the inner header
        i, v = f[-1]
        f[-1] = (i, ("f", [(j, w) for j, w in v[1] if j != -drop]))
        drop = None
    return struct(strip(f), stop)
