from filegen import *
import thrift as th

MAGIC = [80, 65, 82, 49]

def meta(rows=0, by=None, kv=None):
    """metadata of a file of one column without row groups"""
    t = ("f", [(1, th.I(1)), (2, ("l", "f", [("f", [(4, th.S(b"r")), (5, th.I(1))]), ("f", [(1, th.I(1)), (3, th.I(0)), (4, th.S(b"a"))])])),
               (3, th.L(rows)), (4, ("l", "f", [])),
               (5, None if kv is None else ("l", "f", [("f", [(1, th.S(k)), (2, None if x is None else th.S(x))]) for k, x in kv])),
               (6, None if by is None else th.S(by))])
    return th.val(t)

def footer(m, n=None, magic=MAGIC):
    return m + le((len(m) if n is None else n) % (1 << 32), 4) + magic

def k(rng, b, cuts, good, dmg=False):
    r = far(rng, pieces=[dict(b=b)] if b and not isinstance(b[0], dict) else b, cuts=cuts, good=good, dmg=dmg,
            sizes=rng.choice([[], [], [1], [3, 1, 50], [7, 0], [64]]), pos=rng.choice([0, 0, 1, 12, 5000]))
    if "far" in r:      # the end of the file is read as a whole
        r["sizes"] = rng.choice([[], [5000, 1, 700]])
    return r

def big(rng, n):
    """a file whose footer (metadata, length, magic) has exactly n bytes, the metadata being mostly a creator string"""
    base = len(meta(3, [120] * 200)) - 200 + 8   # a two byte length of the string
    size = n - base - (1 if n - base >= 16384 else 0)
    b = meta(3, [120] * size)
    assert len(b) + 8 == n, (len(b), n)
    at = len(meta(3, [120] * size)) - size - 1
    return [dict(b=b[:at]), dict(rep=[120, size]), dict(b=b[at + size:] + le(len(b), 4) + MAGIC)]

def check(c):
    rng = c.rng
    # every short history of writers and crashes of the state machine
    gen = c.gen("FooterM", "FooterM%d.cfg" % (5 if c.thorough else 4))
    cases = []
    for g in gen:
        end = g["toks"][-3:]
        ok = g["torn"] == 0 and end in (["A", "a", "M"], ["B", "b", "M"])
        n = len(g["bytes"])
        cases.append(dict(k(rng, g["bytes"] or [dict(b=[])], [n], [n] if ok else [])))
    if not c.thorough:
        lead = [x for x in cases if x["good"]]
        cases = lead + rng.sample(cases, 3000)
    else:
        cases = [x for x in cases if x["good"]] + rng.sample(cases, 40000)
    c.judge("P04_J", "open", cases)
    # files of the writer, cut at every byte
    src = [case(rng, ngroups=rng.choice([0, 1, 2])) for _ in range(200 if c.thorough else 30)]
    files = [(s, o["sync"]["sink"]) for s, o in zip(src, c.run("file", src)) if "sync" in o and all("ok" in x for x in o["sync"]["ops"])]
    cases = []
    for s, b in files:
        if len(b) < 4000 or c.thorough:
            cuts = list(range(len(b) + 1)) if len(b) < 1500 or c.thorough else sorted(rng.sample(range(len(b)), 1000) + list(range(len(b) - 300, len(b) + 1)))
            for i in range(0, len(cuts), 200):
                part = cuts[i:i + 200]
                cases.append(k(rng, b, part, [x for x in part if x == len(b)]))
    # a file that stores files: in a page body, in a key-value pair, in a creator, one after the other
    inner = [MAGIC + footer(meta(r, b"x" * r)) for r in (0, 1, 5)]
    for i, f in enumerate(inner):
        outer = MAGIC + f + footer(meta(7, None, [(b"file", f), (b"again", f)]))
        pos = [len(MAGIC) + len(f)]
        at = [j for j in range(len(outer)) if outer[j:j + len(f)] == f]
        cases.append(k(rng, outer, list(range(len(outer) + 1)), [j + len(f) for j in at] + [len(outer)]))
    # metadata lengths and magics that are off, bytes that are not a file, damaged metadata
    for _ in range(4000 if c.thorough else 600):
        m = meta(rng.randint(0, 3), rng.choice([None, b"me"]), rng.choice([None, [], [(b"k", None)], [(b"", b"v" * 130)]]))
        pre = rng.choice([[], MAGIC, MAGIC + rbytes(rng, 9), rbytes(rng, 3)])
        how = rng.randrange(7)
        good = False
        if how == 0:
            n = len(m) + rng.choice([-1, 1, -2, 4, 8, len(pre), len(pre) + 1, -len(m), 1 << 31, (1 << 31) - 1 - len(m), 1 << 24, -len(m) - 1])
            b = pre + footer(m, n)
        elif how == 1:
            b = pre + footer(m, magic=rng.choice([[80, 65, 82, 50], [80, 65, 82, 69], [0, 0, 0, 0], [81, 65, 82, 49], [80, 65, 82], [49, 82, 65, 80]]))
        elif how == 2:
            b = pre + footer(m) + rng.choice([[0], [10], MAGIC, [49]])
        elif how == 3:
            b = rbytes(rng, rng.randint(0, 30)) + rng.choice([[], MAGIC])
        elif how == 4:
            i = rng.randrange(len(m))
            m2 = list(m)
            m2[i] = rng.choice([0, 255, 128, m[i] ^ 1, m[i] ^ 16, m[i] ^ 128])
            b = pre + footer(m2)
        elif how == 5:
            b = pre + footer(m[:rng.randrange(len(m))] + rng.choice([[], [0]]))
        else:
            b, good = pre + footer(m), True
        cases.append(k(rng, b or [dict(b=[])], [len(b)], [len(b)] if good else [], how == 4))
    # many short items; footers around the size of the initial read
    for n in (10, 100, 700, 2000):
        b = MAGIC + footer(meta(1, None, [(b"", None)] * n))
        cases.append(k(rng, b, [len(b), len(b) - 1], [len(b)]))
    for n in (65527, 65528, 65529, 65535, 65536, 65537, 65540, 65544, 65545, 70000, 131072):
        for pre in ([], MAGIC, rbytes(rng, 30)):
            p = ([dict(b=pre)] if pre else []) + big(rng, n)
            t = len(pre) + n
            if t < 12:
                continue
            x = k(rng, p, [t, t - 1], [t])
            x["sizes"] = rng.choice([[], [4096], [65536, 1], [60000]])
            cases.append(x)
    c.judge("P04_J", "open", cases)
