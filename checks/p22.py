import mkfile
from damage import damage
from filegen import *
from mkfile import F, snappy
import thrift as th

LV = [6, 1]                      # three valid values

def page(k, f, sn):
    """bytes of a page of the state machine"""
    if k == "dict":
        b = [1, 0, 0, 0, 2, 0, 0, 0]
        c = snappy(b) if sn else b
        if f == "garbled":
            c = [255] * 9
        return th.val(F((1, th.I(2 if f != "head" else 77)), (2, th.I(len(b))), (3, th.I(len(c))), (7, F((1, th.I(2)), (2, th.I(0)))))) + c
    coded, v2 = k.startswith("coded"), k.endswith("2")
    vals = [1, 6, 1] if coded else [1, 0, 0, 0, 2, 0, 0, 0, 3, 0, 0, 0]
    if f == "values":
        vals = [33, 6, 1] if coded else vals[:-1]
    st = F((5, th.S(bytes(3 if f == "stats" else 4))))
    bad = 100 if f == "levels" else 0
    if v2:
        b = LV + vals
        c = LV + snappy(vals) if sn else b
        if f == "garbled":
            c = LV + [255] * 9
        h = (8, F((1, th.I(3)), (2, th.I(0)), (3, th.I(3)), (4, th.I(8 if coded else 0)), (5, th.I(2 + bad)), (6, th.I(0)), (8, st)))
    else:
        b = [2 + bad, 0, 0, 0] + LV + vals
        c = snappy(b) if sn else b
        if f == "garbled":
            c = [255] * 9
        h = (5, F((1, th.I(3)), (2, th.I(2 if coded else 0)), (3, th.I(3)), (4, th.I(3)), (5, st)))
    return th.val(F((1, th.I(77 if f == "head" else 3 if v2 else 0)), (2, th.I(len(b))), (3, th.I(len(c))), h)) + c

def scripted(rng, x):
    sn = x["f"] == "garbled" or (x["f"] != "levels" and rng.random() < .5)
    body, n = [], 1 if x["short"] else 0
    for j, k in enumerate(x["pages"]):
        body += page(k, x["f"] if j + 1 == x["at"] else "none", sn)
        n += 3 * (k != "dict")
    md = F((1, th.I(1)), (2, ("l", "i", [th.I(0)])), (3, ("l", "s", [th.S(b"a")])), (4, th.I(1 if sn else 0)), (5, th.L(n)), (6, th.L(len(body))), (7, th.L(len(body))), (9, th.L(4)))
    m = th.val(F((1, th.I(2)), (2, ("l", "f", [F((4, th.S(b"r")), (5, th.I(1))), F((1, th.I(1)), (3, th.I(1)), (4, th.S(b"a")))])), (3, th.L(n)),
                 (4, ("l", "f", [F((1, ("l", "f", [F((2, th.L(4)), (3, md))])), (2, th.L(len(body))), (3, th.L(n)))]))))
    return dict(bytes=[80, 65, 82, 49] + body + m + le(len(m), 4) + [80, 65, 82, 49], heads=dict(page=[], loc=[], ix=[], bloom=[]), sizes=rng.choice([[], [], [1], [7, 3]]), bloom=[])

def check(c):
    rng = c.rng
    runs = c.gen("PipelineM", "PipelineM4.cfg" if c.thorough else "PipelineM3.cfg")
    runs = rng.sample(runs, min(len(runs), 30000 if c.thorough else 3000))
    cases = [scripted(rng, x["chunk"]) for x in runs]
    for x, k, o in zip(runs, cases, c.run("damage", cases, mem=1 << 30)):
        c.traces += 1
        try:
            col = o["cols"][0]
            n = len(x["expect"])
            err = [y == ["error"] for y in x["expect"]]
            ok = col["use"] == x["expect"] and col["asame"] and [("err" in e) for e in col["direct"]] == err and [("err" in e) for e in col["read"]] == err
        except (KeyError, IndexError, TypeError):
            ok = False
        if not ok:
            c.violation("damage", dict(k, script=x), o, "stages differ from the state machine's")
    src = [case(rng, ngroups=rng.choice([1, 1, 2])) for _ in range(1000 if c.thorough else 200)]
    files = [o["sync"]["sink"] for o in c.run("file", src) if "sync" in o and all("ok" in x for x in o["sync"]["ops"])]
    files = [b for b in files if len(b) < 4000]
    files += [mkfile.build(rng, [mkfile.column(rng) for _ in range(rng.choice([1, 1, 2, 3]))]) for _ in range(len(files) * 3)]
    cases = []
    for _ in range(30000 if c.thorough else 3000):
        b, heads = damage(rng, rng.choice(files))
        cases.append(dict(bytes=b, heads=heads, sizes=rng.choice([[], [], [1], [7, 3]]), bloom=rng.choice([[], [], [rng.randint(-3, len(b) + 3)], [1 << 40]])))
    c.judge("P22_J", "damage", cases, outs=c.run("damage", cases, mem=1 << 30))
