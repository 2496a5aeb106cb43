from filegen import *

def small_schema(rng):
    return dict(n=[115], f=[node(rng, 1, i, plain=True) for i in range(rng.choice([1, 1, 2]))])

def concrete(rng, s, k, ws):
    """a concrete call for an abstract one"""
    if k == "end":
        return ["end", kvs(rng)]
    g = group(rng, s, True if ws else rng.choice([None, True]), rows=rng.choice([1, 2, 7, 7, 0]))
    if k == "src":
        col = rng.choice(g["cols"])
        col["err"] = [rng.choice([-1, 0, len(col["pages"]), rng.randint(0, len(col["pages"]))])]
    elif k == "few":
        g["cols"].pop(rng.randrange(len(g["cols"])))
    elif k == "many":
        g["cols"].append(column(rng, g_leaf(s), 1, True))
    return ["write", g]

def g_leaf(s):
    return leaves(s["f"][0])[0]

def with_fault(rng, case, f, lens):
    """places the fault at a byte, given the sink's length after each call of the fault-free run"""
    if f["at"] == 0:
        return case
    j = f["at"] - 1
    lo, hi = (lens[j - 1] if j else 0), lens[j]
    sink = dict(case["sink"], transient=f["once"])
    if f["stage"] == "flush":
        sink["flush"] = True
    else:
        if f["stage"] == "start" or hi <= lo:
            at = lo
        elif f["stage"] == "last":
            at = hi - 1
        else:
            at = rng.randint(lo, hi - 1)
        sink["fail"] = [at]
    return dict(case, sink=sink)

def check(c):
    rng = c.rng
    scripts = c.gen("Writer", "Writer4.cfg" if c.thorough else "Writer3.cfg")
    rng.shuffle(scripts)
    if c.thorough:
        scripts = scripts[:9000]
    elif len(scripts) > 1300:
        scripts = scripts[:1300]
    base = []
    for x in scripts:
        s = small_schema(rng)
        ws = rng.random() < .5
        base.append(dict(schema=s, ver=rng.choice([1, 2]), ws=ws, by=[], ops=[concrete(rng, s, k, ws) for k in x["ops"]],
                         sink=dict(NOSINK, sizes=rng.choice([[], [], [1], [5, 2]])), modes=["sync", "async"], read=False))
    # where each call's bytes lie
    outs = c.run("file", [dict(b, modes=["sync"], sink=NOSINK) for b in base])
    cases = [with_fault(rng, b, x["fault"], o["sync"]["lens"] if "sync" in o else [0] * 9) for b, x, o in zip(base, scripts, outs)]
    # longer fault-free histories whose row groups cannot all be indexed, or whose pages are not all valid
    for _ in range(600 if c.thorough else 80):
        k = case(rng, modes=("sync", "async"), stw=False, ws=True, plain=True)
        if rng.random() < .5:
            k["ops"].insert(rng.randint(0, len(k["ops"])), ["end", []])
        if rng.random() < .3:
            k["ops"].append(["end", []])
        cases.append(k)
    c.judge("P03_J", "file", cases)
