from filegen import *

def sels(rng):
    out = []
    for _ in range(6):
        ix = [rng.randrange(60) for _ in range(rng.choice([0, 1, 1, 2, 3, 5]))]
        if rng.random() < .3:
            ix = sorted(ix)
        if rng.random() < .3:
            a = rng.randrange(4)
            ix = list(range(a, a + rng.randint(1, 4)))
        out.append(dict(ix=ix, strip=[rng.randrange(4)] if rng.random() < .25 else []))
    return out

def check(c):
    rng = c.rng
    cases = []
    for _ in range(1500 if c.thorough else 250):
        ws = rng.random() < .7
        full = rng.random() < .85
        ro = read_opts(rng)
        ro["sels"] = sels(rng)
        cases.append(case(rng, ngroups=rng.choice([0, 1, 1, 2, 3]), modes=["sync" if rng.random() < .7 else "async"], ws=ws,
                          stw=True if full else False, zero=rng.random() < .3, read=ro))
    c.judge("P07_J", "file", cases)
    c.judge("P07_J", "file", [many_pages(rng, n, ws) for ws in (True, False) for n in (130, 300)])
    c.judge("P07_J", "file", [many_pages(rng, 900, True)])
    c.judge("P07_J", "file", [long_bounds(rng, ws) for ws in (True, True, False)])
    c.judge("P07_J", "large", [large(rng) for _ in range(200 if c.thorough else 30)])
