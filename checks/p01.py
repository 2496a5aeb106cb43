from filegen import *

def check(c):
    rng = c.rng
    cases = []
    for _ in range(1500 if c.thorough else 250):
        cases.append(case(rng, modes=("sync",) if rng.random() < .8 else ("async",), zero=rng.random() < .2, read=read_opts(rng)))
    # pages of more than 64 KiB
    for codec in [[0], [1], [6]] + ([[2], [4], [7]] if c.thorough else []):
        k = case(rng, modes=(rng.choice(["sync", "async"]),), ngroups=1, read=dict(read_opts(rng), sizes=rng.choice([[], [5000, 1, 70000]])))
        cols = [x for o in k["ops"] if o[0] == "write" for x in o[1]["cols"]]
        for col in cols[:1]:
            for p in [p for p in col["pages"] if "p" in p][:2]:
                n = rng.choice([65536, 65537, 70000])
                p["p"]["body"] = (rbytes(rng, 7) * (n // 7 + 1))[:n] if rng.random() < .7 else rbytes(rng, n)
                p["us"] = n
                if codec != [0]:
                    col["codec"], p["codec"] = codec, 0
        cases.append(k)
    cases.append(many_columns(rng, rng.choice([127, 128, 130, 257]), rng.random() < .5))
    cases.append(many_columns(rng, 1, True, ngroups=rng.choice([127, 128, 130])))
    cases += [long_bounds(rng, ws) for ws in (True, False)]
    c.judge("P01_J", "file", cases)
    c.judge("P01_J", "large", [large(rng) for _ in range(200 if c.thorough else 25)])
