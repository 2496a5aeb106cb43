from filegen import *

def check(c):
    rng = c.rng
    cases = []
    for _ in range(1500 if c.thorough else 220):
        cases.append(case(rng, modes=("sync", "async"), zero=rng.random() < .2))
    for n, g in ((rng.choice([127, 128, 130, 257]), 1), (1, rng.choice([127, 128, 130]))):
        cases.append(dict(many_columns(rng, n, rng.random() < .5, ngroups=g), modes=["sync", "async"], read=False))
    cases += [long_bounds(rng, True)]
    c.judge("P02_J", "file", cases)
    c.judge("P02_J", "large", [large(rng) for _ in range(300 if c.thorough else 40)])
    # more row groups than the 16 bits of their position count
    many = [dict(large(rng), groups=n, rows=k, group=[[]] if n > 1000 else [[], []]) for n, k in ((32770, 0), (2, 0))]
    for m, asy in zip(many, (rng.random() < .5, True)):
        m["schema"]["f"] = m["schema"]["f"][:len(m["group"])]
        m.update({"async": asy, "ws": False})
    c.judge("P02_J", "many", many)
