from filegen import *

def look(rng, names, ngroups):
    n = rng.choice(names + [list(b"nothing"), [], rng.choice(names)[:-1], rng.choice(names) + [97]])
    return dict(rg=rng.randrange(ngroups), name=n, takes=[rng.choice([0, 0, 1, 2, 9]) for _ in range(rng.choice([1, 1, 2, 3]))] if rng.random() < .7 else [rng.choice([0, 100])],
                filter=rng.random() < .3, scratch=rng.choice([0, 5, 1000]), sizes=rng.choice([[], [1], [3, 1, 50], [7]]), cut=1 << 30)

def rand(rng):
    c = case(rng, ngroups=rng.choice([1, 1, 2]), smax=4, depth=2, zero=rng.random() < .3)
    if rng.random() < .3 and len(c["schema"]["f"]) > 1:      # fields of the same name
        c["schema"]["f"][rng.randrange(len(c["schema"]["f"]))]["n"] = c["schema"]["f"][0]["n"]
    names = [f["n"] for f in c["schema"]["f"]]
    c.update(far(rng))
    c["looks"] = [look(rng, names, sum(o[0] == "write" for o in c["ops"])) for _ in range(rng.choice([1, 2, 3]))]
    for q in c["looks"]:
        if rng.random() < .4:
            q["cut"] = rng.choice([rng.randint(0, 300), rng.randint(0, 3000)])
    return c

def scripted(rng, g):
    """leaves of the state machine: runs of leaves of the same owner are children of one field"""
    runs = []
    for l in g["leaves"]:
        if runs and runs[-1][0] == l["own"] and rng.random() < .8:
            runs[-1][1].append(l)
        else:
            runs.append((l["own"], [l]))
    leaf = lambda i: dict(n=list(b"l%d" % i), r=0, id=[], c=[], l=[], t=1, len=0)
    fields, cols = [], []
    for own, ls in runs:
        n = list(b"mine" if own == 1 else rng.choice([b"other", b"min", b"mine2", b"l0"]))
        if len(ls) == 1 and rng.random() < .5:
            f = dict(leaf(0), n=n)
        else:
            f = dict(n=n, r=0, id=[], c=[], l=[], f=[leaf(i) for i in range(len(ls))])
        fields.append(f)
        for l in ls:
            pages = [data_page(rng, dict(t=1, len=0), 3, 3) for _ in range(l["np"])]
            if pages and rng.random() < .3:
                b = body(rng)
                pages[0] = dict(p=dict(k=2, n=3, sorted=False, body=b), rows=[], us=len(b), codec=0) if len(pages) > 1 else pages[0]
            cols.append(dict(mode="comp", codec=rng.choice([[0], [1], [6]]), scratch=[], err=[], pages=pages))
    if not fields:
        return None
    takes = g["takes"] or [0]
    return dict(schema=dict(n=[115], f=fields), ver=1, ws=False, by=[], ops=[["write", dict(cols=cols)], ["end", []]], sink=NOSINK,
                looks=[dict(rg=0, name=list(b"mine"), takes=takes, filter=False, scratch=8, sizes=[], cut=1 << 30)], expect=[g["expect"], g["expect"]])

def visits(o):
    if not isinstance(o, dict) or "looks" not in o:
        return o
    q = o["looks"][0]
    f = lambda v: [[x["i"], len(x["pages"])] for x in v["cols"]] if "cols" in v else v
    return [f(q["file"]), f(q["mem"])]

def check(c):
    rng = c.rng
    gen = [scripted(rng, g) for g in c.gen("ColumnM", "ColumnM4.cfg" if c.thorough else "ColumnM3.cfg")]
    c.replay("cols", [g for g in gen if g], project=visits)
    c.judge("P18_J", "cols", [rand(rng) for _ in range(8000 if c.thorough else 700)])
