from chunks import *
import p03

def check(c):
    rng = c.rng
    # page streams of chunks, well-formed and not
    scripts = c.gen("ChunkM", "ChunkM2.cfg")
    rng.shuffle(scripts)
    cases = [scripted(rng, x)[0] for x in scripts[:20000 if c.thorough else 3000]]
    cases += [rand_chunk(rng) for _ in range(10000 if c.thorough else 1500)]
    c.judge("P05_J", "chunk", cases)
    # whole files
    files = []
    for _ in range(1500 if c.thorough else 200):
        files.append(case(rng, modes=("sync", "async"), read=read_opts(rng), zero=rng.random() < .2))
    for _ in range(1500 if c.thorough else 200):
        k = case(rng, modes=("sync", "async"), stw=False, plain=True)
        for op in k["ops"]:
            if op[0] == "write" and rng.random() < .4:
                col = rng.choice(op[1]["cols"])
                col["err"] = [rng.choice([-1, 0, len(col["pages"]), rng.randint(0, len(col["pages"]))])]
            elif op[0] == "write" and rng.random() < .2:
                op[1]["cols"].pop()
        if rng.random() < .3:
            k["ops"].append(["end", []])
        if rng.random() < .3:
            k["ops"].insert(0, ["end", []])
        files.append(k)
    files += [dict(long_bounds(rng, ws), modes=["sync", "async"]) for ws in (True, False)]
    c.judge("P05_J", "file", files)
