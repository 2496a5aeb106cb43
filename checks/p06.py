from chunks import *

def check(c):
    rng = c.rng
    scripts = c.gen("ChunkM", "ChunkM3.cfg" if c.thorough else "ChunkM2.cfg")
    rng.shuffle(scripts)
    scripts = scripts[:30000 if c.thorough else 4000]
    cases, meta = [], []
    for x in scripts:
        k, ends = scripted(rng, x)
        cases.append(k)
        meta.append((x, ends))
    outs = c.run("chunk", cases)
    # the outcome the state machine predicts
    for k, o, (x, ends) in zip(cases, outs, meta):
        e = x["expect"]
        if not isinstance(o, dict) or "sync" not in o:
            continue
        s = o["sync"]
        n = len([y for y in s["events"] if "err" not in y])
        ended = not (s["events"] and "err" in s["events"][-1])
        pos = k["pos"] + ([0] + ends)[e["i"]]
        got = [n, ended] + ([s["pos"] == pos, len(s["filt"])] if ended else [])
        want = [len(e["out"]), e["st"] == "end"] + ([True, e["calls"]] if e["st"] == "end" else [])
        if got != want:
            c.violation("chunk", k, o, "pages, ending, position or filter calls differ from the state machine: %s instead of %s" % (got, want))
    c.judge("P06_J", "chunk", cases, outs=outs)
    c.judge("P06_J", "chunk", [rand_chunk(rng) for _ in range(15000 if c.thorough else 1500)])
    # no amount of skipped pages may exhaust the stack: judged by length of the events only
    k = many_filtered(rng, 60000)
    o = c.run("chunk", [k])[0]
    if not isinstance(o, dict) or "sync" not in o or len(o["sync"]["events"]) != 2:
        c.violation("chunk", k, {"outcome": str(o)[:300]}, "a chunk of 60000 pages of which two are accepted must yield two pages")
    c.traces += 1
