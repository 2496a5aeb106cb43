from filegen import *

REP = ["required", "optional", "repeated"]
TY = ["boolean", "int32", "int64", "int96", "float", "double", None, "fixed_len_byte_array"]
CONV = {0: "utf8", 7: "time_millis", 8: "time_micros", 9: "timestamp_millis", 10: "timestamp_micros", 11: "uint_8", 12: "uint_16", 13: "uint_32",
        14: "uint_64", 15: "int_8", 16: "int_16", 17: "int_32", 18: "int_64"}
GC = {1: "map", 2: "map_key_value", 3: "list"}
UNIT = dict(ms="millis", us="micros", ns="nanos")
NAMES = ["a", "b", "col_1", "x.y", "é€", "required", "group", "int32", "message", "12", "-", "UTF8", "a-b:c", "[x]", "List", "\"q\"", "日本", "true", "ß"]

def kw(rng, s):
    m = rng.randrange(4)
    return s.upper() if m == 0 else s if m == 1 else "".join(rng.choice([c.upper(), c]) for c in s)

def number(rng, n):
    return rng.choice([str(n)] * 6 + [("+%d" % n if n >= 0 else str(n)), ("0%d" % n if n >= 0 else "-0%d" % -n)])

def annotation(rng, x):
    b = lambda z: kw(rng, "true" if z else "false")
    l, c = x["l"], x["c"]
    if l:
        k = [kw(rng, l[0].lower())]
        if l[0] == "DECIMAL":
            k += ["(", number(rng, l[1])] + ([",", number(rng, l[2])] if l[2] or rng.random() < .5 else []) + [")"]
        elif l[0] in ("TIME", "TIMESTAMP"):
            if l[1] == "ms" and not l[2] and rng.random() < .4:
                pass
            else:
                k += ["(", kw(rng, UNIT[l[1]])] + ([",", b(l[2])] if l[2] or rng.random() < .5 else []) + [")"]
        elif l[0] == "INTEGER":
            k += ["(", number(rng, l[1]), ",", b(l[2]), ")"]
        return ["("] + k + [")"]
    if c:
        return ["(", kw(rng, CONV[c[0]]), ")"]
    return []

def spell(rng, x):
    ident = ["=", number(rng, x["id"][0])] if x["id"] else []
    head = [kw(rng, REP[x["r"]])]
    n = [rng.choice(NAMES) if rng.random() < .7 else bytes(x["n"]).decode().replace(" ", "_")]
    if "f" in x:
        return head + [kw(rng, "group")] + n + (["(", kw(rng, GC[x["c"][0]]), ")"] if x["c"] else []) + ident + ["{"] + [t for f in x["f"] for t in spell(rng, f)] + ["}"]
    ty = TY[x["t"]] or rng.choice(["byte_array", "binary"])
    return head + [kw(rng, ty)] + (["(", number(rng, x["len"]), ")"] if x["t"] == 7 else []) + n + annotation(rng, x) + ident + [";"]

def expressible(rng, x, hollow=.06):
    x["l"] = x["l"] if "f" not in x else []
    if "f" in x:
        for f in x["f"]:
            expressible(rng, f, hollow)
        if rng.random() < hollow:
            x["f"] = []
    elif x["c"]:
        if x["c"][0] not in CONV or x["l"]:
            x["c"] = []
    return x

EXTRA = ["(", ")", "{", "}", "=", ",", ";", "required", "optional", "GROUP", "int32", "INT64", "binary", "fixed_len_byte_array", "DECIMAL", "time", "timestamp", "INTEGER",
         "string", "MAP", "list", "map_key_value", "uuid", "UTF8", "int_8", "nanos", "true", "False", "8", "16", "24", "-1", "+", "0", "1e3", "2147483647", "2147483648",
         "-2147483648", "-2147483649", "99999999999", "x", "message", "enum", "DATE", "unknown", "json", "interval_", "NULL", "requiredX", "é"]
DELIM = set(";{}()=,")

def text(rng, s=None):
    if s is None and rng.random() < .01:
        toks = [rng.choice(EXTRA) for _ in range(rng.randint(0, 8))]
        return "".join(t + " " for t in toks)
    huge = s is not None
    s = s or schema(rng, maxf=4, depth=rng.choice([0, 1, 2, 3]))
    toks = ["message", rng.choice(NAMES), "{"] + [t for f in s["f"] for t in spell(rng, expressible(rng, f, 0 if huge else .06))] + ["}"]
    for _ in range(rng.choice([0, 0, 0, 1, 1, 1, 2, 3]) if not huge else 0):
        k = rng.randrange(len(toks) + 1)
        m = rng.randrange(6)
        if m == 0 and k < len(toks):
            del toks[k]
        elif m == 1:
            toks.insert(k, rng.choice(EXTRA))
        elif m == 2 and k < len(toks):
            toks[k] = rng.choice(EXTRA)
        elif m == 3 and k + 1 < len(toks):
            toks[k], toks[k + 1] = toks[k + 1], toks[k]
        elif m == 4 and k < len(toks):
            toks.insert(k, toks[k])
        elif m == 5 and k < len(toks) and toks:
            j = rng.randrange(len(toks))
            toks[k], toks[j] = toks[j], toks[k]
        if not toks:
            toks = ["message"]
    out = rng.choice(["", "", " ", "\n"])
    dense = rng.random() < .5
    for k, t in enumerate(toks):
        out += t
        near = k + 1 < len(toks) and (t in DELIM or toks[k + 1] in DELIM)
        if not (near and (dense or rng.random() < .3)):
            out += rng.choice([" ", " ", "  ", "\n", "\t", "\r\n", " \n  ", "\x0c", "\x0b"])
    if rng.random() < .1 and out:
        k = rng.randrange(len(out))
        out = out[:k] + rng.choice(["", ";", " ", "}", "_", "0"]) + out[k + rng.choice([0, 1]):]
    return out

def check(c):
    rng = c.rng
    proj = lambda o: [o["schema"]] if isinstance(o, dict) and "schema" in o else [] if isinstance(o, dict) and "err" in o else o
    c.replay("message", c.gen("MessageM", "MessageMT.cfg" if c.thorough else "MessageMQ.cfg"), project=proj)
    texts = [text(rng, f(rng, n)) for f, n in ((wide, 128), (wide, 300), (deep, 90))]
    texts += [text(rng) for _ in range(24000 if c.thorough else 6000)]
    c.judge("P20_J", "message", [dict(text=list(text(rng, deep(rng, n)).encode()), only=1) for n in (127, 130, 260)])
    c.judge("P20_J", "message", [dict(text=list(t.encode())) for t in texts if "INTERVAL" not in t.upper()])
