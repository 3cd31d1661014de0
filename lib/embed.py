"""Embeds abstract histories into concrete jobs of the conformance harness: which key type and keys, which
collection types, hashers, construction routes and insertion orders the abstract keys and objects stand for."""
import universe as U

VEC_ONLY = {"lm16", "lm32", "lmz"}          # these maps have one constructor
ARRAYS = {"facade": {0, 1, 2, 3, 4, 5, 8, 16, 100, 255, 256}}
FEW = {0, 3, 16}
HOWS = ["fold", "each", "coll", "ext", "try", "all", "chain", "step", "peek", "dbg"]   # ways to take everything an iterator still has
BEYOND = ["M0", "M0", "M1", "M2", "M7", "H0", "H1", "H3", "D0", "D1", "D2", "S0", "S1", "S2"]   # amounts near the limits of the integer types
NO_DEBUG = {"fs", "fr", "hs", "bt"}


def routes(binary, t, code, n):
    base = code.split("@")[0]
    if base in ("hs", "bt") or (binary == "specs" and base == "fs") or (binary == "specm" and base in VEC_ONLY):
        return ["vec"]
    r = ["vec", "iter", "lazy"]
    if n in ARRAYS.get(binary, FEW):
        r.append("arr")
    if binary == "facade" and n == 0:
        r.append("dflt")
    return r


def route_for(binary, t, key, code, n, rng):
    rs = routes(binary, t, code, n)
    return rng.choice(rs)


def with_range(code, rng):
    return code + "@" + rng.choice(U.RANGES) if U.is_slice(code) else code


def hasher(n, rng, pool=None):
    h = rng.choice(pool or U.HASHERS)
    if n > 60 and h in ("zero", "max", "two"):
        h = "low"
    return h


def pay_text(e):
    if "lo" in e:
        return "%d-%d" % (e["lo"], e["hi"])
    return ",".join("%d:%d" % (k, v) for k, v in e["pay"]) or "e"


def pay_keys(e):
    return list(range(e["lo"], e["hi"] + 1)) if "lo" in e else [k for k, _ in e["pay"]]


def build_op(binary, key, e, code, rng, hm=None, order=None, route=None):
    ks = pay_keys(e)
    distinct = len(set(ks)) == len(ks)
    n = len(ks)
    if order is None or not distinct:
        order = rng.choice(U.ORDERS) if distinct else "asc"
    if route is None:
        route = route_for(binary, e["t"], key, code, n, rng)
    return "b %d %s %s %s %s %s %s %d %d" % (e["o"], e["t"], code, pay_text(e), route, hm or hasher(n, rng), order, U.limit(code),
                                          1 if binary == "ranges" and code not in ("hs", "bt") else 0)


def csv(x):
    return ",".join(map(str, x))


def embed(hist, binary, key, rng, fam=None, code=None, mixed=False, std=False, nabs=8, hm=None, pool=None):
    """The job line for one history, or None if the collections of `binary` lack some operation in it."""
    maps, sets = U.MAPS.get(binary, {}).get(key, []), U.SETS.get(binary, {}).get(key, [])
    kind, left, right, special = {}, set(), set(), set()
    kinds = {e["t"] for e in hist if e["op"] == "build"}
    n = 0
    for e in hist:
        op = e["op"]
        if op == "build":
            n = max([n] + pay_keys(e))
        elif op in ("clone", "assign"):
            special |= {e["o"], e["p"]}
        elif op in ("eq", "rel", "sop", "icomb"):
            left.add(e["a"])
            right.add(e["b"])
        elif "o" in e:
            special.add(e["o"])
    if ("map" in kinds and not maps) or ("set" in kinds and not sets):
        return None
    mcode = code if code in maps else (rng.choice(maps) if maps else None)
    scode = code if code in sets else (rng.choice(sets) if sets else None)
    mcode, scode = mcode and with_range(mcode, rng), scode and with_range(scode, rng)
    codes = {}

    def choose(o, t):
        if t == "map":
            return mcode
        if std and o not in left and o not in special and rng.random() < 0.4:
            return rng.choice([c for c in ("hs", "bt") + (("fs",) if binary == "specs" and key in ("u32", "string", "tag") else ())])
        if mixed and o not in special and binary != "facade":
            return with_range(rng.choice(sets), rng)
        return scode
    fam = fam or rng.choice(U.RANGE_FAMS if binary == "ranges" else U.fams(key))
    ordered = any(e["op"] in ("inth", "ilast") or (e["op"] == "inew" and e["via"] == "vals") for e in hist)
    ops = []
    for e in hist:
        op = e["op"]
        o = e.get("o")
        if op == "build":
            kind[o] = e["t"]
            codes[o] = choose(o, e["t"])
            if binary != "facade" and binary != "ranges":
                ks = pay_keys(e)
                if len(set(ks)) != len(ks) and codes[o] not in ("hs", "bt", "fs"):
                    return None   # specialized collections are given distinct keys
            ops.append(build_op(binary, key, e, codes[o], rng, hm=hm or hasher(n, rng, pool)))
            if ordered and codes[o] not in ("hs", "bt"):
                ops.append("it %d %s" % (o, "iter" if kind[o] == "map" else "siter"))
        elif op == "clone":
            ops.append("co %d %d" % (o, e["p"]))
            codes[e["p"]] = codes[o]
            kind[e["p"]] = kind[o]
            if ordered:
                ops.append("it %d %s" % (e["p"], "iter" if kind[o] == "map" else "siter"))
        elif op == "assign":
            ops += ["as %d %d" % (o, e["p"])] if codes[o] == codes[e["p"]] else ["d %d" % e["p"], "co %d %d" % (o, e["p"])]
            codes[e["p"]] = codes[o]
            if ordered:
                ops.append("it %d %s" % (e["p"], "iter" if kind[o] == "map" else "siter"))
        elif op == "get":
            ops.append("g %d %s %s" % (o, e["via"], csv(e["ks"])))
        elif op == "gall":
            ops.append("ga %d %s" % (o, e["via"]))
        elif op == "len":
            ops.append("l %d" % o)
        elif op == "set":
            ops.append("s %d %s %d %d" % (o, e["via"], e["k"], e["v"]))
        elif op == "many":
            ops.append("m %d %s %s" % (o, csv(e["ks"]), csv(e["ws"])))
        elif op in ("iter", "inew"):
            c = codes[o].split("@")[0]
            if e["via"] == "into" and (binary == "facade" or c in ("hs", "bt", "fs")):
                return None
            if e["via"] == "sdbg" and c in NO_DEBUG:
                return None
            if e["via"] in ("vals", "ref", "keys", "iter", "dbg") and kind[o] != "map":
                return None
            ops.append("it %d %s" % (o, e["via"]) if op == "iter" else "in %d %d %s" % (e["i"], o, e["via"]))
        elif op == "icomb":
            ops.append("ic %d %s %d %d" % (e["i"], e["kind"], e["a"], e["b"]))
        elif op == "inext":
            ops.append("nx %d" % e["i"])
        elif op == "inth":
            ops.append("nt %d %s" % (e["i"], e["m"] if e["m"] < 1000000 else rng.choice(BEYOND)))
        elif op == "ihint":
            ops.append("h %d" % e["i"])
        elif op == "ilen":
            ops.append("el %d" % e["i"])
        elif op == "icnt":
            ops.append("c %d" % e["i"])
        elif op == "ifold":
            ops.append("f %d %s" % (e["i"], rng.choice(HOWS)))
        elif op == "ilast":
            ops.append("la %d" % e["i"])
        elif op == "iclone":
            ops.append("cl %d %d" % (e["i"], e["j"]))
        elif op == "idrop":
            ops.append("id %d" % e["i"])
        elif op in ("eq", "rel"):
            rel = e.get("rel", "eq")
            ca, cb = codes[e["a"]], codes[e["b"]]
            if (op == "eq" or rel == "eq") and ca != cb and (binary == "facade" or ca in ("hs", "bt", "fs")):
                return None
            if ca in ("hs", "bt"):
                return None
            ops.append("e %d %d" % (e["a"], e["b"]) if op == "eq" else "r %d %d %s" % (e["a"], e["b"], rel))
        elif op == "sop":
            if codes[e["a"]] in ("hs", "bt"):
                return None
            ops.append("so %d %d %s %s" % (e["a"], e["b"], e["kind"], e["form"]))
        elif op == "drop":
            ops.append("d %d" % o)
        else:
            raise ValueError(op)
    return "%s %s %d %d %d|%s" % (key, fam, n, nabs, rng.randrange(1 << 30), "|".join(ops))


def probe(binary, t, key, code, fam, n, ops, rng, nabs=10, hm=None, order=None, route=None, pay=None):
    """One collection of `n` keys (or the given payload), and the same operations on it."""
    e = {"op": "build", "o": 1, "t": t}
    if pay is None:
        e.update(lo=1, hi=n)
    else:
        e.update(pay=pay)
    b = build_op(binary, key, e, with_range(code, rng) if "@" not in code else code, rng, hm=hm, order=order, route=route)
    return "%s %s %d %d %d|%s|%s" % (key, fam, n, nabs, rng.randrange(1 << 30), b, "|".join(ops))
