"""Per property: which model is checked exhaustively, which histories TLC generates, how they are embedded into the
implementation, which systematic scenarios are added, and which rejected events are a violation of the property."""
import itertools
import universe as U
from embed import BEYOND, HOWS, probe, with_range, routes, build_op

MV = ["get", "gm", "gkv", "has", "idx", "im"]
SV = ["sget", "shas"]
MI = ["iter", "ref", "keys", "vals", "dbg"]
SI = ["siter", "sref", "into", "sdbg"]
KINDS = ["un", "in", "di", "sd"]
DUPS = [((1, 1), (2, 2), (1, 100001)), ((1, 1), (1, 100001)), ((2, 2), (1, 1), (3, 3), (2, 100002)), (),
        ((3, 3), (3, 100003), (3, 200003)), ((1, 1), (2, 2), (3, 3), (1, 100001), (2, 100002), (3, 100003)),
        ((4, 4), (1, 1), (4, 100004), (2, 2), (4, 200004), (3, 3), (5, 5), (1, 100001))]
IV = [(1, 0), (1, 1), (1, 3), (2, 3), (2, 6), (4, 6), (1, 9), (6, 20), (5, 5)]
BIGIV = [(1, 0), (1, 40), (20, 60), (40, 40), (41, 60), (1, 150), (60, 150), (140, 300), (1, 12), (7, 9)]


# ------------------------------------------------------------------ models (exhaustive)
M_MAP = dict(Ops=["build", "buildp", "get", "set", "many", "len", "clone", "assign", "drop"], Sizes=[0, 2], Pays=DUPS[:2], Types=["map"],
             Vias=["get", "gkv", "im"], MaxObj=2, Absent=1, Depth=4)
M_SET = dict(Ops=["builds", "rel", "sop", "eq", "get", "len"], SetPays=[(1, 0), (1, 2), (2, 3), (1, 3), (4, 4)], Types=["set"], Vias=SV,
             Kinds=KINDS, MaxObj=2, Absent=1, Depth=4)
M_ITER = dict(Ops=["build", "inew", "inext", "iobs", "inth", "iclone", "idrop", "iter"], Sizes=[0, 2], Types=["map", "set"],
              IVias=["iter", "vals", "siter", "into"], MaxObj=1, MaxIt=2, Depth=6)
M_COMB = dict(Ops=["builds", "icomb", "inext", "iobs", "inth", "iclone"], SetPays=[(1, 0), (1, 2), (2, 3)], Types=["set"], Kinds=KINDS, MaxObj=2,
              MaxIt=2, Depth=6)
M_ALL = dict(Ops=["build", "get", "set", "many", "len", "iter", "clone", "assign", "drop", "eq", "inew", "inext", "iobs"], Sizes=[1, 2], Types=["map"],
             Vias=["get"], IVias=["iter"], MaxObj=2, MaxIt=1, Absent=1, Depth=4)
M_DUP = dict(Ops=["buildp", "get", "len", "iter", "eq", "set"], Pays=DUPS[:5], Types=["map", "set"], Vias=["get", "sget"], IVias=["iter", "siter"],
             MaxObj=2, Absent=1, Depth=4)
MODELS = dict(map=M_MAP, set=M_SET, iter=M_ITER, comb=M_COMB, all=M_ALL, dup=M_DUP)

# ------------------------------------------------------------------ histories
S_SMALL, S_MIX = [0, 1, 2, 3, 4, 6], [0, 1, 2, 3, 5, 7, 9, 16, 40, 140]
H = {
    # name: (configuration, how)
    "get": (dict(Ops=["build", "buildp", "get"], Sizes=S_MIX, Pays=DUPS, Types=["map"], Vias=MV, MaxObj=2, Absent=6, Depth=9), "sim"),
    "upd": (dict(Ops=["build", "get", "set", "many", "len", "iter"], Sizes=S_MIX, Types=["map"], Vias=MV, IVias=MI, MaxObj=1, Absent=4, Depth=14), "sim"),
    "upd2": (dict(Ops=["build", "set", "many", "get", "iter"], Sizes=[3], Types=["map"], Vias=["get"], IVias=["vals"], MaxObj=1, Absent=1, Depth=4), "sim"),
    "many": (dict(Ops=["build", "many", "get"], Sizes=[0, 1, 2, 3, 4, 5, 9, 20, 130], Types=["map"], Vias=["get"], MaxObj=1, Absent=3, Depth=8), "sim"),
    "many2": (dict(Ops=["build", "many"], Sizes=[0, 1, 2, 3], Types=["map"], MaxObj=1, Absent=2, Depth=2), "all"),
    "iter": (dict(Ops=["build", "inew", "inext", "inext", "iobs", "inth", "iclone", "idrop", "iter", "len"], Sizes=[0, 1, 2, 3, 4, 5, 9, 30], Types=["map", "set"],
                  IVias=MI + SI, MaxObj=1, MaxIt=3, Depth=16), "sim"),
    "iter2": (dict(Ops=["build", "inew", "inext", "iobs"], Sizes=[0, 1, 2], Types=["map", "set"], IVias=["iter", "vals", "keys", "siter", "into"],
                   MaxObj=1, MaxIt=1, Depth=5), "all"),
    "comb": (dict(Ops=["builds", "icomb", "inext", "iobs", "inth", "iclone"], SetPays=IV, Types=["set"], Kinds=KINDS, MaxObj=2, MaxIt=2, Depth=14), "sim"),
    "comb2": (dict(Ops=["builds", "icomb", "inext", "iobs"], SetPays=[(1, 0), (1, 1), (1, 2), (2, 3)], Types=["set"], Kinds=KINDS, MaxObj=2, MaxIt=1, Depth=5), "all"),
    "sop": (dict(Ops=["builds", "sop"], SetPays=IV, Types=["set"], Kinds=KINDS, MaxObj=2, Depth=3), "all"),
    "sopbig": (dict(Ops=["builds", "sop"], SetPays=BIGIV, Types=["set"], Kinds=KINDS, MaxObj=2, Depth=3), "all"),
    "rel": (dict(Ops=["builds", "rel", "eq"], SetPays=IV, Types=["set"], MaxObj=2, Depth=3), "all"),
    "relbig": (dict(Ops=["builds", "rel", "eq"], SetPays=BIGIV, Types=["set"], MaxObj=2, Depth=3), "all"),
    "setmix": (dict(Ops=["builds", "sop", "rel", "eq", "get", "len", "iter", "icomb", "inext"], SetPays=IV, Types=["set"], Kinds=KINDS, Vias=SV, IVias=["siter", "sref"],
                    MaxObj=3, MaxIt=2, Absent=3, Depth=9), "sim"),
    "sget": (dict(Ops=["build", "buildp", "get", "len"], Sizes=S_MIX, Pays=DUPS, Types=["set"], Vias=SV, MaxObj=2, Absent=6, Depth=8), "sim"),
    "eq": (dict(Ops=["build", "buildp", "set", "many", "eq", "clone"], Sizes=[0, 1, 2, 3], Pays=DUPS[:3], Types=["map"], MaxObj=2, Absent=1, Depth=8), "sim"),
    "eqbig": (dict(Ops=["build", "set", "eq", "clone"], Sizes=[9, 10, 130], Types=["map"], MaxObj=2, Absent=1, Depth=8), "sim"),
    "eqsub": (dict(Ops=["buildp", "eq"], Pays=[(), ((1, 1),), ((2, 2),), ((1, 1), (2, 2)), ((2, 2), (1, 1)), ((1, 1), (2, 1)), ((1, 2), (2, 1)), ((1, 1), (3, 3)),
                                              ((2, 2), (3, 3), (1, 1)), ((1, 1), (2, 2), (3, 3)),
                                              ((1, 2), (2, 2)), ((2, 2), (3, 2)), ((2, 1), (3, 2)), ((2, 1), (1, 2)), ((3, 1), (4, 2)), ((1, 1), (2, 2), (4, 4)), ((1, 1), (2, 2), (3, 3), (4, 4)), ((1, 100001), (2, 2)),
                                              ((1, 400001), (2, 2)), ((1, 1), (2, 400002)), ((1, 1000001), (2, 2)), ((1, 1), (2, 1000002))],
                   Types=["map"], MaxObj=2, Depth=3), "all"),
    "clone": (dict(Ops=["build", "clone", "assign", "get", "gall", "set", "many", "len", "iter", "eq", "drop"], Sizes=[0, 1, 2, 3, 5, 9, 30], Types=["map", "set"], Vias=["get", "idx", "sget", "shas"],
                   IVias=["iter", "vals", "siter", "into"], MaxObj=3, Absent=2, Depth=12), "sim"),
    "clone2": (dict(Ops=["build", "clone", "assign", "set", "drop", "gall"], Sizes=[2], Types=["map"], Vias=["get"], MaxObj=2, Absent=1, Depth=5), "all"),
    "dup": (dict(Ops=["buildp", "get", "gall", "len", "iter", "eq", "rel", "sop", "set", "clone"], Pays=DUPS, Types=["map", "set"], Vias=["get", "has", "sget", "shas"], Kinds=KINDS,
                 IVias=["iter", "vals", "dbg", "siter"], MaxObj=2, Absent=3, Depth=9), "sim"),
    "mix": (dict(Ops=["build", "get", "gall", "set", "many", "len", "iter", "eq", "clone", "drop", "inew", "inext", "iobs", "iclone"], Sizes=S_MIX, Types=["map"], Vias=MV,
                 IVias=MI, MaxObj=2, MaxIt=2, Absent=4, Depth=16), "sim"),
    "mixs": (dict(Ops=["builds", "get", "gall", "len", "iter", "eq", "rel", "sop", "clone", "drop", "inew", "icomb", "inext", "iobs", "iclone"], SetPays=IV, Types=["set"], Vias=SV,
                  IVias=SI, Kinds=KINDS, MaxObj=3, MaxIt=2, Absent=4, Depth=16), "sim"),
    "reads": (dict(Ops=["build", "get", "gall", "len", "iter", "eq", "inew", "inext", "iobs"], Sizes=S_MIX, Types=["map", "set"], Vias=["get", "gkv", "has", "idx"] + SV,
                   IVias=MI + ["siter", "sref"], MaxObj=1, MaxIt=2, Absent=4, Depth=16), "sim"),
}

GETALL = ["l 1"] + ["ga 1 " + v for v in MV]
SGETALL = ["l 1", "ga 1 sget", "ga 1 shas"]
CONTENT = {"map": ["l 1", "it 1 iter", "ga 1 get"], "set": ["l 1", "it 1 siter", "ga 1 sget"]}
ITERALL = {"map": ["l 1"] + ["it 1 " + v for v in ("iter", "keys", "vals", "ref", "dbg", "iter")],
           "set": ["l 1", "it 1 siter", "it 1 sref"]}

SIZES_Q = [0, 1, 2, 3, 4, 5, 7, 8, 9, 17, 40, 100, 127, 128, 129, 254, 255, 256, 257]
SIZES_T = list(range(0, 34)) + [39, 40, 41, 63, 64, 65, 100, 126, 127, 128, 129, 130, 200, 254, 255, 256, 257, 300, 511, 512, 600]
BIG = [999, 1000, 1001, 1030, 1500, 2100]


def codes_of(binary, t):
    T = U.MAPS if t == "map" else U.SETS
    for key, codes in T.get(binary, {}).items():
        for c in codes:
            yield key, c


def fams_of(binary, key):
    return U.RANGE_FAMS if binary == "ranges" else U.fams(key)


def stratified(grid, stratum, cap, rng):
    """one of every stratum, then others at random, about `cap` in all"""
    per = {}
    for g in grid:
        per.setdefault(stratum(g), []).append(g)
    first = [rng.choice(v) for v in per.values()]
    if len(first) >= cap:
        return first
    have = set(first)
    rest = [g for g in grid if g not in have]
    return first + rng.sample(rest, min(cap - len(first), len(rest)))


WIDE = [9, 17, 34, 70, 130]   # what the harness has multi-gets for, besides 0 to 5
HUGE = [65535, 65536, 65537, 66000, 70000]
HUGE_FAMS = {"string": ["seq", "seqv", "rand", "path"], "u32": ["twinn", "step2", "sparse", "primes", "hole", "outlier"],
             "u64": ["twinn", "step2", "sparse", "primes", "step64k", "clusters"], "usize": ["twinn", "sparse"], "i64": ["twinn", "extremes", "sparse"]}


def huge(binary, t, ops, count, rng, sizes=HUGE):
    """collections with more entries and slots than 16 bits count"""
    grid = [(k, c, f, n) for k, c in codes_of(binary, t) if k in HUGE_FAMS for f in HUGE_FAMS[k] for n in sizes
            if c[-1:] != "8" and not (c.endswith("16") and n > 65535) and c[:2] not in ("sm", "ss", "lm", "ls")]
    if not grid:
        return []
    # most of them beyond 65,535
    over = [g for g in grid if g[3] > 65535]
    picked, count = [], 2 * count
    for _ in range(count):
        g = rng.choice(grid if rng.random() < .15 or not over else over)
        k, c = g[:2]
        if rng.random() < .7:
            # any type is as likely as another, however many key families it is run with
            k, c = rng.choice(sorted({g[:2] for g in over})) if over else (k, c)
            g = rng.choice([g for g in over if g[:2] == (k, c)]) if over else g
        picked.append(g)
    grid = picked
    out = []
    for k, c, f, n in grid:
        if U.is_slice(c):
            # one which tells most of the keys apart: tens of thousands of keys in one slot would take minutes
            c += "@" + {"seq": ("4..10", "0..6"), "seqv": ("4..9", "0..5"), "rand": ("0..6", "0..6"), "path": ("9..18", "0..6")}[f][c[0] == "r"]
        out.append((binary, probe(binary, t, k, c, f, n, ops, rng, nabs=40, hm=rng.choice(["sip", "fnv"]), route=rng.choice(routes(binary, t, c, n)))))
    return out


def lengthy(binary, t, ops, count, rng):
    """string keys longer than 16 bits count: told apart by their lengths alone, or only a long way in"""
    grid = [(k, c) for k, c in codes_of(binary, t) if k in U.STRINGY]
    out = []
    for _ in range(count if grid else 0):
        k, c = rng.choice(grid)
        n = rng.choice([1, 2, 3, 4, 6, 9, 20, 40])
        code = c + "@" + rng.choice(["0..2", "65530..65532", "65534..65538", "65520..65540", "0..65536", "39999..40002", "250..260"]) if U.is_slice(c) else c
        o = ops(c, n) if callable(ops) else ops
        out.append((binary, probe(binary, t, k, code, rng.choice(U.LONG_FAMS), n, o, rng, nabs=20, hm=rng.choice(["sip", "fnv", "sum", "low", "zero", "ident"]))))
    return out


def sweep(binary, t, ops, sizes, rng, cap, nabs=10, big=0, keys=None, pool=None, over_limit=False):
    """ops on one collection of each type x key family x size, sampled down to about `cap` jobs."""
    out = []
    grid = [(k, c, f, n) for k, c in codes_of(binary, t) if keys is None or k in keys for f in fams_of(binary, k) for n in sizes]
    grid = [g for g in grid if over_limit or not (U.limit(g[1]) and g[3] > U.limit(g[1]))]
    if len(grid) > cap:
        grid = stratified(grid, lambda g: (g[0], g[1], g[3]), cap, rng)
    bigs = [(k, c, f, n) for k, c in codes_of(binary, t) if keys is None or k in keys for f in fams_of(binary, k) for n in BIG
            if not (U.limit(c) and n > U.limit(c)) and not (binary == "specm" and c in ("sm",))]
    grid += rng.sample(bigs, min(big, len(bigs)))
    for k, c, f, n in grid:
        o = ops(c, n) if callable(ops) else ops
        pl = pool
        if n > 60:
            pl = [h for h in (pool or U.HASHERS) if h not in ("zero", "max", "two")]
        if n > 300:
            pl = ["sip", "fnv", "ident"]
        hm = rng.choice(pl or U.HASHERS)
        out.append((binary, probe(binary, t, k, c, f, n, o, rng, nabs=nabs, hm=hm)))
    return out


def taken(t, rng, base=40):
    """every iterator taken by internal iteration, and its last element, after the order is revealed"""
    o = []
    for i, v in enumerate(("iter", "keys", "vals", "ref") if t == "map" else ("siter", "sref"), base):
        o += ["in %d 1 %s" % (i, v)] + ["f %d %s" % (i, h) for h in rng.sample(HOWS, 3)] + ["la %d" % i, "c %d" % i, "nx %d" % i, "f %d %s" % (i, rng.choice(HOWS)), "la %d" % i, "id %d" % i]
    return o


def into_last(ops, binary, rng):
    if binary == "facade":
        return ops
    how = rng.choice(HOWS)
    return ops + rng.choice([["it 1 sdbg", "it 1 into"], ["it 1 sdbg", "in 60 1 into", "f 60 " + how, "la 60", "c 60", "nx 60", "f 60 fold"]])


class Ctx:
    def __init__(self, tier, rng):
        self.tier, self.rng = tier, rng
        self.q = tier == "quick"

    def n(self, quick, thorough=None):
        return quick if self.q else (thorough or quick * 8)

    @property
    def sizes(self):
        return SIZES_Q if self.q else SIZES_T


# ------------------------------------------------------------------ systematic scenarios
def p_c01(x):
    r = []
    for b, cap, big in (("facade", 1800, 30), ("specm", 3500, 40), ("ranges", 350, 6)):
        r += sweep(b, "map", GETALL, x.sizes, x.rng, x.n(cap), nabs=16, big=x.n(big))
    for b, n in (("facade", 6), ("specm", 20)):
        r += huge(b, "map", ["l 1", "ga 1 " + x.rng.choice(MV)], x.n(n, n * 3), x.rng) + lengthy(b, "map", GETALL, x.n(10 * n), x.rng)
    return r


def p_c02(x):
    out = []
    for b in ("facade", "specm", "specs", "ranges"):
        for t in ("map", "set"):
            grid = []
            for k, c in codes_of(b, t):
                for f in fams_of(b, k):
                    for n in ([0, 1, 2, 3, 4, 5, 8, 16, 17, 100, 127, 128, 129, 255, 256, 257] if x.q else x.sizes):
                        if U.limit(c) and n > U.limit(c):
                            continue
                        for r in routes(b, t, c, n):
                            grid.append((k, c, f, n, r))
            cap = x.n({"facade": 1500, "specm": 1800, "specs": 1500, "ranges": 400}[b])
            for k, c, f, n, r in stratified(grid, lambda g: (g[0], g[1], g[3]), cap, x.rng):
                hm = x.rng.choice(U.HASHERS if n <= 60 else ["sip", "fnv", "ident", "sum", "low", "high", "mid", "seven"])
                out.append((b, probe(b, t, k, c, f, n, CONTENT[t], x.rng, nabs=5, hm=hm, route=r)))
            out += [j for j in sweep(b, t, CONTENT[t], [0], x.rng, 0, nabs=4, big=x.n(12))]
            if b != "ranges":
                out += huge(b, t, ["l 1"], x.n(6, 24), x.rng, HUGE + [40000, 44000, 100000]) + lengthy(b, t, CONTENT[t], x.n(60), x.rng)
    # more entries than the largest prime the analysis has at hand
    n = 7600000 + x.rng.randrange(100000)
    for b, t, k, c in x.rng.sample([("facade", "map", "u32", "fm"), ("facade", "set", "u32", "fs"), ("specm", "map", "u32", "imz"), ("specs", "set", "u32", "isz"), ("specm", "map", "u64", "imz")], x.n(1, 4)):
        out.append((b, probe(b, t, k, c, "twinn", n, ["l 1", "g 1 %s 1,2,%d,%d,%d" % ("get" if t == "map" else "sget", n // 2, n, n + 1)], x.rng, nabs=4, hm="sip", route="vec")))
    # payloads with repetitions are accepted by the facades
    for k in U.FACADE_KEYS:
        for f in U.fams(k):
            for pay in DUPS:
                t = x.rng.choice(["map", "set"])
                c = x.rng.choice(U.MAPS["facade"][k]) if t == "map" else x.rng.choice(U.SETS["facade"][k])
                p = [tuple(e) for e in pay] if t == "map" else [(a, a) for a, _ in pay]
                out.append(("facade", probe("facade", t, k, c, f, 6, CONTENT[t], x.rng, hm=x.rng.choice(U.HASHERS), pay=p)))
    return out


def p_c05(x):
    out = []
    for b, cap, big in (("facade", 1000, 10), ("specm", 1800, 10), ("ranges", 250, 4)):
        out += sweep(b, "map", lambda c, n: ITERALL["map"] + taken("map", x.rng), x.sizes, x.rng, x.n(cap), nabs=3, big=x.n(big))
    for b, cap, big in (("facade", 600, 8), ("specs", 1500, 10), ("ranges", 250, 4)):
        out += sweep(b, "set", lambda c, n, b=b: into_last(ITERALL["set"] + taken("set", x.rng), b, x.rng), x.sizes, x.rng, x.n(cap), nabs=3, big=x.n(big))
    for b, t, n in (("facade", "map", 2), ("specm", "map", 3), ("facade", "set", 1), ("specs", "set", 2)):
        for _ in range(x.n(n, n * 3)):
            v = x.rng.sample(["keys", "vals", "ref", "dbg"], 2) if t == "map" else x.rng.sample(["sref"] + (["sdbg", "into"] if b != "facade" else []), 1)
            out += huge(b, t, ["l 1", "it 1 " + ("iter" if t == "map" else "siter")] + ["it 1 " + w for w in v], 1, x.rng)
    return out


def p_c07(x):
    r = []
    for b, cap, big in (("facade", 1800, 20), ("specs", 3000, 30), ("ranges", 350, 6)):
        r += sweep(b, "set", SGETALL, x.sizes, x.rng, x.n(cap), nabs=16, big=x.n(big))
    for b, n in (("facade", 4), ("specs", 16)):
        r += huge(b, "set", ["l 1", "ga 1 " + x.rng.choice(SV)], x.n(n, n * 3), x.rng) + lengthy(b, "set", SGETALL, x.n(12 * n), x.rng)
    return r


def payloads(keys, upto):
    """every sequence of keys of each length up to `upto`; the j-th occurrence of k carries k + 100000 j"""
    for n in range(upto + 1):
        for ks in itertools.product(range(1, keys + 1), repeat=n):
            seen = {}
            p = []
            for k in ks:
                p.append((k, k + 100000 * seen.get(k, 0)))
                seen[k] = seen.get(k, 0) + 1
            yield p


def random_payload(rng, keys, length):
    seen, p = {}, []
    for _ in range(length):
        k = rng.randrange(1, keys + 1)
        p.append((k, k + 100000 * seen.get(k, 0)))
        seen[k] = seen.get(k, 0) + 1
    return p


def p_c12(x):
    out = []
    pays = list(payloads(3, 4 if x.q else 5)) + list(payloads(4, 3 if x.q else 4))
    for p in pays:
        for t in ("map", "set"):
            for _ in range(x.n(3, 10)):
                k = x.rng.choice(U.FACADE_KEYS)
                c = x.rng.choice((U.MAPS if t == "map" else U.SETS)["facade"][k])
                ops = ["l 1", "ga 1 get", "ga 1 gkv", "it 1 iter", "it 1 vals", "it 1 dbg"] if t == "map" else ["l 1", "ga 1 sget", "it 1 siter"]
                pp = p if t == "map" else [(a, a) for a, _ in p]
                out.append(("facade", probe("facade", t, k, c, x.rng.choice(U.fams(k)), 4, ops, x.rng, nabs=6, hm=x.rng.choice(U.HASHERS), pay=pp)))
    for i in range(x.n(600) + x.n(60)):
        m = x.rng.choice([2, 3, 5, 9, 20, 60, 200]) if i >= x.n(60) else x.rng.choice([255, 256, 257, 300, 520, 1030, 1500, 2100, 4200, 9000])
        p = random_payload(x.rng, m, x.rng.choice([m, m + 1, 2 * m, 3 * m]))
        if m > 200 and (m > 600 or x.rng.random() < .6):
            # every key, and a few of them once more: next to each other or as far apart as can be
            p = [(k + 1, k + 1) for k in range(m)]
            for k in x.rng.sample([1, 2, 3, m // 2, m - 1, m], x.rng.randrange(1, 4)):
                p.append((k, k + 100000))
            if m < 600 and x.rng.random() < .3:
                p = p[m:] + p[:m]
        t = x.rng.choice(["map", "set"])
        k = x.rng.choice(U.FACADE_KEYS)
        c = x.rng.choice((U.MAPS if t == "map" else U.SETS)["facade"][k])
        ops = ["l 1", "ga 1 get", "it 1 iter", "it 1 vals"] if t == "map" else ["l 1", "ga 1 sget", "it 1 siter"]
        pp = p if t == "map" else [(a, a) for a, _ in p]
        hm = x.rng.choice(U.HASHERS if m <= 20 else ["sip", "fnv", "sum", "low", "high"] if m <= 200 else ["sip", "fnv"])
        out.append(("facade", probe("facade", t, k, c, x.rng.choice(U.fams(k)), m, ops, x.rng, nabs=6, hm=hm, pay=pp)))
    for _ in range(x.n(4, 10)):
        # repeats further apart than 16 bits count
        m = x.rng.choice([65535, 65536, 66000])
        p = [(k + 1, k + 1) for k in range(m)] + [(k, k + 100000) for k in x.rng.sample([1, 2, 464, m // 2, m], 2)]
        t, k = x.rng.choice(["map", "map", "set"]), x.rng.choice(["u32", "string", "u64"])
        pp = p if t == "map" else [(a, a) for a, _ in p]
        out.append(("facade", probe("facade", t, k, "fm" if t == "map" else "fs", x.rng.choice(HUGE_FAMS[k][:2]), m, ["l 1", "ga 1 get" if t == "map" else "ga 1 sget"], x.rng, nabs=6, hm="sip", pay=pp)))
    return out


def p_c14(x):
    out = []
    some = lambda n: ["l 1", "g 1 %%s %s" % ",".join(str(min(max(k, 1), n + 3)) for k in (1, 2, n // 2, n - 1, n, n + 1, n + 2, n + 3, 254, 255, 256, 257))]
    for b, t in (("specm", "map"), ("specs", "set")):
        v = "get" if t == "map" else "sget"
        for k, c in codes_of(b, t):
            lim = U.limit(c)
            base = c
            ns = [250, 254, 255, 256, 257, 300] if lim == 255 else ([254, 255, 256, 257, 400] if lim == 65535 else [255, 256, 257, 300])
            fams = fams_of(b, k)
            for n in ns:
                ff = fams if not x.q else x.rng.sample(fams, min(5 if lim == 255 else 2, len(fams)))
                for f in ff:
                    for rt in ([x.rng.choice(routes(b, t, c, n))] if x.q else routes(b, t, c, n)):
                        it = ["it 1 iter", "it 1 vals"] if t == "map" else ["it 1 siter"]
                        hm = x.rng.choice(["sip", "fnv", "ident", "sum", "low", "high", "mid"])
                        out.append((b, probe(b, t, k, c, f, n, ["l 1", "ga 1 " + v] + it, x.rng, nabs=10, hm=hm, route=rt)))
            if lim == 65535:
                fams = [f for f in fams if f in ("seq", "seqv", "path", "range0", "step2", "step256", "primes", "sparse", "rangehi", "hole", "extremes")]
                for n in (65534, 65535, 65536, 65537) if not x.q else x.rng.sample((65534, 65535, 65536, 65537), 2):
                    f = x.rng.choice(fams)
                    out.append((b, probe(b, t, k, c, f, n, [o % v if "%s" in o else o for o in some(n)], x.rng, nabs=10, hm=x.rng.choice(["sip", "fnv"]), route="vec")))
    return out


def p_c15(x):
    out = []
    mo = ["l 1", "ga 1 get", "ga 1 has", "ga 1 gm", "it 1 iter"]
    so = ["l 1", "ga 1 sget", "ga 1 shas", "it 1 siter"]
    for key in U.INTS:
        for t, ops, c in (("map", mo, "rm"), ("set", so, "rs")):
            for f in U.RANGE_FAMS:
                pays = list(payloads(4, 3 if x.q else 4))
                if x.q:
                    pays = x.rng.sample(pays, 25)
                for p in pays:
                    pp = p if t == "map" else [(a, a) for a, _ in p]
                    out.append(("ranges", probe("ranges", t, key, c, f, 4, ops, x.rng, nabs=14, pay=pp)))
                for n in (0, 1, 2, 5, 16, 100, 127, 128, 129, 200, 255, 256):
                    out.append(("ranges", probe("ranges", t, key, c, f, n, ops, x.rng, nabs=20)))
                # a range with one hole, and with one key twice
                for n in (5, 20, 130, 200, 255):
                    for _ in range(x.n(1, 4)):
                        h = x.rng.randrange(2, n)
                        miss = [(k, k) for k in range(1, n + 1) if k != h]
                        x.rng.shuffle(miss)
                        dup = miss + [(h + 1 if h + 1 <= n else 1, 7)]
                        for p in (miss, dup):
                            pp = p if t == "map" else [(a, a) for a, _ in p]
                            out.append(("ranges", probe("ranges", t, key, c, f, n, ops, x.rng, nabs=6, pay=pp)))
    return out


def p_c16(x):
    out = []
    ops = ["l 1", "ga 1 get", "ga 1 gkv", "ga 1 has", "ga 1 idx", "ga 1 gm", "it 1 iter", "it 1 vals", "it 1 keys", "it 1 dbg",
           "s 1 gm 1 100001", "m 1 1,2 200001,100002", "ga 1 get", "it 1 iter"]
    for b, cap, big in (("specm", 4500, 40), ("ranges", 300, 4)):
        out += sweep(b, "map", ops, x.sizes, x.rng, x.n(cap), nabs=14, big=x.n(big))
    sops = ["l 1", "ga 1 sget", "ga 1 shas", "it 1 siter", "it 1 sref", "co 1 2", "e 1 2", "it 2 into", "it 1 sdbg", "it 1 into"]
    for b, cap, big in (("specs", 3000, 30), ("ranges", 300, 4)):
        out += sweep(b, "set", sops, x.sizes, x.rng, x.n(cap), nabs=14, big=x.n(big))
    for b, t, n in (("specm", "map", 8), ("specs", "set", 6)):
        out += huge(b, t, ["l 1", "ga 1 " + x.rng.choice(MV if t == "map" else SV)] + (["m 1 1,2 7,8", "ga 1 idx"] if t == "map" else ["co 1 2", "r 1 2 eq"]), x.n(n, n * 3), x.rng)
        out += lengthy(b, t, ops if t == "map" else sops, x.n(120), x.rng)
    out += p_c10(x, (("specm", 900), ("ranges", 100)))
    out += p_c04(x, (("specm", 700, 0), ("ranges", 60, 0)))
    return out + p_rel(x, (("specs", 700), ("ranges", 100)))


def p_c03(x):
    out = []

    def ops(c, n):
        k1, k2, k3 = (x.rng.randrange(1, max(n, 1) + 1) for _ in range(3))
        a = n + 1 + x.rng.randrange(6)
        return ["it 1 iter", "s 1 gm %d %d" % (k1, k1 + 100000), "ga 1 get", "s 1 gm %d 5" % a, "s 1 im %d %d" % (k2, k2 + 200000), "m 1 %d,%d %d,%d" % (k3, k1, k3 + 300000, k1 + 300000),
                "ga 1 idx", "it 1 iter", "l 1", "s 1 im %d 5" % a, "m 1 %d,%d 8,9" % (k1, a), "ga 1 gkv", "it 1 vals"]
    for b, cap, big in (("facade", 1200, 30), ("specm", 2500, 20), ("ranges", 300, 4)):
        out += sweep(b, "map", ops, x.sizes, x.rng, x.n(cap), nabs=8, big=x.n(big))
    for b, n in (("facade", 3), ("specm", 5)):
        for _ in range(x.n(n, n * 3)):
            t = x.rng.randrange(1, 65536)
            out += lengthy(b, "map", ops, 8, x.rng)
            out += huge(b, "map", ["s 1 gm %d %d" % (t, t + 100000), "s 1 im %d %d" % (t + 1, t + 200000), "m 1 %d,%d 5,6" % (t + 2, t), "ga 1 get"], 1, x.rng)
    return out


def p_c04(x, bins=(("facade", 1200, 10), ("specm", 2500, 10), ("ranges", 300, 4))):
    out = []

    def ops(c, n):
        o = []
        ks = list(range(1, n + 1))
        for m in range(0, 6):
            if m <= n:
                s = x.rng.sample(ks, m)
                o.append("m 1 %s %s" % (",".join(map(str, s)), ",".join(str(k + 100000 * m) for k in s)))
        o.append("ga 1 get")
        for m in (2, 3, 4, 5):
            if n >= 1:
                s = [x.rng.choice(ks) for _ in range(m)]
                i, j = x.rng.sample(range(m), 2)
                s[i] = s[j]
                o.append("m 1 %s %s" % (",".join(map(str, s)), ",".join("77" for _ in s)))
                s = [x.rng.choice(ks) for _ in range(m)] if n < m else x.rng.sample(ks, m)
                s[x.rng.randrange(m)] = n + 1 + x.rng.randrange(5)
                o.append("m 1 %s %s" % (",".join(map(str, s)), ",".join("88" for _ in s)))
        o += ["ga 1 get", "it 1 iter"]
        return o + wide(n)

    def wide(n):
        """requests of more keys than anyone writes down: all different, one twice, one absent"""
        o = []
        ks = list(range(1, n + 1))
        for m in [w for w in WIDE if w <= n and (w <= 17 or n <= 260 or n > 900)]:
            s = x.rng.sample(ks, m)
            good = "m 1 %s %s" % (",".join(map(str, s)), ",".join(str(k + 100000 + m) for k in s))
            i, j = x.rng.choice([(0, m - 1), (m - 2, m - 1), (0, m // 2), tuple(x.rng.sample(range(m), 2)), tuple(x.rng.sample(range(m), 2))])
            d = list(s)
            d[i] = d[j]
            a = list(s)
            a[x.rng.choice([0, m - 1, x.rng.randrange(m)])] = n + 1 + x.rng.randrange(5)
            o += x.rng.sample([good, "m 1 %s %s" % (",".join(map(str, d)), ",".join(["77"] * m)), "m 1 %s %s" % (",".join(map(str, a)), ",".join(["88"] * m))], 3) + ["ga 1 get"]
        return o
    for b, cap, big in bins:
        out += sweep(b, "map", ops, x.sizes, x.rng, x.n(cap), nabs=6, big=x.n(big))
    for b, n in (("facade", 2), ("specm", 3)):
        if any(b == q for q, _, _ in bins):
            out += huge(b, "map", wide(65535), x.n(n, n * 3), x.rng) + lengthy(b, "map", ops, x.n(20), x.rng)
    return out


def pairs(x, binary, count, ops_of, same=False):
    """two sets over one table, with intervals of keys of assorted relative position and size"""
    out = []
    keys = list(U.SETS[binary])
    for i in range(count + count // 16):
        k = x.rng.choice(keys)
        n = x.rng.choice([3, 6, 9, 20, 60, 140, 200])
        f = x.rng.choice(fams_of(binary, k))
        if i >= count:
            # lengths which 8 bits do not tell apart
            k = x.rng.choice([k for k in keys if k not in ("u8", "i8")])
            n = x.rng.choice([256, 257, 260, 320, 515, 600, 1030, 1500])
            f = x.rng.choice(fams_of(binary, k))

        def iv():
            lo = x.rng.randrange(1, n + 1)
            return (lo, min(n, lo + x.rng.choice([0, 1, 3, n // 2, n])))
        a, b = x.rng.choice([(iv(), iv()), (iv(), iv()), ((1, n), iv()), (iv(), (1, n)), ((1, n), (1, n)), ((1, 0), iv()), (iv(), (1, 0)),
                             ((1, n // 2), (n // 2 + 1, n)), ((n // 2 + 1, n), (1, n // 2 + 1))])
        ca = with_range(x.rng.choice(U.SETS[binary][k]), x.rng)
        cb = ca if binary == "facade" or same or x.rng.random() < .3 else with_range(x.rng.choice(U.SETS[binary][k]), x.rng)
        std = False
        if not same and x.rng.random() < .3:
            cb, std = x.rng.choice(["hs", "bt"]), True
        if n > 255:
            a, b = x.rng.choice([(a, b), (a, b), ((1, n), (1, n - 256)), ((1, n - 256), (1, n)), ((1, n), (n - 3, n)), ((5, 9), (1, n)), ((1, 256), (200, 210)), ((1, n), (1, n - 1))])
        if n > 3 and x.rng.random() < .15:
            a, b = x.rng.choice([((1, n - 1), (2, n)), ((2, n), (1, n - 1)), ((1, n), (2, n)), ((1, n - 1), (1, n))])
        if max(len(range(*a)), len(range(*b))) + 1 > 255 and (U.limit(ca) == 255 or U.limit(cb) == 255):
            continue
        hs = [x.rng.choice(U.HASHERS if n <= 60 else U.GOOD_HASHERS[:4] if n <= 200 else ["sip", "fnv"]) for _ in range(2)]
        e1, e2 = {"op": "build", "o": 1, "t": "set", "lo": a[0], "hi": a[1]}, {"op": "build", "o": 2, "t": "set", "lo": b[0], "hi": b[1]}
        if binary != "ranges" and n <= 60 and x.rng.random() < .35:
            # scattered elements: the second set is another one, or nearly the first
            A = x.rng.sample(range(1, n + 1), x.rng.randrange(n))
            rest = [v for v in range(1, n + 1) if v not in A]
            B = list(A)
            w = x.rng.randrange(5)
            if w == 0:
                B = x.rng.sample(range(1, n + 1), x.rng.randrange(n))
            elif w == 1:
                B = rest
            else:
                if w in (2, 3) and B:
                    B.pop(x.rng.randrange(len(B)))
                if w in (2, 4) and rest:
                    B.append(x.rng.choice(rest))
            x.rng.shuffle(B)
            A, B = x.rng.choice([(A, B), (B, A)])
            e1, e2 = ({"op": "build", "o": o, "t": "set", "pay": [(v, v) for v in s]} for o, s in ((1, A), (2, B)))
        ops = [build_op(binary, k, e1, ca, x.rng, hm=hs[0]), build_op(binary, k, e2, cb, x.rng, hm=hs[1])]
        ops += ops_of(binary, ca, cb, std)
        out.append((binary, "%s %s %d 6 %d|%s" % (k, f, n, x.rng.randrange(1 << 30), "|".join(ops))))
    return out


def huge_pairs(x, binary, count, ops_of):
    """sets of more than 65,535 elements, and of lengths which 16 bits do not tell apart"""
    out = []
    for _ in range(2 * count):
        k = x.rng.choice(["u32", "u64", "string"])
        n = x.rng.choice([65536, 65537, 66000, 70000])
        f = x.rng.choice([f for f in HUGE_FAMS[k] if f not in ("rand", "path")])
        a, b = x.rng.choice([((1, n), (1, n)), ((1, n), (1, n - 65536 + 2)), ((1, n), (n - 3, n)), ((7, 9), (1, n)), ((1, n - 65536 + 2), (1, n)), ((1, n), (1, n - 1)), ((1, n // 2), (n // 2 + 1, n))])
        cs = ["fs"] if binary == "facade" else {"u32": ["csz", "isz", "cs32", "is64"], "u64": ["isz"], "string": ["csz", "llz@4..10", "rlz@0..5"]}[k]
        ca, cb = x.rng.choice(cs), x.rng.choice(cs)
        ops = [build_op(binary, k, {"op": "build", "o": o, "t": "set", "lo": s[0], "hi": s[1]}, c, x.rng, hm="sip") for o, s, c in ((1, a, ca), (2, b, cb))]
        out.append((binary, "%s %s %d 6 %d|%s" % (k, f, n, x.rng.randrange(1 << 30), "|".join(ops + ops_of(ca, cb)))))
    return out


def p_sop(x):
    out = []

    def ops(b, ca, cb, std):
        o = ["so 1 2 %s lazy" % k for k in KINDS] + ["so 1 2 %s oper" % k for k in KINDS] + ["so 1 1 %s %s" % (x.rng.choice(KINDS), x.rng.choice(["lazy", "oper"]))]
        o += ["so 2 1 %s %s" % (x.rng.choice(KINDS), x.rng.choice(["lazy", "oper"]) if not std else "lazy") for _ in range(2)]
        return o
    for b, c in (("facade", 900), ("specs", 1600), ("ranges", 500)):
        out += pairs(x, b, x.n(c), ops)
    for b, c in (("facade", 3), ("specs", 6)):
        out += huge_pairs(x, b, x.n(c, 4 * c), lambda ca, cb: ["so 1 2 %s lazy" % x.rng.choice(KINDS), "so 2 1 %s oper" % x.rng.choice(KINDS)])
    return out


def p_rel(x, bins=(("facade", 900), ("specs", 1600), ("ranges", 500))):
    out = []

    def ops(b, ca, cb, std):
        o = ["r 1 2 %s" % k for k in ("sub", "sup", "dis")] + ["r 1 1 " + x.rng.choice(["sub", "sup", "dis"])]
        o += ["r 2 1 %s" % k for k in ("sub", "sup", "dis")]
        if b != "facade" or ca == cb:
            o += ["r 1 2 eq", "e 1 2"]
            if not std:
                o += ["e 2 1", "r 2 2 eq"]
        return o
    for b, c in bins:
        out += pairs(x, b, x.n(c), ops)
        if b != "ranges":
            out += huge_pairs(x, b, x.n(c // 250, c // 60), lambda ca, cb: ["r 1 2 sub", "r 2 1 sub", "r 1 2 sup", "r 2 1 sup", "r 1 2 dis", "r 2 1 dis"] + (["r 1 2 eq"] if b != "facade" or ca == cb else []))
    return out


def p_combiter(x):
    out = []

    def ops(b, ca, cb, std):
        o = []
        for i, k in enumerate(KINDS):
            s = x.rng.choice([0, 1, 2, 5])
            o += ["ic %d %s %s" % (i + 1, k, x.rng.choice(["1 2", "1 2", "2 1"])), "h %d" % (i + 1), "c %d" % (i + 1)] + ["nx %d" % (i + 1), "h %d" % (i + 1)] * s
            o += ["c %d" % (i + 1), "f %d" % (i + 1), "cl %d %d" % (i + 1, i + 11), "nx %d" % (i + 1), "h %d" % (i + 11), "c %d" % (i + 11)]
            o += ["la %d" % (i + 1), "f %d dbg" % (i + 1), "f %d %s" % (i + 1, x.rng.choice(HOWS))]
            j, far = i + 11, x.rng.choice(BEYOND)
            o += ["nt %d %s" % (j, x.rng.choice([0, 1, 2, 3, 7, far])), "h %d" % j, "c %d" % j, "f %d %s" % (j, x.rng.choice(HOWS)), "la %d" % j, "cl %d %d" % (j, i + 21),
                  "nt %d %s" % (j, far), "nx %d" % j, "h %d" % j, "c %d" % j, "f %d" % j, "la %d" % j, "nx %d" % (i + 21), "nt %d %s" % (i + 21, x.rng.choice([0, 1, far])), "f %d dbg" % (i + 21)]
        return o
    for b, c in (("facade", 500), ("specs", 900), ("ranges", 300)):
        out += pairs(x, b, x.n(c), ops)

    def iops(t, b):
        def f(c, n):
            o = ["it 1 iter" if t == "map" else "it 1 siter"]
            vias = ["iter", "ref", "keys", "vals"] if t == "map" else ["siter", "sref"]
            for i, v in enumerate(vias, 1):
                o += ["in %d 1 %s" % (i, v), "h %d" % i, "el %d" % i, "c %d" % i]
                for _ in range(x.rng.choice([1, 2, 3])):
                    o += [x.rng.choice(["nx %d", "nt %d 1", "nt %d 0", "nx %d", "nt %d 3"]) % i, "h %d" % i, "el %d" % i]
                far = x.rng.choice(BEYOND)
                o += ["cl %d %d" % (i, i + 20), "nt %d %s" % (i + 20, far), "nx %d" % (i + 20), "h %d" % (i + 20), "el %d" % (i + 20), "c %d" % (i + 20), "la %d" % (i + 20), "nt %d %s" % (i + 20, x.rng.choice(BEYOND + ["0", "1"])), "f %d dbg" % (i + 20)]
                o += ["cl %d %d" % (i, i + 10), "nx %d" % (i + 10), "c %d" % i, "f %d %s" % (i, x.rng.choice(HOWS)), "la %d" % i, "el %d" % (i + 10), "f %d %s" % (i + 10, x.rng.choice(HOWS)), "la %d" % (i + 10)]
                if n < 12:
                    o += ["nx %d" % i] * (n + 2) + ["h %d" % i, "el %d" % i, "c %d" % i]
                else:
                    o += ["nt %d %d" % (i, n), "nx %d" % i, "h %d" % i, "el %d" % i, "c %d" % i]
            return o
        return f
    for b, cap in (("facade", 500), ("specm", 900), ("ranges", 200)):
        out += sweep(b, "map", iops("map", b), x.sizes, x.rng, x.n(cap), nabs=2)

    def sops(b):
        g = iops("set", b)

        def f(c, n):
            o = g(c, n)
            if b != "facade":
                o += ["co 1 2", "it 2 siter", "in 30 2 into", "h 30", "el 30", "nx 30", "h 30", "el 30", "c 30", "f 30", "la 30", "nt 30 2", "h 30", "el 30", "f 30 dbg", "nt 30 %s" % x.rng.choice([n, x.rng.choice(BEYOND)]), "nx 30", "el 30"]
            return o
        return f
    for b, cap in (("facade", 400), ("specs", 900), ("ranges", 200)):
        out += sweep(b, "set", sops(b), x.sizes, x.rng, x.n(cap), nabs=2)
    for b, t, c in (("facade", "map", 2), ("specm", "map", 3), ("facade", "set", 1), ("specs", "set", 3)):
        for _ in range(x.n(c, 3 * c)):
            vs = ["iter", "keys", "vals", "ref"] if t == "map" else ["siter", "sref"]
            o = ["it 1 " + vs[0]]
            for i, v in enumerate(vs, 1):
                o += ["in %d 1 %s" % (i, v), "h %d" % i, "el %d" % i, "nx %d" % i, "h %d" % i, "el %d" % i]
            i = x.rng.randrange(1, len(vs) + 1)
            o += ["c %d" % i, "nt %d %d" % (i, x.rng.choice([3, 255, 256, 30000])), "h %d" % i, "el %d" % i, "nt %d %d" % (i, x.rng.choice([30000, 65536])), "h %d" % i, "el %d" % i, "c %d" % i]
            if b != "facade" and t == "set" and x.rng.random() < .6:
                o += ["in 9 1 into", "h 9", "el 9", "nx 9", "h 9", "el 9", "nt 9 30000", "h 9", "el 9"]
            out += huge(b, t, o, 1, x.rng)
    for b, c in (("facade", 1), ("specs", 2)):
        out += huge_pairs(x, b, x.n(c, 4 * c), lambda ca, cb: ["ic 1 %s 1 2" % x.rng.choice(KINDS), "h 1", "c 1", "nx 1", "nt 1 5", "h 1", "c 1"])
    return out


def p_c10(x, bins=(("facade", 1200), ("specm", 1800), ("ranges", 250))):
    """pairs of maps over one table: same keys in another order and hasher, one key missing, one extra, one value differing"""
    out = []
    for b, count in bins:
        grid = list(codes_of(b, "map"))
        for _ in range(x.n(count)):
            k, c = x.rng.choice(grid)
            c = with_range(c, x.rng)
            n = x.rng.choice([0, 1, 2, 3, 5, 8, 9, 20, 60, 130, 200])
            if U.limit(c) != 255 and x.rng.random() < .06:
                n = x.rng.choice([257, 300, 515, 600, 1030, 1500, 2100, 5000] if c != "sm" else [257, 300, 600])
            f = x.rng.choice(fams_of(b, k))
            las = (1, n)
            lbs = x.rng.choice([(1, n), (1, n), (1, n), (1, n - 1), (2, n + 1), (1, n + 1), (2, n)])
            if lbs[1] < lbs[0] - 1:
                lbs = (1, 0)
            hs = [x.rng.choice(U.HASHERS if n <= 60 else U.GOOD_HASHERS[:4] if n <= 200 else ["sip", "fnv"]) for _ in range(2)]
            ops = [build_op(b, k, {"o": 1, "t": "map", "lo": las[0], "hi": las[1]}, c, x.rng, hm=hs[0]),
                   build_op(b, k, {"o": 2, "t": "map", "lo": lbs[0], "hi": lbs[1]}, c, x.rng, hm=hs[1]), "e 1 2", "e 2 1"]
            if n:
                t = x.rng.randrange(1, n + 1)
                ops += ["s 1 gm %d %d" % (t, t + 100000), "e 1 2", "s 2 gm %d %d" % (t, t + 100000), "e 1 2", "e 2 1", "s 1 gm %d %d" % (t, t), "e 2 1"]
                ops += ["s 1 gm %d %d" % (t, t + 400000), "e 1 2", "s 2 gm %d %d" % (t, t + 1000000), "e 2 2", "e 2 1", "s 1 gm %d %d" % (t, t + 1000000), "e 1 2", "s 1 gm %d %d" % (t, t), "s 2 gm %d %d" % (t, t)]
            for t in x.rng.sample(range(1, n + 1), 8) if n > 200 else []:
                ops += ["s 1 gm %d %d" % (t, t + 200000), "e 1 2", "e 2 1", "s 1 gm %d %d" % (t, t)]
            ops += ["co 1 3", "e 1 3"]
            out.append((b, "%s %s %d 6 %d|%s" % (k, f, n + 1, x.rng.randrange(1 << 30), "|".join(ops))))
        for _ in range(x.n(count // 3)):
            # the same values under other keys, or the same keys with other values
            k, c = x.rng.choice(grid)
            c = with_range(c, x.rng)
            n = x.rng.choice([1, 2, 3, 4, 6, 9, 10, 17, 40])
            f = x.rng.choice(fams_of(b, k))
            vals = [x.rng.choice([[7] * n, [i % 2 for i in range(n)], list(range(n)), [i // 2 for i in range(n)]])] * 2
            how = x.rng.randrange(5)
            keys = [list(range(1, n + 1))] * 2
            if how == 0:
                keys = [keys[0], list(range(2, n + 2))]
            elif how == 1 and b != "ranges":
                keys = [x.rng.sample(range(1, n + 4), n) for _ in range(2)]
            elif how == 2:
                vals = [vals[0], vals[0][1:] + vals[0][:1]]
            elif how == 3:
                vals = [vals[0], vals[0][::-1]]
            else:
                vals = [vals[0], [v + (i == x.rng.randrange(n)) for i, v in enumerate(vals[0])]]
            ops = [build_op(b, k, {"op": "build", "o": o, "t": "map", "pay": list(zip(keys[o - 1], vals[o - 1]))}, c, x.rng, hm=x.rng.choice(U.HASHERS)) for o in (1, 2)]
            if keys[0] == keys[1]:
                t = x.rng.randrange(n)
                ops += ["e 1 2", "s 2 gm %d %d" % (t + 1, vals[0][t])]
                if x.rng.random() < .3:
                    ops += ["e 1 2", "s 2 gm %d %d" % (t + 1, vals[0][t] + x.rng.choice([400000, 1000000])), "e 1 2", "e 2 2"]
            ops += ["e 1 2", "e 2 1", "co 2 3", "s 3 gm %d 9" % keys[1][-1], "e 2 3", "e 1 3"]
            out.append((b, "%s %s %d 6 %d|%s" % (k, f, n + 3, x.rng.randrange(1 << 30), "|".join(ops))))
        for _ in range(x.n(count // 400, count // 100) if b != "ranges" else 0):
            ops = ["co 1 2", "e 1 2"]
            for t in x.rng.sample(range(1, 65536), 4):
                ops += ["s 1 gm %d %d" % (t, t + 200000), "e 1 2", "e 2 1", "s 1 gm %d %d" % (t, t)]
            out += huge(b, "map", ops + ["e 1 2"], 1, x.rng)
    return out


def p_c11(x):
    out = []

    def mops(c, n):
        t = x.rng.randrange(1, max(n, 1) + 1)
        w = x.rng.choice([1, 2])
        return ["it 1 iter", "co 1 2", "e 1 2", "l 2", "ga 2 get", "ga 2 gkv", "it 2 iter", "it 2 vals", "s %d gm %d %d" % (w, t, t + 100000), "ga 1 get", "ga 2 get", "it 1 iter", "it 2 iter", "e 1 2",
                "m 2 %d 7" % t, "ga 1 gkv", "in 50 2 %s" % x.rng.choice(["iter", "keys", "ref"]), "h 50", "el 50", "nx 50", "f 50 %s" % x.rng.choice(HOWS), "id 50",
                "co 2 3", "d 1", "ga 2 get", "d 2", "ga 3 gkv", "it 3 iter", "l 3"]

    def sops(c, n):
        more = ["in 50 2 siter", "h 50", "el 50", "nx 50", "f 50 %s" % x.rng.choice(HOWS), "id 50", "so 2 1 %s lazy" % x.rng.choice(KINDS), "r 2 1 sub", "r 1 2 sup", "r 2 1 dis"]
        return ["it 1 siter", "co 1 2", "l 2", "ga 2 sget", "it 2 siter", "e 1 2"] + more + ["d 1", "ga 2 sget", "co 2 3", "d 2", "it 3 siter", "ga 3 shas"]
    for b, cap in (("facade", 700), ("specm", 1800), ("ranges", 200)):
        out += sweep(b, "map", mops, x.sizes, x.rng, x.n(cap), nabs=6, big=x.n(8)) + lengthy(b, "map", mops, x.n(20), x.rng)
    for b, cap in (("facade", 400), ("specs", 1200), ("ranges", 200)):
        out += sweep(b, "set", sops, x.sizes, x.rng, x.n(cap), nabs=6, big=x.n(4))
    # one collection turned into a copy of another of its type: of another size, hasher, range
    for b, t, count in (("facade", "map", 260), ("facade", "set", 200), ("specm", "map", 500), ("specs", "set", 400), ("ranges", "map", 50), ("ranges", "set", 50)):
        grid = [(k, c) for k, c in codes_of(b, t) if c not in ("hs", "bt") and not (b == "specs" and c == "fs")]
        for _ in range(x.n(count)):
            k, c = x.rng.choice(grid)
            n = x.rng.choice([1, 2, 3, 5, 8, 9, 20, 60, 130, 250])
            f = x.rng.choice(fams_of(b, k))
            ivs = [x.rng.choice([(1, n), (1, n), (1, max(n // 2, 1)), (n, n), (1, 0), (n // 2 + 1, n)]) for _ in range(2)]
            hs = [x.rng.choice(U.HASHERS if n <= 60 else U.GOOD_HASHERS[:4]) for _ in range(2)]
            ops = [build_op(b, k, {"o": o, "t": t, "lo": iv[0], "hi": iv[1]}, with_range(c, x.rng), x.rng, hm=h) for o, iv, h in ((1, ivs[0], hs[0]), (2, ivs[1], hs[1]))]
            it = "iter" if t == "map" else "siter"
            look = ["ga 2 " + x.rng.choice(MV if t == "map" else SV), "it 2 " + it, "l 2", "e 1 2"]
            ops += (["it 1 " + it] if x.rng.random() < .5 else []) + (["it 2 " + it] if x.rng.random() < .3 else []) + ["as 1 2"] + x.rng.sample(look, 4)
            if t == "map" and n:
                w, q = x.rng.choice([1, 2]), x.rng.randrange(1, n + 1)
                ops += ["s %d gm %d %d" % (w, q, q + 100000), "ga 1 get", "ga 2 get", "e 1 2"] + x.rng.choice([[], ["as 2 1", "ga 1 get", "it 1 iter", "e 1 2"]])
            ops += x.rng.choice([["d 1", "ga 2 " + ("get" if t == "map" else "sget"), "it 2 " + it], ["co 2 3", "as 1 3", "e 1 3", "l 3"], []])
            out.append((b, "%s %s %d 6 %d|%s" % (k, f, n + 1, x.rng.randrange(1 << 30), "|".join(ops))))
    for b, t, c in (("facade", "map", 3), ("specm", "map", 6), ("facade", "set", 2), ("specs", "set", 5)):
        for _ in range(x.n(c, 3 * c)):
            k = x.rng.randrange(1, 65536)
            out += huge(b, t, ["co 1 2", "e 1 2"] + (["s %d gm %d 100000" % (x.rng.choice([1, 2]), k), "e 1 2", "ga 1 get", "d 1", "ga 2 get"] if t == "map" else ["d 1", "ga 2 sget"]) + ["l 2"], 1, x.rng)
    return out


def p_c18(x):
    """threads reading one collection in orders of their own, before and after updates"""
    out = []
    hs = [h for h in U.HASHERS if h not in ("zero", "max")] + ["high", "mid", "low", "ident"]

    def rounds(n):
        return max(20, (3000 if x.q else 20000) // (n + 12))

    def mops(c, n):
        th = x.rng.choice([1, 2, 4, 8])
        k = x.rng.randrange(1, max(n, 1) + 1)
        return ["th 1 %d %d" % (th, rounds(n)), "ga 1 get", "s 1 gm %d %d" % (k, k + 100000), "th 1 %d %d" % (x.rng.choice([2, 8]), rounds(n)), "it 1 iter", "l 1"]

    def sops(c, n):
        return ["th 1 %d %d" % (x.rng.choice([1, 2, 4, 8]), rounds(n)), "ga 1 sget", "th 1 8 %d" % rounds(n), "it 1 siter", "l 1"]
    sizes = [0, 1, 2, 3, 4, 5, 8, 17, 40, 130]
    for b, cap in (("facade", 220), ("specm", 700), ("ranges", 40)):
        out += sweep(b, "map", mops, sizes, x.rng, x.n(cap), nabs=12, pool=hs)
    for b, cap in (("facade", 150), ("specs", 500), ("ranges", 40)):
        out += sweep(b, "set", sops, sizes, x.rng, x.n(cap), nabs=12, pool=hs)
    return out


def readers_module(x):
    return [("Readers", "SPECIFICATION RSpec\nCONSTANTS\n Threads = {%s}\n NKeys = 2\n Vias = {%s}\nINVARIANT StillBuilt\nPROPERTY AsFresh\nPROPERTY NoTrace\nCHECK_DEADLOCK FALSE\n"
             % (("1,2", '"get","gkv","has","idx"') if x.q else ("1,2,3", '"get","gkv","idx"')))]


def p_c13(x):
    """the same scenario under every hasher; the group is the job without its hasher"""
    out = []
    for b, t, cap in (("facade", "map", 160), ("facade", "set", 100), ("specm", "map", 250), ("specs", "set", 160)):
        grid = []
        for k, c in codes_of(b, t):
            if c in ("fm", "fs") or c[:2] in ("cm", "cs", "ll", "rl"):
                for f in fams_of(b, k):
                    for n in ((0, 1, 2, 3, 4, 5, 7, 8, 12, 20, 50, 130, 260) if x.q else x.sizes):
                        if not (U.limit(c) and n > U.limit(c)) and n <= 300:
                            grid.append((k, c, f, n))
        for k, c, f, n in x.rng.sample(grid, min(x.n(cap), len(grid))):
            code = with_range(c, x.rng)
            t1 = x.rng.randrange(1, max(n, 1) + 1)
            ops = {"map": ["l 1", "ga 1 get", "ga 1 gkv", "it 1 iter", "s 1 gm %d %d" % (t1, t1 + 100000), "m 1 %d %d" % (t1, t1 + 200000), "ga 1 idx", "it 1 vals"],
                   "set": ["l 1", "ga 1 sget", "ga 1 shas", "it 1 siter", "so 1 1 un lazy", "r 1 1 eq"]}[t]
            route = x.rng.choice(routes(b, t, c, n))
            order = x.rng.choice(U.ORDERS)
            seed = x.rng.randrange(1 << 30)
            for hm in U.HASHERS:
                e = {"o": 1, "t": t, "lo": 1, "hi": n}
                bo = build_op(b, k, e, code, x.rng, hm=hm, order=order, route=route)
                out.append((b, "%s %s %d 10 %d|%s|%s" % (k, f, n, seed, bo, "|".join(ops))))
    return out


# ------------------------------------------------------------------ the plans
MAPBINS = [("facade", 3), ("specm", 5), ("ranges", 1)]
SETBINS = [("facade", 3), ("specs", 5), ("ranges", 1)]
ALLBINS = [("facade", 3), ("specm", 3), ("specs", 3), ("ranges", 1)]

#  property: models, histories [(name, number, embeddings of each, bins)], scenarios, blamed events
PLANS = {
    "C01": dict(models=["map"], hists=[("get", 60, 3, MAPBINS)], probes=p_c01, blame={"get", "gall"}),
    "C02": dict(models=["dup"], hists=[("get", 30, 2, MAPBINS), ("sget", 30, 2, SETBINS)], probes=p_c02, blame={"build", "len", "iter"}),
    "C03": dict(models=["map", "all"], hists=[("upd", 60, 4, MAPBINS), ("upd2", 200, 2, MAPBINS)], probes=p_c03, blame={"set", "many", "get", "gall", "iter", "len"}, needs={"set", "many"}),
    "C04": dict(models=["map"], hists=[("many", 60, 3, MAPBINS), ("many2", None, 12, MAPBINS)], probes=p_c04, blame={"many", "get", "gall", "iter"}, needs={"many"}),
    "C05": dict(models=["iter"], hists=[("reads", 60, 3, ALLBINS)], probes=p_c05, blame={"iter", "len", "ifold", "ilast", "icnt", "inew", "inext", "idrop"}),
    "C06": dict(models=["iter", "comb"], hists=[("iter", 60, 3, ALLBINS), ("iter2", None, 2, ALLBINS), ("comb", 60, 3, SETBINS), ("comb2", None, 1, SETBINS)], probes=p_combiter,
                blame={"inext", "inth", "ihint", "ilen", "icnt", "ifold", "ilast", "iclone", "idrop", "inew", "icomb"}),
    "C07": dict(models=["set"], hists=[("sget", 60, 3, SETBINS)], probes=p_c07, blame={"get", "gall"}),
    "C08": dict(models=["set", "comb"], hists=[("sop", None, 4, SETBINS), ("sopbig", None, 1, SETBINS), ("setmix", 40, 2, SETBINS), ("comb", 30, 2, SETBINS)], probes=p_sop,
                blame={"sop", "icomb", "inext", "ifold", "icnt"}),
    "C09": dict(models=["set"], hists=[("rel", None, 4, SETBINS), ("relbig", None, 2, SETBINS), ("setmix", 40, 2, SETBINS)], probes=p_rel, blame={"rel", "eq"}),
    "C10": dict(models=["map", "all"], hists=[("eq", 60, 3, MAPBINS), ("eqbig", 40, 2, MAPBINS), ("eqsub", None, 12, MAPBINS)], probes=p_c10, blame={"eq"}),
    "C11": dict(models=["map", "all"], hists=[("clone", 60, 3, ALLBINS), ("clone2", None, 3, MAPBINS)], probes=p_c11,
                blame={"get", "gall", "iter", "len", "eq", "set", "many", "clone", "assign", "drop", "rel", "sop", "inew", "inext", "ihint", "ilen", "ifold", "idrop"}, needs={"clone", "assign"}),
    "C12": dict(models=["dup"], hists=[("dup", 100, 6, [("facade", 1)])], probes=p_c12, blame={"*"}),
    "C13": dict(models=["map", "set"], hists=[], probes=p_c13, blame={"*"}, group="hasher"),
    "C14": dict(models=["map"], hists=[], probes=p_c14, blame={"*"}),
    "C15": dict(models=["map"], hists=[("mix", 40, 3, [("ranges", 1)]), ("mixs", 40, 3, [("ranges", 1)])], probes=p_c15, blame={"*"}),
    "C18": dict(models=["all"], modules=readers_module, hists=[("reads", 60, 3, ALLBINS)], probes=p_c18, procs=3, blame={"share", "gall", "get", "iter", "len", "inew", "inext", "inth", "ihint", "ilen", "icnt", "ifold", "ilast", "eq"}),
    "C16": dict(models=["all", "set"], hists=[("mix", 80, 4, [("specm", 4), ("ranges", 1)]), ("mixs", 80, 4, [("specs", 4), ("ranges", 1)])], probes=p_c16, blame={"*"}),
}
