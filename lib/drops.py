"""C19: keys and values which report being cloned and dropped go through the histories of spec/OwnershipHist.tla and through
larger random ones, with panics injected; every recorded history is validated against spec/Ownership.tla."""
import json, os, random, threading
import contract, harness, hist, tlc, validate
from tlc import ToolError

PROPERTY = "C19"
ASSUMPTIONS = ["TLC, the JVM, rustc and the standard library behave as documented",
               "keys and values report their clones and drops faithfully (they live in the harness)",
               "memory is accounted for by the harness's global allocator"]

# type -> (kind, families, can keys repeat)
FACADE = "lm<>ro"
SLICE = "<>r"
MAPS = {"fm": FACADE, "fmr": FACADE, "fmu": "rlo", "fmt": FACADE, "cm8": FACADE, "cm16": FACADE, "cmr": FACADE, "sm": FACADE, "lm8": "l", "lm32": "l",
        "ll8": SLICE, "llr": SLICE, "rl8": SLICE, "rlz": SLICE, "im8": "rlo", "imz": "rlo", "irm": "r"}
SETS = {"fs": FACADE, "fsr": FACADE, "fsu": "rlo", "fst": FACADE, "cs8": FACADE, "cs16": FACADE, "csr": FACADE, "ss": FACADE, "ls8": "l", "lsz": "l",
        "lls8": SLICE, "lls16": SLICE, "rls8": SLICE, "rls32": SLICE, "is8": "rlo", "irs": "r"}
REPEATS = {"fm", "fmr", "fmu", "fmt", "fs", "fsr", "fsu", "fst"}
TRACKED = set(MAPS) | set(SETS) - {"fsu", "fst", "is8", "irs"}
TRACKEDKEY = (set(MAPS) - {"fmu", "fmt", "im8", "imz", "irm"}) | (set(SETS) - {"fsu", "fst", "is8", "irs"})
ONEWAY = {"cmr", "lm8", "lm32", "imz"}
READS_MAP = ["get", "gkv", "has", "idx", "iter", "keys", "vals", "dbg", "eq", "len"]
READS_SET = ["get", "has", "iter", "dbg", "eq", "sub", "sup", "dis", "uni", "int", "dif", "sym", "len"]
MODES = ["fnv", "fnv", "sip", "ident", "zero", "two", "low", "high", "mid"]
SMALL = {"cm8", "cs8", "ll8", "rl8", "lls8", "rls8", "im8", "is8", "lm8", "ls8"}

CONST = "SPECIFICATION HSpec\nCONSTANTS\n Types = {\"%s\"}\n Tracked = %s\n NKids = %d\n MaxPay = %d\n MaxObj = %d\n MaxIt = %d\n MaxTok = %d\n Depth = %d\n Ops = {%s}\n Sim = %s\n Emit = %s\n"
INVS = "".join("INVARIANT %s\n" % i for i in ("OTypeOK", "AtMostOnce", "GoneMeansDropped", "Accounted", "AllReturned", "NotStuck"))
ALL = ["build", "write", "many", "clone", "assign", "drop", "read", "sop", "into", "iter", "iclone", "release"]
OPS = {"map": ["build", "write", "many", "clone", "assign", "drop", "read", "release"], "set": ["build", "clone", "assign", "drop", "read", "sop", "into", "iter", "iclone", "release"]}


def cfg(types, tracked, kids, pay, obj, it, tok, depth, ops, sim=False, emit=False):
    return CONST % ('", "'.join(types), str(tracked).upper(), kids, pay, obj, it, tok, depth, ", ".join('"%s"' % o for o in ops), str(sim).upper(), str(emit).upper()) \
        + ("INVARIANT EmitInv\n" if emit else INVS) + "CHECK_DEADLOCK FALSE\n"


def simulate(workdir, kind, num, seed, depth):
    import shutil
    d = os.path.join(workdir, "sim-" + kind)
    os.makedirs(d)
    shutil.copy(os.path.join(tlc.SPEC, "OwnershipHist.tla"), d)
    with open(os.path.join(d, "S.cfg"), "w") as f:
        f.write(cfg([kind], True, 4, 5, 3, 2, 90, depth, OPS[kind], True, True))
    r = tlc.run(d, "OwnershipHist", "S.cfg", args=["-simulate", "num=%d" % num, "-depth", "300", "-seed", str(seed)], timeout=600, heap="3g", workers=1)
    hs = hist.parse(r.out)
    if not hs:
        raise ToolError("no histories generated:\n" + r.out[-2000:])
    seen, out = set(), []
    for h in hs:
        k = json.dumps(h)
        if k not in seen:
            seen.add(k)
            out.append(h)
    return out


def route(ty, n, rng):
    if ty in ONEWAY:
        return "vec"
    return rng.choice(["vec", "iter", "lazy"] + (["arr"] if n <= 10 else []))


def head(ty, rng, fam=None):
    kind = "map" if ty in MAPS else "set"
    fams = (MAPS if kind == "map" else SETS)[ty]
    fam = fam or rng.choice(fams)
    mode = rng.choice(MODES) if ty not in SMALL or rng.random() < .5 else "fnv"
    return "%s|%s|%s|%s|0-3|" % (ty, kind, fam, mode), kind, fam


def spread(fam, n, rng):
    """kids for a model's 1..n"""
    top = {"l": 40, "m": 60}.get(fam, 300)
    if fam == "r" and rng.random() < .7:
        s = rng.randrange(200)
        return [s + i for i in range(n)]
    return rng.sample(range(top), n)


def faults(kind, rng, upto):
    return "%s%d" % (rng.choice(kind), rng.choice([1, 1, 2, 3, rng.randrange(1, upto + 1)]))


def embed(h, ty, rng, faulty):
    hd, kind, fam = head(ty, rng)
    kids = [None] + spread(fam, 4, rng)
    if ty in ("irm", "irs"):
        s = rng.randrange(100)
        kids = [None, s, s + 1, s + 2, s + 3]
    ops = []
    for e in h:
        w = e["op"]
        f = "-"
        if w == "build":
            ks = e["ks"]
            if ty not in REPEATS:
                ks = list(dict.fromkeys(ks))
            if ty in ("irm", "irs"):
                ks = rng.sample(range(1, len(ks) + 1), len(ks))
            r = route(ty, len(ks), rng)
            if faulty and ks and rng.random() < .4:
                f = faults("hhee" + ("l" if ty in ("lm8", "lm32", "ls8", "lsz") else "") + ("i" if r in ("iter", "lazy") else ""), rng, 6)
            ops.append("b %d %s %s %s" % (e["o"], r, f, " ".join(str(kids[k]) for k in ks)))
        elif w == "write":
            ks = e["ks"]
            via = rng.choice(["gm", "im", "many"]) if len(ks) == 1 else "many"
            ops.append("w %d %s %d %s" % (e["o"], via, 1 if e["swap"] else 0, " ".join(str(kids[k]) for k in ks)))
        elif w == "clone":
            ops.append("c %d %d %s" % (e["o"], e["p"], faults("c", rng, 5) if faulty and rng.random() < .4 else "-"))
        elif w == "assign":
            ops.append("a %d %d" % (e["o"], e["p"]))
        elif w == "drop":
            ops.append("d %d %s" % (e["o"], faults("d", rng, 4) if faulty and rng.random() < .4 else "-"))
        elif w == "read":
            ops.append("r %d %s %d %d" % (e["o"], rng.choice(READS_MAP if kind == "map" else READS_SET), kids[rng.randrange(1, 5)], e["o"]))
        elif w == "sop":
            if ty in TRACKEDKEY:
                ops.append("s %s %d %d %s" % (e["kind"], e["a"], e["b"], faults("che", rng, 5) if faulty and rng.random() < .4 else "-"))
        elif w == "into":
            ops.append("in %d %d" % (e["o"], e["i"]))
        elif w == "iter":
            if ty in TRACKEDKEY:
                ops.append("it %d %s %d %s" % (e["i"], e["how"], e["n"] if e["how"] == "nth" else rng.randrange(4), faults("d", rng, 3) if faulty and e["how"] in ("drop", "count", "nth") and rng.random() < .3 else "-"))
        elif w == "iclone":
            if ty in TRACKEDKEY:
                ops.append("ic %d %d %s" % (e["i"], e["j"], faults("c", rng, 3) if faulty and rng.random() < .4 else "-"))
        else:
            ops.append("u")
    return hd + ";".join(ops)


def capacity(ty, fam, mode):
    if fam in "lm" and ty not in ("fmu", "fsu", "im8", "imz", "is8"):
        return 40 if fam == "l" else 60
    if ty in SMALL and ty not in ("lm8", "ls8"):
        return 120
    return 300


def walk(ty, rng, steps, faulty):
    hd, kind, fam = head(ty, rng)
    mode = hd.split("|")[3]
    top = capacity(ty, fam, mode)
    if ty in SMALL and mode != "fnv" and mode != "zero":
        hd = hd.replace("|%s|" % mode, "|fnv|")
    ops, nobj = [], 3

    def payload():
        n = min(rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 20, 40, 120, 300]), top)
        if ty in ("irm", "irs") or fam == "r" and rng.random() < .5:
            s = rng.randrange(100)
            ks = [s + i for i in range(n)]
            rng.shuffle(ks)
        else:
            ks = rng.sample(range(top), n)
        if ty in REPEATS and ks and rng.random() < .6:
            for _ in range(rng.choice([1, 2, len(ks)])):
                ks.insert(rng.randrange(len(ks) + 1), rng.choice(ks))
        return ks
    near = []
    for o in range(1, 1 + rng.choice([1, 2, 2])):
        ks = payload()
        near += ks
        f = "-"
        r = route(ty, len(ks), rng)
        if faulty and ks and rng.random() < .5:
            f = "%s%d" % (rng.choice("hhe" + ("i" if r in ("iter", "lazy") else "")), rng.randrange(1, 2 + 2 * len(ks)))
        ops.append("b %d %s %s %s" % (o, r, f, " ".join(map(str, ks))))
    near = near or [1, 2]
    for _ in range(steps):
        o = rng.randrange(1, nobj + 1)
        p = rng.randrange(1, nobj + 1)
        k = rng.choice(["w", "w", "w", "r", "c", "a", "d", "b", "u", "s"] if kind == "map" else ["r", "r", "c", "a", "d", "b", "u", "s", "s", "in", "in", "it", "it", "it", "it", "ic", "is"])
        fl = lambda ks, m: "%s%d" % (rng.choice(ks), rng.randrange(1, m)) if faulty and rng.random() < .3 else "-"
        if k == "w":
            n = rng.choice([1, 1, 1, 2, 3, 4])
            ks = [rng.choice(near) if rng.random() < .9 else rng.randrange(top) for _ in range(n)]
            ops.append("w %d %s %d %s" % (o, rng.choice(["gm", "im", "many"]) if n == 1 else "many", rng.randrange(2), " ".join(map(str, ks))))
        elif k == "r":
            ops.append("r %d %s %d %d" % (o, rng.choice(READS_MAP if kind == "map" else READS_SET), rng.choice(near), p))
        elif k == "c":
            ops.append("c %d %d %s" % (o, p, fl("c", 30)))
        elif k == "a":
            ops.append("a %d %d" % (o, p))
        elif k == "d":
            ops.append("d %d %s" % (o, fl("d", 12)))
        elif k == "b":
            ops += ["d %d -" % o]
            ks = payload()
            if len(ks) <= 40:
                near += ks
            ops.append("b %d %s - %s" % (o, route(ty, len(ks), rng), " ".join(map(str, ks))))
        elif k == "s":
            if kind == "set" and ty in TRACKEDKEY:
                ops.append("s %s %d %d %s" % (rng.choice(["un", "in", "di", "sy"]), o, p, fl("che", 20)))
        elif k == "in":
            ops.append("in %d %d" % (o, rng.randrange(1, 3)))
        elif k == "it":
            if ty in TRACKEDKEY:
                how = rng.choice(["next", "next", "nth", "nth", "drop", "count", "last", "all"])
                # a panic in a drop inside Iterator::last leaks in the standard library itself
                ops.append("it %d %s %d %s" % (rng.randrange(1, 3), how, rng.choice([0, 1, 2, 3, 10]), fl("d", 4) if how != "last" else "-"))
        elif k == "ic":
            if ty in TRACKEDKEY:
                a = rng.randrange(1, 3)
                ops.append("ic %d %d %s" % (a, 3 - a, fl("c", 4)))
        elif k == "is":
            ops.append("is %d -" % rng.randrange(1, 3))
        else:
            ops.append("u")
    return hd + ";".join(ops)


def sweeps(rng, quick):
    """constructions which fail at every point: the j-th hash, comparison or payload element"""
    out = []
    for ty in list(MAPS) + list(SETS):
        for n in [1, 2, 3, 4, 5, 8, 12] + ([] if quick else [20, 40, 100]):
            for how in (["vec"] if ty in ONEWAY else ["vec", "lazy", "arr"] if n <= 10 else ["vec", "iter"]):
                for kind in "hel" + ("i" if how in ("iter", "lazy") else ""):
                    js = range(1, 2 * n + 3)
                    if quick and n > 5:
                        js = sorted(rng.sample(list(js), min(6, len(js))))
                    for j in js:
                        hd, k, fam = head(ty, rng)
                        if ty in SMALL and ty not in ("lm8", "ls8"):
                            hd = hd.replace("|%s|" % hd.split("|")[3], "|fnv|")
                        s = rng.randrange(20)
                        ks = [s + i for i in range(n)]
                        rng.shuffle(ks)
                        if ty in REPEATS and n > 1 and rng.random() < .6:
                            ks[rng.randrange(1, n)] = ks[0]
                        body = "b 1 %s %s%d %s" % (how, kind, j, " ".join(map(str, ks)))
                        body += ";c 1 2 c%d;d 1 d%d" % (rng.randrange(1, 2 * n + 1), rng.randrange(1, n + 1))
                        out.append(("drops", hd + body))
    return out


def overfull(rng, quick):
    """payloads around and above what a small index type can count"""
    out = []
    for ty in sorted(SMALL):
        kind = "map" if ty in MAPS else "set"
        fams = [f for f in (MAPS if kind == "map" else SETS)[ty] if f in "ro"] or (["l"] if ty in ("lm8", "ls8") else [])
        for n in [255, 256, 257, 290] if quick else [254, 255, 256, 257, 258, 270, 290, 300]:
            for how in (["vec"] if ty in ONEWAY else rng.sample(["vec", "iter", "lazy"], 1 if quick else 2)):
                fam = rng.choice(fams)
                hd = "%s|%s|%s|%s|0-3|" % (ty, kind, fam, "fnv")
                ks = list(range(n))
                rng.shuffle(ks)
                fault = "-" if rng.random() < .6 else "%s%d" % (rng.choice("he"), rng.randrange(1, 2 * n + 40))
                body = "b 1 %s %s %s" % (how, fault, " ".join(map(str, ks)))
                out.append(("drops", hd + body + ";c 1 2 -;d 1 -"))
    return out


def corrupted(text, rng):
    bad = []
    for js in text:
        t = json.loads(js)
        at = {}
        for i, e in enumerate(t["ev"]):
            at.setdefault(e["op"], []).append(i)

        def change(f):
            c = json.loads(js)
            f(c["ev"])
            bad.append((len(bad), json.dumps(c)))
        if at.get("dr"):
            i = rng.choice(at["dr"])
            change(lambda ev: ev.pop(i))                      # a leak
            change(lambda ev: ev.insert(i, dict(ev[i])))      # a double drop
        h = [i for i in at.get("holds", []) if t["ev"][i]["ents"] and (t["ev"][i]["ents"][0][2] or t["ev"][i]["ents"][0][1])]
        if h:
            k = rng.choice(h)
            w = 2 if t["ev"][k]["ents"][0][2] else 1
            change(lambda ev: ev[k]["ents"][0].__setitem__(w, ev[k]["ents"][0][w] + 1))
        change(lambda ev: ev[-1].__setitem__("bytes", 8))
    return bad


def check(pid, tier, seed, workdir):
    quick = tier == "quick"
    rng = random.Random("%s-%s" % (seed, pid))
    res, models, hs, errs = {}, {}, {}, []

    def guard(f, *a):
        def g():
            try:
                f(*a)
            except Exception as x:  # noqa
                errs.append(x if isinstance(x, ToolError) else ToolError(repr(x)))
        t = threading.Thread(target=g)
        t.start()
        return t

    def model(name, *a):
        d = os.path.join(workdir, "m-" + name)
        os.makedirs(d)
        models[name] = hist.model_check_module(d, "OwnershipHist", cfg(*a), timeout=2500)
    ts = [guard(lambda: res.__setitem__("build_s", round(harness.build(contract.released(["drops"])), 1))),
          guard(model, "both", ["map", "set"], True, 2, 2, 2, 1, 8, 3, ALL),
          guard(model, "map", ["map"], True, 2, 1, 2, 1, 8, 4 if quick else 5, OPS["map"]),
          guard(model, "set", ["set"], True, 2, 1 if quick else 2, 2, 1, 6, 4, OPS["set"]),
          guard(lambda: hs.__setitem__("map", simulate(workdir, "map", 1500 if quick else 8000, seed, 9))),
          guard(lambda: hs.__setitem__("set", simulate(workdir, "set", 1500 if quick else 8000, seed, 9)))]
    for t in ts:
        t.join()
    if errs:
        raise errs[0]
    jobs = []
    for kind, types in (("map", list(MAPS)), ("set", list(SETS))):
        res["histories_" + kind] = len(hs[kind])
        for ty in types:
            mine = rng.sample(hs[kind], min(len(hs[kind]), 120 if quick else 1200))
            jobs += [("drops", embed(h, ty, rng, rng.random() < .5)) for h in mine]
            jobs += [("drops", walk(ty, rng, rng.choice([4, 10, 16]), rng.random() < .5)) for _ in range(40 if quick else 500)]
    sw = sweeps(rng, quick)
    res["construction_fault_sweep"] = len(sw)
    jobs += sw
    over = overfull(rng, quick)
    res["overfull_payloads"] = len(over)
    jobs += over
    jobs = contract.also_released(jobs, quick, rng)
    rej, accepted, text = contract.execute(workdir, jobs, res, module="OwnershipTrace")
    if not rej:
        bad = corrupted(rng.sample(list(text.values()), 15), rng)
        r2, _, _ = validate.validate(workdir, "selftest", bad, module="OwnershipTrace", procs=1)
        if len(r2) != len(bad):
            raise ToolError("self-test: only %d of %d corrupted traces were rejected" % (len(r2), len(bad)))
        res["corrupted_traces_rejected"] = len(bad)
    res["traces_with_a_failing_call"] = sum('"ok":0' in js for js in text.values())
    cov = dict(states=sum(m.distinct for m in models.values()), transitions=sum(m.generated for m in models.values()), traces_validated_against_impl=res.get("scenarios_run", 0),
               types=list(MAPS) + list(SETS), samples=contract.samples(jobs, text), models={k: dict(distinct_states=m.distinct, states_generated=m.generated) for k, m in models.items()}, **res)
    return rej, cov
