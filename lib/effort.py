"""C20: collections of keys which report being hashed and compared.  The lookups of spec/Layout.tla's histories, and lookups
in larger collections with regular, random and adversarial hash codes, are validated against spec/Effort.tla: some table
size must explain every comparison."""
import json, math, os, random, shutil, threading
import contract, harness, hist, tlc, validate
from tlc import ToolError

PROPERTY = "C20"
ASSUMPTIONS = ["TLC, the JVM, rustc and the standard library behave as documented", "keys report being hashed and compared faithfully (they live in the harness)",
               "the retained memory is that seen by the harness's global allocator; a slot takes at most two machine words"]
HASHED = ["cm8", "cm16", "cmz", "cs8", "csz", "fm", "fs", "fmp", "fmb", "fmw", "cmp", "fsp", "fsb", "fsw", "csp", "csb8"]
SLICE = ["ll8", "llz", "rl16", "rlz", "lls8", "llsz", "rls8", "rls32"]
LENGTH = ["lm8", "lmz", "ls8", "lsz"]
INTS = ["im8", "imz", "is8", "isz"]
RANGE = ["irm", "irs"]
SCAN = ["sm", "ss"]
BLIND = ["fmu", "fmt", "fsu", "fst"]
ALL = HASHED + SLICE + LENGTH + INTS + RANGE + SCAN + BLIND
SMALL = {t for t in ALL if t.endswith("8")}
MAPS = {"fm", "fmu", "fmt", "cm8", "cm16", "cmz", "sm", "lm8", "lmz", "ll8", "llz", "rl16", "rlz", "im8", "imz", "irm", "fmp", "fmb", "fmw", "cmp"}
PRIMES = [131, 163, 197, 239, 293, 353, 431, 521, 631, 761, 919, 1103, 1327, 1597, 1931, 2333, 2801, 3371, 4049, 4861, 5839, 7013, 8419, 10103, 12143, 14591, 17519, 21023, 25229, 30293]
TOP = 1 << 63


def cfg(codes, maxn, medium, large, ms, mm, ml, depth, emit):
    return ("SPECIFICATION LSpec\nCONSTANTS\n Codes = {%s}\n MaxN = %d\n MediumAt = %d\n LargeAt = %d\n MultS = %d\n MultM = %d\n MultL = %d\n Percent = 25\n Shrink = 50\n Primes <- SomePrimes\n Depth = %d\n Emit = %s\n"
            % (", ".join(map(str, codes)), maxn, medium, large, ms, mm, ml, depth, str(emit).upper())
            + ("INVARIANT EmitInv\n" if emit else "INVARIANT Placed\nINVARIANT Right\nINVARIANT Fair\nINVARIANT NoEmptyTable\nPROPERTY Refines\n") + "CHECK_DEADLOCK FALSE\n")


def lookups(keys, rng, some):
    """calls on a collection of (code, tag) keys"""
    out = []
    stored = keys if len(keys) <= some else rng.sample(keys, some)
    for c, t in stored:
        out.append([(c, t)])
    n = len(keys)
    for _ in range(some):
        c, t = rng.choice(keys) if keys else (0, 0)
        k = rng.randrange(8)
        if k == 0:
            out.append([(c, 99)])
        elif k == 1:
            out.append([(c + rng.choice([1, 2, n, 2 * n, 16 * n]), rng.choice([t, 99]))])
        elif k == 2:
            out.append([(max(0, c - rng.choice([1, 2, n])), t)])
        elif k == 3:
            out.append([(rng.randrange(4 * n + 4), 0)])
        elif k == 4:
            out.append([(rng.getrandbits(63), 0)])
        else:
            ps = [rng.choice(keys) if keys and rng.random() < .7 else (rng.randrange(4 * n + 4), 99) for _ in range(rng.randrange(1, 5))]
            out.append(ps)
    return out


def call(ty, ps, rng):
    how = "y" if len(ps) > 1 else rng.choice("gkhmgkhmxXy" if ty in MAPS else "gh")
    return how + " " + ",".join("%d.%d" % p for p in ps)


def job(ty, mode, keys, calls, rng):
    return ("effort", "%s|%s|%s|%s" % (ty, mode, ",".join("%d.%d" % k for k in keys), ";".join(call(ty, ps, rng) for ps in calls)))


def distinct(keys, ty):
    if ty in INTS + RANGE + ["fmu", "fsu"]:
        return list({c: (c, 0) for c, _ in keys}.values())
    return keys


def crowd(n, target, rng):
    """n codes with a collision at every size that is looked at up to 16 n, but none at the target size"""
    sizes = sorted(set(range(n, 16 * n + 1)) if n <= 7 else {n} | {p for p in PRIMES if n <= p <= 16 * n}, reverse=True)
    for _ in range(200):
        ds = [1] * (n - 1)
        for m in rng.sample(sizes, len(sizes)) if n > 7 else sizes:
            for k in range(n - 1):
                l = ds[k] * m // math.gcd(ds[k], m)
                if l < TOP >> 3 and (not target or l % target):
                    ds[k] = l
                    break
            else:
                return None
        codes = {0}
        seen = {0}
        fine = True
        for d in ds:
            d0 = d
            for _ in range(50):
                d = d0 * rng.randrange(1, 8) if d0 > 1 else rng.getrandbits(60)
                if d not in codes and (not target or d % target not in seen):
                    break
            else:
                fine = False
                break
            codes.add(d)
            if target:
                seen.add(d % target)
        if fine and all(len({c % m for c in codes}) < n for m in sizes):
            return sorted(codes)
    return None


def families(rng, n):
    base = rng.choice([0, 1, 17, 1 << 16, (1 << 16) - n // 2 if n < 60000 else 0, 1 << 32, (1 << 48) - 3, rng.getrandbits(62)])
    out = [("consecutive", [base + i for i in range(n)])]
    for s in {2, 3, n, n + 1, 16, 16 * n, 1 << 20}:
        out.append(("stride %d" % s, [base + i * s for i in range(n)]))
    out.append(("random", rng.sample(range(1 << 62), n)))
    for w in (2, 4, 20):
        out.append(("dense %d" % w, rng.sample(range(base, base + w * n + 1), n)))
    out.append(("heaps", sorted({rng.randrange(4) * (1 << 30) + rng.randrange(n * 2 + 2) for _ in range(n)})))
    out.append(("gap", [base + i + (i >= n // 2) for i in range(n)]))
    return [(a, [c % TOP for c in cs]) for a, cs in out]


def check(pid, tier, seed, workdir):
    quick = tier == "quick"
    rng = random.Random("%s-%s" % (seed, pid))
    res, models, errs, hs = {}, {}, [], []

    def guard(f, *a):
        def g():
            try:
                f(*a)
            except Exception as x:  # noqa
                errs.append(x if isinstance(x, ToolError) else ToolError(repr(x)))
        t = threading.Thread(target=g)
        t.start()
        return t

    def model(name, *a):
        d = os.path.join(workdir, "m-" + name)
        os.makedirs(d)
        shutil.copy(os.path.join(tlc.SPEC, "Layout.tla"), d)
        models[name] = hist.model_check_module(d, "MCLayout", cfg(*a), timeout=2500)

    def simulate():
        d = os.path.join(workdir, "sim")
        os.makedirs(d)
        for f in ("Layout.tla", "MCLayout.tla"):
            shutil.copy(os.path.join(tlc.SPEC, f), d)
        with open(os.path.join(d, "S.cfg"), "w") as f:
            f.write(cfg([0, 1, 2, 3, 4, 5, 7, 12, 13], 5, 200, 1000, 4, 3, 2, 6, True))
        r = tlc.run(d, "MCLayout", "S.cfg", args=["-simulate", "num=%d" % (4000 if quick else 30000), "-depth", "200", "-seed", str(seed)], timeout=900, heap="3g", workers=1)
        got = hist.parse(r.out)
        if not got:
            raise ToolError("no histories generated:\n" + r.out[-2000:])
        per = {}
        for h in got:
            per.setdefault(json.dumps(h[:-1]), h)
        hs.extend(per.values())
    big = [0, 1, 2, 3, 4, 5, 7, 12] if quick else [0, 1, 2, 3, 4, 5, 6, 7, 12]
    ts = [guard(lambda: res.__setitem__("build_s", round(harness.build(contract.released(["effort"])), 1))),
          guard(model, "branches", big, 5, 5, 6, 2, 3, 2, 1, False),
          guard(model, "dense", [0, 1, 2, 3, 5, 8, 60, 121], 4, 20, 30, 4, 3, 2, 1, False),
          guard(model, "wide", [0, 1, 2, 60, 2520], 4, 80, 90, 16, 10, 3, 1, False),
          guard(simulate)]
    for t in ts:
        t.join()
    if errs:
        raise errs[0]
    jobs = []
    # the model's histories
    modes = ["ident", "ident", "ident", "fnv", "low", "zero", "high"]
    res["histories"] = len(hs)
    for h in hs:
        cs = h[0]["cs"]
        keys = [(c, i + 1) for i, c in enumerate(cs)]
        for ty in rng.sample(ALL, 3 if quick else 8):
            a, b = rng.choice([(1, 0), (1, 0), (1, 1000), (1 << 33, 5), (2, 0), (3, 1 << 20), (len(cs), 1)])
            f = lambda c: c * a + b  # noqa
            ks = [(f(c), t) for c, t in keys]
            if ty in RANGE + INTS and len({c for c, _ in ks}) < len(ks):
                continue
            if ty in RANGE and (a != 1 or sorted(cs) != list(range(min(cs, default=0), min(cs, default=0) + len(cs)))):
                continue
            if ty in BLIND:
                ks = distinct([(c % 1000003, t) for c, t in ks], ty)
            calls = [[(f(x["c"]), x["k"] or 99)] for x in h[1:]]
            jobs.append(job(ty, rng.choice(modes), ks, calls, rng))
    # larger collections
    small = len(jobs)
    sizes = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 13, 16, 24, 33, 64, 100, 127, 128, 129, 150, 200, 255] + [256, 300, 400, 700]
    some = {n: 30 if n < 130 else 20 for n in sizes}
    for ty in ALL:
        for n in sizes if quick else sizes + [900, 1000, 1200]:
            if ty in SMALL and n > 255 or (ty in SCAN and n > 40) or (n > 255 and quick and rng.random() < .6):
                continue
            fams = families(rng, n)
            if ty in RANGE:
                fams = fams[:1]
            elif quick and n > 16:
                fams = fams[:1] + rng.sample(fams[1:], 3 if n < 130 else 2)
            for name, cs in fams:
                if ty in ("fmu", "fsu"):
                    cs = [c % (1 << 31) for c in cs]
                rng.shuffle(cs)
                keys = [(c, rng.randrange(3)) for c in cs] if ty not in INTS + RANGE + ["fmu", "fsu"] else list({(c, 0) for c in cs})
                if ty not in INTS + RANGE + BLIND and rng.random() < .2:
                    keys += [(c, t + 10) for c, t in rng.sample(keys, len(keys) // 8)]
                    if ty in SMALL:
                        keys = keys[:255]
                if ty in SLICE and rng.random() < .2:
                    calls = lookups(keys, rng, some.get(n, 12)) + [[(5, 1000)]]
                else:
                    calls = lookups(keys, rng, some.get(n, 12))
                mode = "ident" if rng.random() < .75 else rng.choice(modes)
                jobs.append(job(ty, mode, keys, calls, rng))
    # codes which collide at every size
    hard = 0
    for ty in ["cmz", "csz", "llz", "rlz", "llsz", "lmz", "lsz", "imz", "isz"]:
        for n in [2, 3, 4, 5, 6, 7, 9, 20, 40, 100, 128, 150, 200] + ([400] if quick else [400, 700, 1000]):
            for target in [None] + [p for p in ([37, 41, 43, 53, 61, 67, 83, 101, 131] if n <= 7 else PRIMES) if 17 * n < p <= 40 * n][: (2 if quick else 6)]:
                cs = crowd(n, target, rng)
                if cs:
                    hard += 1
                    keys = [(c, 0) for c in cs]
                    rng.shuffle(keys)
                    jobs.append(job(ty, "ident", keys, lookups(keys, rng, 10), rng))
    res["adversarial_codes"] = hard
    jobs = contract.also_released(jobs, quick, rng)
    rej, accepted, text = contract.execute(workdir, jobs, res, module="EffortTrace")
    if not rej:
        bad = []
        for js in rng.sample([t for t in text.values() if '"kind":"hash"' in t and t.count('"op":"look"') > 5], 20):
            t = json.loads(js)
            looks = [k for k, e in enumerate(t["ev"]) if e["op"] == "look" and e["hashes"] + len(e["cmp"]) > 0]
            if not looks:
                continue
            k = rng.choice(looks)

            def change(f):
                c = json.loads(js)
                f(c["ev"])
                bad.append((len(bad), json.dumps(c)))
            change(lambda ev: ev[k].__setitem__("hashes", len(ev[k]["ps"]) + 1))
            change(lambda ev: ev[0].__setitem__("room", 17 * len(ev[0]["codes"]) + 1))
            if t["ev"][k]["cmp"]:
                change(lambda ev: ev[k]["cmp"].append(ev[k]["cmp"][0]))
            n = len(t["ev"][0]["codes"])
            val = lambda c: sum(d << (16 * (3 - i)) for i, d in enumerate(c))  # noqa
            every = [val(c) for c in t["ev"][0]["codes"]] + [val(t["ev"][k]["ps"][0])]
            if n > 3 and len(set(every[:n])) == n and all(len({c % m for c in every}) > 1 for m in range(n - n // 20, 16 * n + 1)):
                change(lambda ev: ev[k].__setitem__("cmp", [[1, x + 1] for x in range(n)]))
        r2, _, _ = validate.validate(workdir, "selftest", bad, module="EffortTrace", procs=1)
        if len(r2) != len(bad):
            raise ToolError("self-test: only %d of %d corrupted traces were rejected" % (len(r2), len(bad)))
        res["corrupted_traces_rejected"] = len(bad)
    # dying or hanging is some other property's business
    out = [x for x in rej if x[2]["ev"][x[3]]["op"] in ("build", "look")]
    res["void_rejections"] = len(rej) - len(out)
    cov = dict(states=sum(m.distinct for m in models.values()), transitions=sum(m.generated for m in models.values()), traces_validated_against_impl=res.get("scenarios_run", 0),
               types=ALL, samples=contract.samples(jobs, text), models={k: dict(distinct_states=m.distinct, states_generated=m.generated) for k, m in models.items()}, **res)
    return out, cov
