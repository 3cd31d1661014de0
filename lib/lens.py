"""C21: containers of every type behind Len are driven through the histories of spec/LensHist.tla and through larger
random ones; the lengths reported after each operation are validated against spec/Lens.tla."""
import json, random, threading
import contract, harness, hist, plans, tlc, validate
from tlc import ToolError

PROPERTY = "C21"
ASSUMPTIONS = ["TLC, the JVM, rustc and the standard library's containers (other than their lengths) behave as documented", "the harness reports faithfully what the public API returned"]

TYPES = {
    "seq": ["vec-u8", "vec-string", "vec-unit", "vec-arr", "vec-opt", "deque-u32", "deque-string", "deque-unit", "list-u8", "list-vec"],
    "bag": ["heap-u32", "heap-string"],
    "set": ["bset-u32", "bset-string", "hset-u32", "hset-string", "hset1-u128", "bmap-u32", "bmap-vec", "hmap-u32", "hmap-string", "hmap1-u32"],
    "text": ["string"], "byte": ["os"], "cstr": ["c"],
}
ELEMS = {"seq": [1, 2], "bag": [1, 2], "set": [1, 2, 3], "text": [97, 233, 26085, 128512], "byte": [97, 255], "cstr": [0, 195]}
# characters around every boundary of the encoding
CHARS = [0, 1, 65, 127, 128, 233, 0x7ff, 0x800, 26085, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x1f600, 0x10ffff]
SIZES = [0, 1, 2, 3, 7, 8, 15, 16, 17, 31, 63, 64, 127, 128, 255, 256, 257, 1000]


def cfg(kind, depth, emit, maxobj=2, maxsize=3, elems=None):
    return ("SPECIFICATION HSpec\nCONSTANTS\n Kind = \"%s\"\n Elems = {%s}\n MaxObj = %d\n MaxSize = %d\n Depth = %d\n Emit = %s\n"
            % (kind, ", ".join(map(str, elems or ELEMS[kind])), maxobj, maxsize, depth, "TRUE" if emit else "FALSE")
            + ("INVARIANT EmitInv\n" if emit else "INVARIANT TypeOK\nINVARIANT BytesAgree\nINVARIANT EmptyIffZero\nPROPERTY StepsCount\nPROPERTY OthersKeep\n") + "CHECK_DEADLOCK FALSE\n")


def op_text(e, rng):
    w = {"make": lambda: ["make", e["o"]] + e["xs"], "add": lambda: ["add", e["o"], e["at"], e["x"]], "take": lambda: ["take", e["o"], e["at"]], "cut": lambda: ["cut", e["o"], e["n"]],
         "clear": lambda: ["clear", e["o"]], "same": lambda: ["same", e["o"], rng.randrange(40)], "copy": lambda: ["copy", e["o"], e["p"]], "absorb": lambda: ["absorb", e["o"], e["p"]],
         "drop": lambda: ["drop", e["o"]]}[e["op"]]()
    return " ".join(map(str, w))


def walk(kind, rng, steps, big):
    """a random history over larger contents: sizes are tracked so that positions exist"""
    elem = {"seq": lambda: rng.randrange(200), "bag": lambda: rng.randrange(60), "set": lambda: rng.randrange(60), "text": lambda: rng.choice(CHARS), "byte": lambda: rng.choice([0, 65, 127, 128, 192, 200, 255, rng.randrange(256)]),
            "cstr": lambda: rng.choice([1, 65, 127, 128, 195, 255])}[kind]
    ordered = kind not in ("set", "bag")
    start = [elem() for _ in range(rng.choice([0, 0, 1, 2, 5, 9]))]
    if kind == "cstr" and rng.random() < .3:
        start.insert(rng.randrange(len(start) + 1), 0)
    held = {}

    def hold(xs):
        return list(dict.fromkeys(xs)) if kind == "set" else xs[:xs.index(0)] if kind == "cstr" and 0 in xs else xs
    held[1] = hold(start)
    ops = ["make 1 " + " ".join(map(str, start))]
    ops[0] = ops[0].strip()
    for _ in range(steps):
        o = rng.choice(list(held))
        c = held[o]
        k = rng.choice(["add", "add", "add", "take", "cut", "fill", "same", "same", "copy", "absorb", "clear", "make"] if not big else ["fill", "add", "take", "same", "cut"])
        if k == "add":
            x = elem()
            at = rng.choice([0, len(c), rng.randrange(len(c) + 1)]) if ordered else 0
            ops.append("add %d %d %d" % (o, at, x))
            if kind == "set":
                c.append(x) if x not in c else None
            else:
                c.insert(at, x)
        elif k == "take":
            if kind == "set":
                x = rng.choice(c) if c and rng.random() < .8 else elem()
                ops.append("take %d %d" % (o, x))
                held[o] = [y for y in c if y != x]
            elif kind == "bag":
                ops.append("take %d 0" % o)
                if c:
                    c.remove(max(c))
            elif c:
                at = rng.choice([0, len(c) - 1, rng.randrange(len(c))])
                ops.append("take %d %d" % (o, at))
                c.pop(at)
        elif k == "cut":
            if ordered:
                n = rng.choice([len(c), len(c) - len(c) // 4, rng.randrange(len(c) + 1)])
                held[o] = c[:n]
            else:
                n = rng.choice([60, 50, rng.randrange(60)]) if not big else 60000
                held[o] = [y for y in c if y <= n]
            ops.append("cut %d %d" % (o, n))
        elif k == "fill":
            n = rng.choice(SIZES if not big else big)
            if len(c) + n > (70000 if big else 1500):
                continue
            x = elem()
            ops.append("fill %d %d %d" % (o, x, n))
            if kind == "set":
                s = set(c)
                c.extend(y for y in range(x, x + n) if y not in s)
            else:
                c.extend([x] * n)
        elif k == "same":
            ops.append("same %d %d" % (o, rng.randrange(40)))
        elif k == "clear":
            if rng.random() < .4:
                ops.append("clear %d" % o)
                held[o] = []
        elif k == "copy":
            p = rng.choice([1, 2, 3])
            if p != o:
                ops.append("copy %d %d" % (o, p))
                held[p] = list(c)
        elif k == "absorb":
            p = rng.choice(list(held))
            if p != o and len(c) + len(held[p]) < 1500:
                ops.append("absorb %d %d" % (o, p))
                held[o] = hold(c + held[p])
                held[p] = []
        elif k == "make":
            o = rng.choice([1, 2, 3])
            xs = [elem() for _ in range(rng.choice([0, 1, 3, 20]))]
            ops.append(("make %d " % o + " ".join(map(str, xs))).strip())
            held[o] = hold(xs)
    return ";".join(ops)


def unit(ops):
    """() holds one value only"""
    return ops


def check(pid, tier, seed, workdir):
    quick = tier == "quick"
    rng = random.Random("%s-%s" % (seed, pid))
    res, models, hs, errs = {}, {}, {}, []

    def guard(f, *a):
        def g():
            try:
                f(*a)
            except Exception as x:  # noqa
                errs.append(x if isinstance(x, ToolError) else ToolError(repr(x)))
        t = threading.Thread(target=g)
        t.start()
        return t
    import os

    def model(kind, depth, emit):
        d = os.path.join(workdir, "m-%s-%d-%s" % (kind, depth, emit))
        os.makedirs(d)
        small = dict(elems=ELEMS[kind][:2] if kind != "text" else [97, 128512]) if emit else {}
        r = hist.model_check_module(d, "LensHist", cfg(kind, depth, emit, **small), timeout=2000)
        if emit:
            hs[kind] = hist.parse(r.out)
        else:
            models[kind] = r
    ts = [guard(lambda: res.__setitem__("build_s", round(harness.build(contract.released(["lens"])), 1)))]
    for kind in TYPES:
        ts.append(guard(model, kind, 4 if quick else 5, False))
        ts.append(guard(model, kind, 4, True))
        if len(ts) % 5 == 0:
            for t in ts[1:]:
                t.join()
    for t in ts:
        t.join()
    if errs:
        raise errs[0]
    jobs = [("lens", "huge|")]
    cap = 600 if quick else 4000
    for kind, types in TYPES.items():
        res["histories_" + kind] = len(hs[kind])
        for ty in types:
            mine = hs[kind] if len(hs[kind]) <= cap else rng.sample(hs[kind], cap)
            for h in mine:
                jobs.append(("lens", ty + "|" + ";".join(op_text(e, rng) for e in h)))
            for _ in range(40 if quick else 400):
                jobs.append(("lens", ty + "|" + walk(kind, rng, rng.choice([8, 20, 40]), None)))
            for _ in range(1 if quick else 6):
                jobs.append(("lens", ty + "|" + walk(kind, rng, 8, [255, 256, 32767, 32768, 65535, 65536] if ty not in ("hset1-u128", "hmap1-u32") else [255, 256, 700])))
    jobs = contract.also_released(jobs, quick, rng)
    rej, accepted, text = contract.execute(workdir, jobs, res, module="LensTrace")
    if not rej:
        bad = []
        for js in list(text.values())[::max(1, len(text) // 30)]:
            t = json.loads(js)
            k = max((i for i, e in enumerate(t["ev"]) if e["op"] == "lens"), default=None)
            if k is None:
                continue
            for f in ("ns", "es"):
                c = json.loads(js)
                c["ev"][k][f][-1] = c["ev"][k][f][-1] + 1 if f == "ns" else 1 - c["ev"][k][f][-1]
                bad.append((len(bad), json.dumps(c)))
        r2, _, _ = validate.validate(workdir, "selftest", bad, module="LensTrace", procs=1)
        if len(r2) != len(bad):
            raise ToolError("self-test: only %d of %d corrupted traces were rejected" % (len(r2), len(bad)))
        res["corrupted_traces_rejected"] = len(bad)
    # an operation that is not the one judged can only fail for reasons outside the repository
    out = [x for x in rej if x[2]["ev"][x[3]]["op"] in ("lens", "huge", "panic", "crash", "hang")]
    if len(out) != len(rej):
        raise ToolError("a container did not do what Lens.tla says: %r" % ([x for x in rej if x not in out][0],))
    cov = dict(states=sum(m.distinct for m in models.values()), transitions=sum(m.generated for m in models.values()), traces_validated_against_impl=res.get("scenarios_run", 0),
               types=sum(TYPES.values(), []), samples=contract.samples(jobs, text), models={k: dict(distinct_states=m.distinct, states_generated=m.generated) for k, m in models.items()}, **res)
    return out, cov
