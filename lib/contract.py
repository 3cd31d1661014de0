"""Deciding one property with the Frozen specification: model checking, generated histories replayed on the real
collections, systematic scenarios, and validation of everything recorded against the specification."""
import json, os, random, re, threading, time
import embed, harness, hist, plans, tlc, universe as U, validate


def blamed(plan, trace, idx):
    """Is the rejected event one whose failure means that this property is broken?"""
    ev = trace["ev"][idx]
    op = ev["op"]
    if op in ("panic", "crash", "hang"):
        op = {"b": "build", "g": "get", "ga": "gall", "l": "len", "s": "set", "m": "many", "it": "iter", "in": "inew", "ic": "icomb", "nx": "inext",
              "nt": "inth", "h": "ihint", "el": "ilen", "c": "icnt", "f": "ifold", "la": "ilast", "cl": "iclone", "id": "idrop", "e": "eq", "r": "rel", "so": "sop",
              "co": "clone", "as": "assign", "d": "drop", "th": "share", "?": "?"}[ev.get("in", "?").split(" ")[0]]
    b = plan["blame"]
    if op == "?":
        return True
    if "*" not in b and op not in b:
        return False
    need = plan.get("needs")
    return not need or op in need or any(e["op"] in need for e in trace["ev"][:idx])


def run_histories(plan, ctx, workdir, seed, res):
    """TLC generates or enumerates the histories of the plan, each is embedded a number of times."""
    rng = random.Random("%s-embed-%s" % (seed, plan["id"]))
    out, err, lock = {}, [], threading.Lock()

    def one(h):
        name, num, reps, bins = h
        conf, how = plans.H[name]
        try:
            if how == "all":
                hs, _ = hist.enumerate_all(workdir, "H_" + name, conf)
            else:
                hs = hist.generate(workdir, "H_" + name, conf, ctx.n(num, num * 6), seed)
            out[name] = hs
        except Exception as x:  # noqa
            err.append(x)
    ts = [threading.Thread(target=one, args=(h,)) for h in plan["hists"]]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if err:
        raise err[0] if isinstance(err[0], tlc.ToolError) else tlc.ToolError(repr(err[0]))
    jobs, unsupported = [], 0
    for name, num, reps, bins in plan["hists"]:
        hs = out[name]
        res["histories_" + name] = len(hs)
        # the simulator prints every alternative for the last step of a walk: keep a few of them
        if plans.H[name][1] == "sim":
            per, keep = {}, []
            rng.shuffle(hs)
            for h in hs:
                k = json.dumps(h[:-1])
                per[k] = per.get(k, 0) + 1
                if per[k] <= 4:
                    keep.append(h)
            hs = keep
        cap = ctx.n(2500, 15000)
        if len(hs) * reps > cap:
            if len(hs) > cap:
                hs = rng.sample(hs, cap)
            reps = max(1, cap // len(hs))
        names, weights = [b for b, _ in bins], [w for _, w in bins]
        for h in hs:
            for _ in range(reps if ctx.q else reps * 2):
                b = rng.choices(names, weights)[0]
                pool = U.FACADE_KEYS if b == "facade" else list({**U.MAPS[b], **U.SETS.get(b, {})}) if b in U.MAPS else list(U.SETS[b])
                key = rng.choice(pool) if rng.random() < 0.7 else rng.choice(["u32", "string", "string"] if b != "ranges" else ["u8", "i8", "u64", "i128"])
                if key not in pool:
                    continue
                j = embed.embed(h, b, key, rng, mixed=rng.random() < .5, std=rng.random() < .5)
                if j is None:
                    unsupported += 1
                else:
                    jobs.append((b, j))
    res["histories_embedded"] = len(jobs)
    res["embeddings_without_the_operation"] = unsupported
    return jobs


def crash_trace(binary, jid, line, workdir, kind):
    evs, op = harness.rerun_traced(binary, jid, line, workdir, 70)
    ev = [json.loads(e) for e in evs]
    ev.append({"op": kind, "in": op or "?"})
    return {"ev": ev}


def group_of(line):
    """a C13 job without its hasher"""
    head, b, rest = line.split("|", 2)
    f = b.split(" ")
    f[6] = "*"
    return head + "|" + " ".join(f) + "|" + rest


def execute(workdir, jobs, res, module="FrozenTrace", procs=8):
    """Runs [(binary, line)], validates what they recorded; returns [(binary, line, trace, event index)] rejected."""
    by = {}
    for i, (b, line) in enumerate(jobs):
        by.setdefault(b, []).append((str(i), line))
    lines = {str(i): line for i, (b, line) in enumerate(jobs)}
    bins = {str(i): b for i, (b, line) in enumerate(jobs)}
    distinct, members, deaths = {}, {}, []
    for b, js in by.items():
        traces, same, died = harness.run_jobs(b, js, workdir, "run-" + b, procs=procs)
        for jid, js_ in traces.items():
            if js_ == '{"ev":[]}':
                res["void_no_such_keys"] = res.get("void_no_such_keys", 0) + 1
                continue
            members.setdefault(js_, []).append(jid)
            distinct.setdefault(js_, jid)
        for jid, j0 in same.items():
            js_ = traces[j0]
            if js_ != '{"ev":[]}':
                members[js_].append(jid)
            else:
                res["void_no_such_keys"] = res.get("void_no_such_keys", 0) + 1
        for jid, kind, rc in died:
            deaths.append((jid, kind))
    for jid, kind in deaths[:20]:
        t = json.dumps(crash_trace(bins[jid], jid, lines[jid], workdir, kind))
        members.setdefault(t, []).append(jid)
        distinct.setdefault(t, jid)
    res["scenarios_run"] = res.get("scenarios_run", 0) + sum(len(v) for v in members.values())
    res["distinct_traces"] = res.get("distinct_traces", 0) + len(distinct)
    rej, gen, dis = validate.validate(workdir, "tv", [(jid, js_) for js_, jid in distinct.items()], module=module)
    res["trace_states"] = res.get("trace_states", 0) + dis
    text = {jid: js_ for js_, jid in distinct.items()}
    out = []
    for tid, r in rej:
        for jid in members[text[tid]]:
            out.append((bins[jid], lines[jid], r.trace, r.event))
    accepted = {lines[j] for js_, ids in members.items() if distinct[js_] not in {t for t, _ in rej} for j in ids}
    return out, accepted, text


def self_test(workdir, text):
    """The binding is not vacuous: recorded traces with one corrupted result must be rejected."""
    bad = []
    for js in list(text.values()):
        t = json.loads(js)
        for i, e in enumerate(t["ev"]):
            c = json.loads(js)
            x = c["ev"][i]
            if e["op"] in ("get", "gall") and e["rs"] and not isinstance(e["rs"][0], list):
                x["rs"][-1] += 1
            elif e["op"] == "len":
                x["n"] += 1
            elif e["op"] == "iter" and len(e["ks"]) > 1:
                x["ks"] = x["ks"][1:]
            elif e["op"] == "eq" or e["op"] == "rel":
                x["r"] = 1 - x["r"]
            elif e["op"] == "inext" and e["k"] >= 0:
                x["k"] += 1000000
            elif e["op"] == "sop":
                x["ks"] = x["ks"] + [1000000]
            else:
                continue
            bad.append(("x%d" % len(bad), json.dumps(c)))
            if len(bad) >= 60:
                break
        if len(bad) >= 60:
            break
    bad = bad[::3] or bad
    rej, _, _ = validate.validate(workdir, "selftest", bad, procs=1)
    if len(rej) != len(bad):
        raise tlc.ToolError("self-test: only %d of %d corrupted traces were rejected" % (len(rej), len(bad)))
    return len(bad)


def released(bins):
    return list(bins) + [b + "@release" for b in bins]


def also_released(jobs, quick, rng):
    """some of the scenarios again (all but the long ones in the thorough tier), in a build without overflow checks and debug assertions"""
    few = [j for j in jobs if harness.size_of(j[1]) < 1000000]
    return jobs + [(b + "@release", l) for b, l in (rng.sample(few, len(few) // 4) if quick else few)]


def check(pid, tier, seed, workdir):
    plan = dict(plans.PLANS[pid], id=pid)
    ctx = plans.Ctx(tier, random.Random("%s-%s" % (seed, pid)))
    res = {}
    # building the harness, model checking and generating histories are independent
    probes = plan["probes"](ctx)
    need = sorted({b for b, _ in probes} | {b for h in plan["hists"] for b, _ in h[3]})
    errs, models, hjobs = [], {}, []

    def guard(f, *a):
        def g():
            try:
                f(*a)
            except Exception as x:  # noqa
                errs.append(x if isinstance(x, tlc.ToolError) else tlc.ToolError(repr(x)))
        t = threading.Thread(target=g)
        t.start()
        return t

    def model(m):
        conf = dict(plans.MODELS[m])
        if not ctx.q:
            conf["Depth"] += 1
        models[m] = hist.model_check(workdir, "M_" + m, conf, timeout=2500)
    ts = [guard(lambda: res.__setitem__("build_s", round(harness.build(released(need)), 1)))]
    ts += [guard(model, m) for m in plan["models"]]
    extra = plan.get("modules", lambda c: [])(ctx)
    ts += [guard(lambda m=m, cfg=cfg: models.__setitem__(m, hist.model_check_module(workdir, m, cfg, timeout=2500))) for m, cfg in extra]
    ts += [guard(lambda: hjobs.extend(run_histories(plan, ctx, workdir, seed, res)))]
    for t in ts:
        t.join()
    if errs:
        raise errs[0]
    jobs = also_released(hjobs + probes, ctx.q, random.Random("%s-released-%s" % (seed, pid)))
    rej, accepted, text = execute(workdir, jobs, res, procs=plan.get("procs", 8))
    res["corrupted_traces_rejected"] = self_test(workdir, dict(list(text.items())[-40:])) if text and not rej else 0
    bad, void = [], 0
    if plan.get("group"):
        ok = {group_of(l) for l in accepted}
    for b, line, trace, i in rej:
        if not blamed(plan, trace, i) or (plan.get("group") and group_of(line) not in ok):
            void += 1
        else:
            bad.append((b, line, trace, i))
    res["void_rejections"] = void
    st = sum(m.distinct for m in models.values())
    tr = sum(m.generated for m in models.values())
    cov = dict(states=st, transitions=tr, traces_validated_against_impl=res.get("scenarios_run", 0), samples=samples(jobs, text), models={m: dict(distinct_states=r.distinct, states_generated=r.generated, conf=jsonable(plans.MODELS[m]) if m in plans.MODELS else dict(extra)[m].split("\n")) for m, r in models.items()}, **res)
    return bad, cov


def jsonable(c):
    return {k: (v if not isinstance(v, (list, tuple)) else [list(x) if isinstance(x, tuple) else x for x in v]) for k, v in c.items()}


def samples(jobs, text):
    out = []
    ids = sorted(text, key=int)
    for jid in ids[:: max(1, len(ids) // 3)][:3]:
        b, line = jobs[int(jid)]
        out.append({"binary": b, "scenario": line[:400], "recorded": text[jid][:600]})
    return out
