"""Model checking FrozenHist and generating histories with it."""
import json, os, re
import tlc

DEFAULTS = dict(Ops=[], Sizes=[], Pays=[], SetPays=[], Types=["map"], Vias=[], IVias=[], Kinds=[])
SCALARS = dict(MaxObj=2, MaxIt=2, Absent=2, Depth=4, Sim=False, Emit=False)


def tla(x):
    if isinstance(x, bool):
        return "TRUE" if x else "FALSE"
    if isinstance(x, str):
        return '"%s"' % x
    if isinstance(x, int):
        return str(x)
    if isinstance(x, tuple):
        return "<<" + ",".join(tla(y) for y in x) + ">>"
    return "{" + ",".join(tla(y) for y in x) + "}"


def write_mc(workdir, name, conf, props=True):
    sets = dict(DEFAULTS)
    sc = dict(SCALARS)
    for k, v in conf.items():
        (sets if k in sets else sc)[k] = v
    with open(os.path.join(workdir, name + ".tla"), "w") as f:
        f.write("---- MODULE %s ----\nEXTENDS FrozenHist\n" % name)
        for k, v in sets.items():
            f.write("c_%s == %s\n" % (k, tla(v)))
        f.write("====\n")
    with open(os.path.join(workdir, name + ".cfg"), "w") as f:
        f.write("SPECIFICATION HSpec\nCONSTANTS\n")
        for k in sets:
            f.write(" %s <- c_%s\n" % (k, k))
        for k, v in sc.items():
            f.write(" %s = %s\n" % (k, tla(v)))
        if props:
            f.write("INVARIANT TypeOK\nINVARIANT HistoryProps\nPROPERTY KeysFrozen\nPROPERTY WritesLocal\nPROPERTY ReadsPure\n")
        if sc["Emit"]:
            f.write("INVARIANT EmitInv\n")
        f.write("CHECK_DEADLOCK FALSE\n")
    return sc


def model_check(workdir, name, conf, timeout=600):
    """Exhaustive: every history within the constants satisfies the listed properties."""
    write_mc(workdir, name, conf)
    r = tlc.run(workdir, name, name + ".cfg", timeout=timeout)
    return tlc.must(r, "model checking " + name)


def model_check_module(workdir, module, cfg, timeout=900):
    """Exhaustive check of a module of /verif/spec under the given configuration text."""
    import shutil
    shutil.copy(os.path.join(tlc.SPEC, module + ".tla"), workdir)
    with open(os.path.join(workdir, module + ".cfg"), "w") as f:
        f.write(cfg)
    return tlc.must(tlc.run(workdir, module, module + ".cfg", timeout=timeout), "model checking " + module)


def parse(out):
    # in an order of their own: TLC's workers print them in any
    return [json.loads(h) for h in sorted(m.group(1).replace('\\"', '"') for m in re.finditer(r'"HIST (\[.*?\])"\s*$', out, re.M))]


def generate(workdir, name, conf, num, seed, timeout=300):
    """`num` random histories of conf["Depth"] operations."""
    c = dict(conf, Sim=True, Emit=True)
    sc = write_mc(workdir, name, c, props=False)
    r = tlc.run(workdir, name, name + ".cfg", args=["-simulate", "num=%d" % num, "-depth", str(sc["Depth"] + 2), "-seed", str(seed)],
                timeout=timeout, heap="3g", workers=1)
    hs = parse(r.out)
    if not hs:
        raise tlc.ToolError("no histories generated by %s:\n%s" % (name, r.out[-3000:]))
    return hs


def enumerate_all(workdir, name, conf, timeout=300):
    """Every history of conf["Depth"] operations."""
    write_mc(workdir, name, dict(conf, Emit=True), props=False)
    r = tlc.run(workdir, name, name + ".cfg", timeout=timeout, workers=1)
    tlc.must(r, "enumerating " + name)
    return parse(r.out), r
