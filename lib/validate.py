"""Trace validation: which recorded scenarios are behaviours of a trace specification, and where the others stop."""
import json, os, re, threading
import tlc


class Rejection:
    def __init__(self, index, event, trace):
        self.index, self.event = index, event     # event: 0-based position of the first unmatched event
        self.trace = trace

    @property
    def what(self):
        return self.trace["ev"][self.event]


def one(workdir, name, lines, module, out, i, timeout):
    try:
        f = os.path.join(workdir, "%s-%d.ndjson" % (name, i))
        with open(f, "w") as h:
            h.write("\n".join(l for _, l in lines) + "\n")
        d = os.path.join(workdir, "%s-%d" % (name, i))
        os.makedirs(d, exist_ok=True)
        for ext in (".tla", ".cfg"):
            with open(os.path.join(tlc.SPEC, module + ext)) as a, open(os.path.join(d, module + ext), "w") as b:
                b.write(a.read())
        r = tlc.run(d, module, module + ".cfg", env={"TRACE_FILE": f}, timeout=timeout, heap="2g", workers=1)
        if not r.clean:
            raise tlc.ToolError("trace validation failed:\n" + tlc.brief(r.out))
        rej = [(lines[int(a) - 1], int(b) - 1) for a, b in re.findall(r'<<"STUCK", (\d+), (\d+)>>', r.out)]
        out[i] = (rej, r.generated, r.distinct)
    except Exception as x:  # noqa
        out[i] = x


def validate(workdir, name, traces, module="FrozenTrace", procs=8, timeout=700):
    """traces: [(id, json line)].  Returns (rejections, states, distinct states)."""
    traces = [t for t in traces if t[1] != '{"ev":[]}']
    if not traces:
        return [], 0, 0
    # balance the chunks by length
    traces = sorted(traces, key=lambda t: -len(t[1]))
    n = max(1, min(procs, len(traces) // 20 + 1))
    chunks = [traces[i::n] for i in range(n)]
    out = [None] * n
    ts = [threading.Thread(target=one, args=(workdir, name, c, module, out, i, timeout)) for i, c in enumerate(chunks)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    rej, gen, dis = [], 0, 0
    for o in out:
        if isinstance(o, Exception):
            raise o if isinstance(o, tlc.ToolError) else tlc.ToolError(repr(o))
        for (tid, line), ev in o[0]:
            rej.append((tid, Rejection(tid, ev, json.loads(line))))
        gen += o[1]
        dis += o[2]
    return rej, gen, dis
