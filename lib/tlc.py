"""Running TLC."""
import os, re, subprocess, time

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")


class ToolError(Exception):
    pass


class Result:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.findall(r"(\d+) states generated.*?, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.finished = "Finished in" in out

    @property
    def clean(self):
        return self.rc == 0 and "No error has been found" in self.out


def run(workdir, module, cfg, env=None, args=(), timeout=600, heap="6g", workers="auto"):
    """Runs TLC on workdir/module.tla with workdir/cfg; modules of /verif/spec are visible."""
    meta = os.path.join(workdir, "meta_" + module + "_" + cfg.replace(".", "_"))
    cmd = ["java", "-Xmx" + heap, "-XX:+UseParallelGC", "-Xss64m", "-DTLA-Library=" + SPEC, "-cp", JARS, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg, *args, module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=workdir, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
    except subprocess.TimeoutExpired as x:
        raise ToolError("TLC timed out after %ss on %s" % (timeout, module)) from x
    subprocess.run(["rm", "-rf", meta])
    r = Result(p.stdout, p.returncode, time.time() - t)
    with open(os.path.join(workdir, module + "." + cfg + ".log"), "w") as f:
        f.write(p.stdout if len(p.stdout) < 3000000 else p.stdout[:1500000] + "\n.....\n" + p.stdout[-1500000:])
    return r


def brief(out):
    """the complaint of a failed run, and its end"""
    i = out.find("Error:")
    return (out[i:i + 1500] + "\n...\n" if i >= 0 else "") + out[-1500:]


def must(r, what):
    if not r.clean:
        raise ToolError("%s failed:\n%s" % (what, brief(r.out)))
    return r
