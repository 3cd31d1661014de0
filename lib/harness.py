"""Building the harness crate against /repo's working tree, and running jobs in worker processes."""
import os, queue, re, resource, select, subprocess, threading, time, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TARGET = os.path.join(VERIF, "target")
from tlc import ToolError


def cargo_env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", CARGO_TARGET_DIR=TARGET,
             RUSTFLAGS="-Awarnings", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")
    e["PATH"] = os.path.expanduser("~/.cargo/bin") + ":/usr/local/bin:/usr/bin:/bin:" + e.get("PATH", "")
    return e


def build(bins, crate="harness"):
    """Builds the binaries; "name@release" is one built as users build theirs: optimised, without overflow checks."""
    t = time.time()
    for release in (False, True):
        mine = sorted({b.split("@")[0] for b in bins if b.endswith("@release") == release})
        if not mine:
            continue
        cmd = ["cargo", "build", "--offline"] + (["--release"] if release else []) + sum((["--bin", b] for b in mine), [])
        p = subprocess.run(cmd, cwd=os.path.join(VERIF, crate), env=cargo_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if p.returncode != 0:
            raise ToolError("building the harness failed:\n" + p.stdout[-6000:])
    return time.time() - t


def path_of(binary):
    name, _, profile = binary.partition("@")
    return os.path.join(TARGET, profile or "debug", name)


def limits(mem):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def size_of(line):
    """how many keys a job of the collection harnesses is about"""
    f = line.split(" ", 3)
    return int(f[2]) if len(f) > 3 and f[2].isdigit() else 0


class Worker:
    """Feeds one job file to worker processes, restarting after a death."""

    def __init__(self, binary, jobs, workdir, name, job_timeout, mem):
        self.binary, self.jobs, self.timeout, self.mem = binary, jobs, job_timeout, mem
        self.extra = {jid: min(400, size_of(line) / 1000) for jid, line in jobs}   # seconds: large collections take time
        self.file = os.path.join(workdir, name + ".jobs")
        with open(self.file, "w") as f:
            for jid, line in jobs:
                f.write("%s %s\n" % (jid, line))
        self.traces = {}   # job id -> trace text
        self.same = {}     # job id -> job id with an equal trace
        self.died = []     # (job id, "crash" | "hang", exit status)
        self.error = None

    def run(self):
        try:
            skip = 0
            while skip < len(self.jobs):
                skip = self.once(skip)
                if len(self.died) > 25:
                    break  # enough to report
        except Exception as x:  # noqa
            self.error = x

    def once(self, skip):
        p = subprocess.Popen([self.binary, self.file, str(skip)], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             preexec_fn=limits(self.mem))
        err = []
        t = threading.Thread(target=lambda: err.append(p.stderr.read()[-3000:]))
        t.start()
        buf, done, cur = b"", False, None
        fd = p.stdout.fileno()
        hang = False
        finished = skip
        while True:
            r, _, _ = select.select([fd], [], [], self.timeout + self.extra.get(cur, 0))
            if not r:
                hang = True
                p.kill()
                break
            chunk = os.read(fd, 1 << 20)
            if not chunk:
                break
            buf += chunk
            *lines, buf = buf.split(b"\n")
            for l in lines:
                tag, _, rest = l.decode("utf-8", "replace").partition(" ")
                if tag == "B":
                    cur = rest
                elif tag == "R":
                    jid, _, js = rest.partition(" ")
                    self.traces[jid] = js
                    finished += 1
                    cur = None
                elif tag == "D":
                    jid, _, j0 = rest.partition(" ")
                    self.same[jid] = j0
                    finished += 1
                    cur = None
                elif tag == "E":
                    done = True
        p.stdout.close()
        rc = p.wait()
        t.join()
        if done:
            return len(self.jobs)
        if rc == 97 or cur is None:
            raise ToolError("harness error (%s): %s" % (rc, (err or [b""])[0].decode("utf-8", "replace")))
        self.died.append((cur, "hang" if hang else "crash", rc))
        return finished + 1


def run_jobs(binary, jobs, workdir, name, procs=8, job_timeout=60, mem=6 << 30):
    """jobs: [(id, line)].  Returns (traces: id -> json text, same: id -> id, died)."""
    path = path_of(binary)
    jobs = sorted(jobs, key=lambda j: size_of(j[1]) < 1000000)   # the long ones first
    shards = [jobs[i::procs] for i in range(procs)]
    ws = [Worker(path, s, workdir, "%s-%d" % (name.replace("@", "-"), i), job_timeout, mem) for i, s in enumerate(shards) if s]
    ts = [threading.Thread(target=w.run) for w in ws]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    traces, same, died = {}, {}, []
    for w in ws:
        if w.error:
            raise w.error if isinstance(w.error, ToolError) else ToolError(repr(w.error))
        traces.update(w.traces)
        same.update(w.same)
        died += w.died
    return traces, same, died


def rerun_traced(binary, jid, line, workdir, timeout):
    """Runs one job of a dead worker again, printing every event as it happens.
    Returns (events so far, the operation it was in)."""
    path = path_of(binary)
    f = os.path.join(workdir, "again.jobs")
    with open(f, "w") as h:
        h.write("%s %s\n" % (jid, line))
    e = dict(os.environ)
    e["FH_TRACE"] = "1"
    try:
        p = subprocess.run([path, f], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=e, timeout=timeout, preexec_fn=limits(6 << 30))
        out = p.stdout
    except subprocess.TimeoutExpired as x:
        out = x.stdout or b""
    evs, op = [], ""
    for l in out.decode("utf-8", "replace").split("\n"):
        if l.startswith("O "):
            op = l[2:]
        elif l.startswith("V "):
            evs.append(l[2:])
            op = ""
    return evs, op
