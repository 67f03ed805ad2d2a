"""Decides one property: model check the design, generate sessions from the
specification, run them on the real code, and check the recorded traces against
the specification."""
import json
import os
import re
import selectors
import shutil
import signal
import subprocess
import sys
import tempfile
import time

NONE = -999999999  # as in worker.py
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
PY = "/opt/venv/bin/python"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = int(os.environ.get("VPROCS", os.cpu_count() or 8))


class MachineryError(Exception):
    pass


def tlc(module, cfg, work, env, args, timeout, workers="auto", heap="4g"):
    meta = tempfile.mkdtemp(dir=work)
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-cp", JARS, "tlc2.TLC", "-config", cfg,
           "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE"] + args + [module]
    r = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **env), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=timeout)
    shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout


def generate(prop, num, seed, work):
    out = os.path.join(work, "scen.%s.%d.json" % (prop, seed))
    rc, log = tlc("Gen.tla", "Gen.cfg", work, {"VPROP": prop, "VOUT": out},
                  ["-simulate", "num=%d" % num, "-depth", "200", "-seed", str(seed)], 600, workers=1)
    if rc != 0 or not os.path.exists(out):
        raise MachineryError("Gen failed:\n" + log[-3000:])
    scns = []
    with open(out) as f:
        for i, line in enumerate(f):
            line = line.strip()
            if line:
                s = json.loads(json.loads(line))
                s["id"] = "%s-%d-%d" % (prop, seed, i)
                scns.append(s)
    os.remove(out)
    return scns


class Worker:
    def __init__(self, work):
        self.err = None
        env = dict(os.environ, PYTHONHASHSEED="0", OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1")
        self.dir = tempfile.mkdtemp(dir=work)
        env["TMPDIR"] = self.dir
        self.p = subprocess.Popen([PY, os.path.join(VERIF, "lib", "worker.py")], cwd=self.dir, env=env,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                  start_new_session=True)
        os.set_blocking(self.p.stdout.fileno(), False)
        self.buf = b""
        self.job = None

    def send(self, scn):
        self.job, self.t0, self.step = scn, time.time(), 0
        self.p.stdin.write((json.dumps(scn) + "\n").encode())
        self.p.stdin.flush()

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()
        for f in (self.p.stdin, self.p.stdout):
            try:
                f.close()
            except OSError:
                pass
        shutil.rmtree(self.dir, ignore_errors=True)


def lost(scn, step, what):
    """the trace of a session that never came back"""
    steps = []
    for s in scn["steps"][: step + 1]:
        steps.append(dict(I=s["I"], P=s["P"], A=s["A"], events=[]))
    steps[-1]["events"].append(dict(e="hang", clk=-1, msg=what))
    return dict(id=scn["id"], steps=steps)


def replay(scns, work, limit, deadline, procs=None, max_lost=3):
    """runs the sessions; returns traces (dict by id), lost ids"""
    todo = list(reversed(scns))
    traces, gone = {}, []
    sel = selectors.DefaultSelector()
    workers = []

    def start():
        w = Worker(work)
        workers.append(w)
        sel.register(w.p.stdout, selectors.EVENT_READ, w)
        return w

    def stop(w):
        sel.unregister(w.p.stdout)
        w.kill()
        workers.remove(w)

    def feed(w):
        if todo and time.time() < deadline and len(gone) < max_lost:
            w.send(todo.pop())
        else:
            stop(w)

    for _ in range(min(procs or NPROC, len(todo))):
        feed(start())
    while workers:
        for key, _ in sel.select(timeout=1.0):
            w = key.data
            if w not in workers:
                continue
            data = w.p.stdout.read()
            if data == b"":  # the worker died
                if w.job is None:
                    raise MachineryError("worker does not start")
                gone.append((w.job, w.step, "process died"))
                stop(w)
                if todo and len(gone) < max_lost:
                    feed(start())
                continue
            w.buf += data or b""
            while b"\n" in w.buf:
                line, w.buf = w.buf.split(b"\n", 1)
                m = json.loads(line)
                if "step" in m:
                    w.step = m["step"]
                else:
                    traces[m["id"]] = m
                    w.job = None
                    feed(w)
                    break
        for w in list(workers):
            if w.job is not None and time.time() - w.t0 > limit:
                gone.append((w.job, w.step, "no answer after %d s" % limit))
                stop(w)
                if todo and len(gone) < max_lost:
                    feed(start())
    return traces, gone


def validate(traces, work, timeout=600):
    """checks traces against Trace.tla; returns {id: [(step, clause, event)]}, states"""
    verdict, states = {}, 0
    if not traces:
        return verdict, states
    path = os.path.join(work, "trace.ndjson")
    with open(path, "w") as f:
        for t in traces:
            f.write(json.dumps(t) + "\n")
    rc, log = tlc("Trace.tla", "Trace.cfg", work, {"VTRACE": path}, [], timeout, workers=NPROC, heap="8g")
    for m in re.finditer(r'<<"VERDICT", "([^"]*)", "(.*)">>', log):
        verdict[m.group(1)] = [tuple(x) for x in json.loads(m.group(2).replace('\\"', '"'))]
    m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct", log)
    if rc != 0 or not m or len(verdict) != len(traces):
        raise MachineryError("Trace failed (%d of %d verdicts):\n%s" % (len(verdict), len(traces), log[-3000:]))
    return verdict, int(m.group(1).replace(",", ""))


if __name__ == "__main__":  # exploration by hand
    prop, num, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    work = tempfile.mkdtemp(prefix="vrpy-verif-")
    try:
        t0 = time.time()
        scns = generate(prop, num, seed, work)
        t1 = time.time()
        traces, gone = replay(scns, work, 60, time.time() + 3000)
        t2 = time.time()
        allt = list(traces.values()) + [lost(*g) for g in gone]
        verdict, states = validate(allt, work)
        t3 = time.time()
        print("gen %.1f replay %.1f validate %.1f: %d traces, %d lost, %d states" % (
            t1 - t0, t2 - t1, t3 - t2, len(traces), len(gone), states))
        from collections import Counter
        C, ex = Counter(), {}
        for i, b in sorted(verdict.items()):
            for s, c, _ in b:
                C[c] += 1
                ex.setdefault(c, []).append((i, s))
        kinds = Counter(e["e"] for t in allt for s in t["steps"] for e in s["events"])
        print(dict(kinds))
        for c in C:
            print(c, C[c], ex[c][:6])
        d = {t["id"]: t for t in allt}
        sc = {s["id"]: s for s in scns}
        os.makedirs("/tmp/w", exist_ok=True)
        with open("/tmp/w/last.json", "w") as f:
            json.dump({"bad": {i: dict(trace=d[i], scn=sc[i], v=v) for i, v in verdict.items() if v}}, f)
        msgs = Counter(e["msg"] for t in allt for s in t["steps"] for e in s["events"] if e["e"] == "raise" and s["A"]["defect"] == "none")
        for m, k in msgs.most_common(12):
            print("  exc", k, m)
    finally:
        shutil.rmtree(work, ignore_errors=True)
