"""Shared machinery of the checks: building and running the driver, running TLC, verdicts and evidence."""
import json, os, queue, re, shutil, signal, subprocess, sys, tempfile, threading, time

V = os.path.abspath(os.path.join(os.path.dirname(__file__), ".."))
JAR = "/opt/veriftools/tla/tla2tools.jar"
CM = "/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(V, "spec")
NCPU = min(8, os.cpu_count() or 4)


class CheckError(Exception):
    """The check itself failed, there is no verdict."""


def goenv():
    env = {k: v for k, v in os.environ.items() if not k.startswith("GIT_")}
    env["HOME"] = os.environ.get("HOME", "/root")
    return env


def build(out, tags="-tags no_license", cli=False):
    env = dict(os.environ, DRVTAGS=tags, DRVCLI="1" if cli else "")
    p = subprocess.run([os.path.join(V, "tools", "build.sh"), out], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise CheckError("build failed:\n" + p.stdout[-4000:])
    return os.path.join(out, "drv")


# ---------------------------------------------------------------- driver

class Worker:
    def __init__(self, drv, out, scratch, env):
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen([drv, "worker", out, scratch], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=env, start_new_session=True)

    def stderr(self):
        self.err.seek(0)
        return self.err.read().decode("utf-8", "replace")

    def kill(self, sig=signal.SIGKILL):
        try:
            os.killpg(self.p.pid, sig)
        except ProcessLookupError:
            pass
        if sig == signal.SIGKILL:
            self.p.wait()

    def close(self):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        try:
            self.p.wait(timeout=10)
        except subprocess.TimeoutExpired:
            self.kill()


def last_mark(out, sid):
    try:
        lines = open(os.path.join(out, "%d.mark" % sid)).read().split("\n")
    except FileNotFoundError:
        return ""
    lines = [l for l in lines if l]
    return lines[-1] if lines else ""


def classify_crash(err):
    """Who is to blame for a dead worker: 'code' or 'harness'."""
    if "HARNESS:" in err:
        return "harness"
    if "out of memory" in err or "cannot allocate" in err:
        return "harness"
    m = re.search(r"^(panic:|fatal error:|SIG|runtime:|WARNING: DATA RACE)", err, re.M)
    if not m:
        return "harness"
    rest = err[m.start():]
    # first goroutine of the dump is the one that panicked
    g = re.search(r"^goroutine \d+.*?(?=^goroutine |\Z)", rest, re.M | re.S)
    frames = re.findall(r"^\t(\S+\.go):\d+", g.group(0) if g else rest, re.M)
    for f in frames:
        if "/zz_verif_drv/" in f:
            return "harness"
        if f.startswith("/repo/"):
            return "code"
    if "all goroutines are asleep" in err and "/repo/ripsrc/" in err:
        return "code"
    return "harness"


class Run:
    """Runs scenarios on several workers."""

    def __init__(self, drv, base, env=None, timeout=90, workers=NCPU):
        self.drv, self.base = drv, base
        self.out = os.path.join(base, "traces")
        self.scratch = os.path.join(base, "scratch")
        os.makedirs(self.out, exist_ok=True)
        os.makedirs(self.scratch, exist_ok=True)
        self.env = dict(goenv())
        self.env.update({"GIT_CONFIG_GLOBAL": "/dev/null", "GIT_CONFIG_NOSYSTEM": "1", "GIT_ATTR_NOSYSTEM": "1", "LC_ALL": "C", "TZ": "UTC", "HOME": self.scratch, "XDG_CONFIG_HOME": self.scratch, "GOTRACEBACK": "all"})
        self.env.update(env or {})
        if self.env.pop("SHIM", None):
            self.shim()
        self.timeout = timeout
        self.workers = workers
        self.crashes = {}
        self.errors = []
        self.deadline = None
        self.skipped = 0

    def shim(self):
        """Puts a script in place of git, which does the same until the driver asks for a failure."""
        real = shutil.which("git")
        d = os.path.join(self.base, "bin")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "git"), "w") as f:
            f.write('''#!/bin/sh
[ -n "$VERIF_SHIM" ] || exec "%s" "$@"
echo x >> "$VERIF_SHIM/n"
n=0
while read x; do n=$((n+1)); done < "$VERIF_SHIM/n"
[ $n = "$VERIF_FAULT" ] || exec "%s" "$@"
VERIF_GIT="%s" exec "%s" shim "$@"
''' % (real, real, real, os.path.abspath(self.drv)))
        os.chmod(os.path.join(d, "git"), 0o755)
        self.env["PATH"] = d + ":" + self.env["PATH"]

    def one(self, w, spec, timeout):
        """Returns ok, crash or hang."""
        sid = spec["id"]
        try:
            w.p.stdin.write((json.dumps(spec) + "\n").encode())
            w.p.stdin.flush()
        except BrokenPipeError:
            pass
        res = []

        def read():
            while True:
                l = w.p.stdout.readline().decode("utf-8", "replace")
                if not l:
                    res.append("dead")
                    return
                if l.startswith("OK %d" % sid):
                    res.append("ok")
                    return
        t = threading.Thread(target=read, daemon=True)
        t.start()
        mark, since = None, time.time()
        while t.is_alive():
            t.join(0.5)
            if not t.is_alive():
                break
            loc = os.path.join(self.out, "%d.mark" % sid)
            m = os.path.getsize(loc) if os.path.exists(loc) else 0
            if m != mark:
                mark, since = m, time.time()
            if time.time() - since > timeout:
                w.kill(signal.SIGQUIT)
                time.sleep(1)
                w.kill()
                t.join()
                return "hang"
        if res[0] == "ok":
            return "ok"
        w.p.wait()
        return "crash"

    def handle(self, spec, w):
        """Runs one scenario, returns the worker to use for the next."""
        sid = spec["id"]
        r = self.one(w, spec, self.timeout)
        if r == "ok":
            return w
        err = w.stderr()
        mark = last_mark(self.out, sid)
        w.kill()
        in_run = mark in ("run_begin", "progress")
        if r == "hang":
            if not in_run:
                raise CheckError("scenario %s does not finish (mark %r)\n%s" % (spec, mark, err[-3000:]))
            # has to be reproduced before it counts
            w2 = Worker(self.drv, self.out, self.scratch, self.env)
            r2 = self.one(w2, spec, self.timeout * 2)
            err2 = w2.stderr()
            mark2 = last_mark(self.out, sid)
            w2.kill()
            if r2 == "ok":
                raise CheckError("scenario %s did not finish once, could not be reproduced" % spec)
            if r2 == "crash":
                r, err, mark = r2, err2, mark2
            elif mark2 not in ("run_begin", "progress"):
                raise CheckError("scenario %s does not finish (mark %r)" % (spec, mark2))
            else:
                self.finish_trace(sid, "hang")
                self.crashes[sid] = ("hang", err2)
                return Worker(self.drv, self.out, self.scratch, self.env)
        who = classify_crash(err)
        if who != "code":
            raise CheckError("driver failed in scenario %s (mark %r):\n%s" % (json.dumps(spec)[:500], mark, err[:6000]))
        self.finish_trace(sid, "crash")
        self.crashes[sid] = ("crash", err)
        return Worker(self.drv, self.out, self.scratch, self.env)

    def finish_trace(self, sid, what):
        loc = os.path.join(self.out, "%d.ndjson" % sid)
        data = open(loc, "rb").read() if os.path.exists(loc) else b""
        data = data[:data.rfind(b"\n") + 1]
        if not data:
            data = (json.dumps({"e": "scn", "id": sid, "kind": "?"}) + "\n").encode()
        with open(loc, "wb") as f:
            f.write(data)
            f.write((json.dumps({"e": what}) + "\n").encode())
            f.write((json.dumps({"e": "fin"}) + "\n").encode())
        shutil.rmtree(os.path.join(self.scratch, "s%d" % sid), ignore_errors=True)

    def run(self, specs):
        q = queue.Queue()
        for s in specs:
            q.put(s)
        done = []
        lock = threading.Lock()

        def loop():
            w = None
            try:
                w = Worker(self.drv, self.out, self.scratch, self.env)
                while not self.errors:
                    try:
                        s = q.get_nowait()
                    except queue.Empty:
                        return
                    if self.deadline and time.time() > self.deadline:
                        with lock:
                            self.skipped += 1
                        continue
                    w = self.handle(s, w)
                    with lock:
                        done.append(s)
            except Exception as e:
                with lock:
                    self.errors.append(e)
            finally:
                if w:
                    w.close()
        ts = [threading.Thread(target=loop) for _ in range(min(self.workers, len(specs)) or 1)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if self.errors:
            raise self.errors[0]
        done.sort(key=lambda s: s["id"])
        return done


# ---------------------------------------------------------------- TLC

def tlc(module, cfg=None, env=None, workers="1", metadir=None, timeout=600, heap="3g", extra=(), spec_dir=SPEC):
    base = tempfile.mkdtemp(prefix="tlc", dir=metadir)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["timeout", str(timeout), "java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss256m", "-Xmx" + heap, "-cp", JAR + ":" + CM, "tlc2.TLC",
           "-config", os.path.join(spec_dir, cfg or module + ".cfg"), "-workers", str(workers), "-metadir", base, "-noGenerateSpecTE"] + list(extra) + [os.path.join(spec_dir, module + ".tla")]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=e, cwd=base)
    shutil.rmtree(base, ignore_errors=True)
    return p.returncode, p.stdout


def tlc_stats(out):
    m = re.search(r"^(\d+) states generated, (\d+) distinct states found, (\d+) states left", out, re.M)
    if not m:
        return None
    return int(m.group(1)), int(m.group(2)), int(m.group(3))


def model_check(module, cfg, base, workers=4, timeout=600, heap="4g", extra=()):
    """Exhaustive check of a design specification. It has to pass, otherwise the check is in error."""
    t = time.time()
    rc, out = tlc(module, cfg, workers=workers, metadir=base, timeout=timeout, heap=heap, extra=extra)
    st = tlc_stats(out)
    if rc != 0 or "Model checking completed. No error has been found." not in out or not st or st[2] != 0:
        raise CheckError("model check of %s with %s failed (rc %s):\n%s" % (module, cfg, rc, out[-3000:]))
    return {"module": module, "config": cfg, "states": st[1], "transitions": st[0], "wall_s": round(time.time() - t, 1)}


def with_constants(cfg, consts, base):
    """Configuration with other values of constants."""
    s = open(os.path.join(SPEC, cfg)).read()
    for k, v in consts.items():
        # a definition (<- name) or a value
        s, n = re.subn(r"(?m)^(\s*%s)\s*(?:=|<-).*$" % re.escape(k), lambda m: m.group(1) + (" " + v if v.startswith("<-") else " = " + v), s)
        if n != 1:
            raise CheckError("no constant %s in %s" % (k, cfg))
    fd, loc = tempfile.mkstemp(suffix=".cfg", dir=base)
    with os.fdopen(fd, "w") as f:
        f.write(s)
    return loc


def mutant_check(module, cfg, consts, invariant, base, timeout=300):
    """A broken design has to be found, otherwise the model is not worth much."""
    loc = with_constants(cfg, consts, base)
    rc, out = tlc(module, loc, workers=NCPU, metadir=base, timeout=timeout, heap="6g")
    if not re.search(r"(Invariant|Action property|Temporal propert\S*|property) %s\b.*violated|Deadlock reached|Temporal properties were violated" % invariant, out):
        raise CheckError("broken design %s %s was not found by %s:\n%s" % (module, consts, invariant, out[-2000:]))


def generate(module, cfg, consts, tag, base, timeout=300):
    """Values printed by the specification as <<"TAG", "json">>."""
    loc = with_constants(cfg, consts, base)
    rc, out = tlc(module, loc, workers=1, metadir=base, timeout=timeout, heap="4g")
    if rc != 0 or "Model checking completed. No error has been found." not in out:
        raise CheckError("generation with %s %s failed:\n%s" % (module, cfg, out[-2000:]))
    res = []
    pre = '<<"%s", ' % tag
    for l in out.split("\n"):
        if l.startswith(pre) and l.endswith(">>"):
            res.append(json.loads(json.loads(l[len(pre):-2])))
    if not res:
        raise CheckError("nothing was generated by %s %s" % (module, cfg))
    return res


BAD = re.compile(r'^<<"BAD", (.*)>>$')


def parse_tuple(s):
    return json.loads("[" + s.replace("TRUE", "true").replace("FALSE", "false") + "]")


def judge(module, out_dir, ids, base, shards=NCPU, timeout=700, heap="3g", cfg=None):
    """Validates the traces of the scenarios against a trace specification. Returns list of deviations."""
    sizes = []
    for i in ids:
        loc = os.path.join(out_dir, "%d.ndjson" % i)
        sizes.append((os.path.getsize(loc), i, loc))
    sizes.sort(reverse=True)
    n = max(1, min(shards, len(sizes)))
    bins = [[0, []] for _ in range(n)]
    for sz, i, loc in sizes:
        b = min(bins, key=lambda x: x[0])
        b[0] += sz + 2000
        b[1].append((i, loc))
    bad, errs, events = [], [], [0]
    lock = threading.Lock()

    def one(k, items):
        loc = os.path.join(base, "shard%d-%s.ndjson" % (k, module))
        cnt = 0
        with open(loc, "wb") as f:
            for i, p in sorted(items):
                data = open(p, "rb").read()
                cnt += data.count(b"\n")
                f.write(data)
        try:
            rc, out = tlc(module, cfg, env={"TRACE": loc}, metadir=base, timeout=timeout, heap=heap)
            st = tlc_stats(out)
            res = [parse_tuple(m.group(1)) for m in (BAD.match(l) for l in out.split("\n")) if m]
            harness = [l for l in out.split("\n") if l.startswith('<<"HARNESS"')]
            with lock:
                if harness:
                    errs.append(CheckError("trace does not make sense: %s" % harness[:5]))
                elif rc != 0 or not st or st[1] != cnt + 1 or "Model checking completed. No error" not in out:
                    keep = os.path.join(V, "out", "failed-%s.ndjson" % module)
                    os.makedirs(os.path.dirname(keep), exist_ok=True)
                    shutil.copy(loc, keep)
                    errs.append(CheckError("TLC did not accept the whole trace (rc %s, events %d, kept %s):\n%s" % (rc, cnt, keep, out[-3000:])))
                bad.extend(res)
                events[0] += cnt
        except Exception as e:
            with lock:
                errs.append(e)
        finally:
            if os.path.exists(loc):
                os.remove(loc)
    ts = [threading.Thread(target=one, args=(k, b[1])) for k, b in enumerate(bins) if b[1]]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise errs[0]
    return bad, events[0]


# ---------------------------------------------------------------- known findings

def known_findings():
    res = []
    for l in open(os.path.join(V, "known-findings.txt")):
        l = l.strip()
        if l.startswith("finding: "):
            m = re.match(r"finding: property=(\S+) match=(\S+) (.*)", l)
            if not m:
                raise CheckError("bad line in known-findings.txt: " + l)
            res.append({"property": m.group(1), "match": m.group(2), "what": m.group(3)})
    return res


# ---------------------------------------------------------------- report

class Report:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.violations = []
        self.known = {}
        self.coverage = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.outdir = os.path.join(V, "out", pid)
        shutil.rmtree(self.outdir, ignore_errors=True)
        os.makedirs(self.outdir, exist_ok=True)

    def model(self, st):
        self.coverage["states"] += st["states"]
        self.coverage["transitions"] += st["transitions"]
        self.coverage.setdefault("models", []).append(st)

    def violation(self, what, files):
        """files: name -> content or path of existing file."""
        k = len(self.violations) + 1
        d = os.path.join(self.outdir, "v%d" % k)
        os.makedirs(d, exist_ok=True)
        for name, data in files.items():
            with open(os.path.join(d, name), "wb") as f:
                f.write(data if isinstance(data, bytes) else str(data).encode())
        with open(os.path.join(d, "what.txt"), "w") as f:
            f.write(what + "\n")
        self.violations.append((what, d))

    def finish(self):
        cov = self.coverage
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        with open(os.path.join(V, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        for k, v in self.known.items():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, v))
        for what, d in self.violations[:20]:
            print("VIOLATION property=%s replay=%s" % (self.pid, d))
            print("  " + what[:400].replace("\n", "\n  "))
        print("%s %s: states=%d traces=%d violations=%d wall=%.1fs" % (self.pid, self.tier, cov.get("states", 0), cov.get("traces_validated_against_impl", 0), len(self.violations), time.time() - self.t0))
        return 1 if self.violations else 0
