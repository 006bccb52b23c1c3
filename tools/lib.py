"""Shared machinery of the checks: building the driver, running it, running TLC, evidence."""
import fcntl
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
CPUS = min(8, os.cpu_count() or 4)
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    """The check itself could not do its work (neither held nor violated)."""


def log(*a):
    print(*a, flush=True)


# ---------------------------------------------------------------- building
def build(crate="harness", bins=("noodle-verif-harness",), env_extra=None, target="target", args=()):
    os.makedirs(BUILD, exist_ok=True)
    tgt = os.path.join(BUILD, target)
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=tgt)
    env.pop("RUSTFLAGS", None)
    env.update(env_extra or {})
    with open(os.path.join(BUILD, f".{target}.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        p = subprocess.run(["cargo", "build", "--offline", *args], cwd=os.path.join(VERIF, crate), env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError("building %s failed:\n%s" % (crate, p.stdout[-4000:]))
    return [os.path.join(tgt, "debug", b) for b in bins]


# ---------------------------------------------------------------- scratch
class Scratch:
    def __init__(self, prop):
        os.makedirs(os.path.join(BUILD, "run"), exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=prop + "-", dir=os.path.join(BUILD, "run"))

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


# ---------------------------------------------------------------- driver
def run_driver(binary, cases, scratch, tag="d", case_timeout=20.0, procs=CPUS, memory=None):
    """Run cases in the driver. Returns {id: record}; a case which aborted the process has
    {"crash": ...}, one which did not end in time has {"hang": seconds}.  memory: what a process
    may use at most, in bytes."""
    todo = [[] for _ in range(procs)]
    for i, c in enumerate(cases):
        todo[i % procs].append(c)
    running = []
    results = {}
    for k, part in enumerate(todo):
        if part:
            running.append(_Worker(binary, part, scratch, f"{tag}{k}", case_timeout, memory))
    for w in running:
        w.start()
    every = list(running)
    while running:
        time.sleep(0.02)
        for w in list(running):
            if w.poll():
                results.update(w.results)
                running.remove(w)
        hung = [r for w in every for r in w.results.values() if "hang" in r]
        if len(hung) >= MANY:
            for w in running:
                w.p.kill()
                w.p.wait()
            by = {c["id"]: c for c in cases}
            raise Hangs([(by[r["id"]], r) for r in hung])
    return results


MANY = 5


class Hangs(Exception):
    """So many cases did not end that there is no point in going on. cases: they, and their records"""

    def __init__(self, cases):
        super().__init__(f"{len(cases)} cases did not end")
        self.cases = cases


class _Worker:
    def __init__(self, binary, cases, scratch, tag, case_timeout, memory):
        self.memory = memory
        self.binary, self.cases, self.scratch, self.tag = binary, list(cases), scratch, tag
        self.case_timeout = case_timeout
        self.results = {}
        self.gen = 0

    def start(self):
        self.gen += 1
        self.inp = self.scratch.path(f"{self.tag}.{self.gen}.in")
        self.out = self.scratch.path(f"{self.tag}.{self.gen}.out")
        with open(self.inp, "w") as f:
            for c in self.cases:
                f.write(json.dumps(c) + "\n")
        open(self.out, "w").close()
        self.p = subprocess.Popen([self.binary, self.out], stdin=open(self.inp), stdout=subprocess.DEVNULL,
                                  stderr=open(self.scratch.path(f"{self.tag}.{self.gen}.err"), "w"),
                                  preexec_fn=self.limit if self.memory else None)
        self.size = 0
        self.since = time.time()

    def limit(self):
        resource.setrlimit(resource.RLIMIT_AS, (self.memory, self.memory))

    def _collect(self):
        n = 0
        with open(self.out) as f:
            for line in f:
                if not line.endswith("\n"):
                    break
                r = json.loads(line)
                self.results[r["id"]] = r
                n += 1
        return n

    def poll(self):
        rc = self.p.poll()
        if rc is None:
            sz = os.path.getsize(self.out)
            if sz != self.size:
                self.size, self.since = sz, time.time()
            elif time.time() - self.since > self.case_timeout:
                self.p.kill()
                self.p.wait()
                n = self._collect()
                if n < len(self.cases):
                    self.results[self.cases[n]["id"]] = {"id": self.cases[n]["id"], "hang": self.case_timeout}
                    return self._again(n + 1)
                return True
            return False
        n = self._collect()
        if n < len(self.cases):
            err = open(self.scratch.path(f"{self.tag}.{self.gen}.err")).read()[-2000:]
            self.results[self.cases[n]["id"]] = {"id": self.cases[n]["id"], "crash": f"exit {rc}: {err}"}
            return self._again(n + 1)
        return True

    def _again(self, n):
        self.cases = self.cases[n:]
        if not self.cases:
            return True
        self.start()
        return False


# ---------------------------------------------------------------- TLC
def _position(rest):
    m = re.match(r"(\d+) ", rest)
    return int(m.group(1)) if m else 0


class TlcResult:
    def __init__(self):
        self.accept, self.reject = set(), {}
        self.states = self.distinct = 0
        self.out = ""
        self.secs = 0.0
        self.violated = None
        self.prints = []


def tlc(module, scratch, env=None, cfg=None, workers=CPUS, heap="6g", timeout=800, stack="64m", args=(), tag=None,
        deadlock_ok=True):
    meta = tempfile.mkdtemp(prefix="tlc-", dir=scratch.dir)
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", f"-Xss{stack}", "-Djava.io.tmpdir=" + meta,
           "-Dtlc2.tool.fp.FPSet.impl=tlc2.tool.fp.OffHeapDiskFPSet" if False else "-Dx=1",
           "-cp", TLA_CP, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", meta, "-workers", str(workers),
           "-config", cfg or (module + ".cfg"), *args, module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        out = p.stdout.decode("utf-8", "replace")
        rc = p.returncode
    except subprocess.TimeoutExpired as x:
        raise ToolError(f"TLC on {module} did not finish in {timeout} s\n" + (x.stdout or b"").decode("utf-8", "replace")[-2000:])
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    r = TlcResult()
    r.out, r.secs, r.rc = out, time.time() - t0, rc
    for line in out.splitlines():
        s = line.strip()
        if s.startswith('"') and s.endswith('"'):
            s = s[1:-1]
        if s.startswith("ACCEPT "):
            r.accept.add(s[7:].replace('\\"', "").strip())
        elif s.startswith("REJECT "):
            _, cid, rest = s.split(" ", 2)
            cid = cid.replace('\\"', "")
            # of several, the one which got furthest
            if cid not in r.reject or _position(rest) > _position(r.reject[cid]):
                r.reject[cid] = rest
        elif s.startswith("OUT "):
            r.prints.append(s[4:])
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if m:
        r.states, r.distinct = int(m[-1][0]), int(m[-1][1])
    m = re.search(r"Invariant (\w+) is violated|Action property (\w+) is violated|Temporal properties were violated|"
                  r"Assumption .* is false|Deadlock reached|Property (\w+) is violated", out)
    if m:
        r.violated = m.group(0)
    elif rc != 0:
        raise ToolError(f"TLC on {module} failed (rc {rc}):\n" + out[-3500:])
    return r


def validate(module, cases, scratch, tag="t", **kw):
    """Check cases (dicts with an "id") with a trace specification: returns (accepted ids, {id: why}, result)."""
    path = scratch.path(f"{tag}.ndjson")
    with open(path, "w") as f:
        for c in cases:
            f.write(json.dumps(c) + "\n")
    if not cases:
        raise ToolError("no cases to validate")
    r = tlc(module, scratch, env={"CASES": path}, **kw)
    ids = {str(c["id"]) for c in cases}
    acc = r.accept & ids
    rej = {k: v for k, v in r.reject.items() if k in ids and k not in acc}
    lost = ids - acc - set(rej)
    if r.violated:
        raise ToolError(f"{module}: {r.violated}\n" + r.out[-3000:])
    if lost:
        raise ToolError(f"{module} gave no verdict for {sorted(lost)[:5]}\n" + r.out[-3000:])
    return acc, rej, r


def model(rep, module, scratch, cfg=None):
    """Model checking of the specification itself."""
    r = tlc(module, scratch, cfg=cfg)
    rep.add_tlc(r)
    rep.cov.setdefault("models", []).append({"model": cfg or module, "distinct_states": r.distinct, "seconds": round(r.secs, 1)})
    if r.violated:
        raise ToolError("the specification contradicts itself: " + r.violated + r.out[-2000:])


def codes(s):
    return [ord(c) for c in s]


# ---------------------------------------------------------------- known findings
def known_findings(prop):
    """Lines "KNOWN property=<id> key=<key> <what>" of known_findings.txt."""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3).strip()
    return out


# ---------------------------------------------------------------- result of a check
class Report:
    def __init__(self, prop, tier, level="model_checking"):
        self.prop, self.tier, self.level = prop, tier, level
        self.t0 = time.time()
        self.violations = []      # (what, replay payload)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []

    def add_tlc(self, r):
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.states

    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, x):
        if len(self.cov["samples"]) < 6:
            self.cov["samples"].append(x)

    def violation(self, what, payload):
        self.violations.append((what, payload))

    def finish(self):
        wall = round(time.time() - self.t0, 2)
        ev = {"property": self.prop, "tier": self.tier, "seed": SEED, "level": self.level, "coverage": self.cov,
              "assumptions": self.assumptions, "wall_s": wall, "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        for what, payload in self.violations[:10]:
            rd = os.path.join(BUILD, "replay")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, f"{self.prop}-{len(os.listdir(rd))}.json")
            with open(path, "w") as f:
                json.dump({"property": self.prop, "what": what, "case": payload}, f, indent=1)
            log("violated:", what[:1500])
            log(f"VIOLATION property={self.prop} replay={path}")
        log(f"{self.prop} {self.tier} seed={SEED}: {len(self.violations)} violation(s), "
            f"{self.cov['traces_validated_against_impl']} traces validated, {self.cov['states']} states, {wall} s")
        return 1 if self.violations else 0
