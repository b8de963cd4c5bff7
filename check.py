#!/usr/bin/env python3
"""Decides one property of nommy by deterministic simulation.

  check.py PROP [--tier quick|thorough]     search; exit 0 held, 1 violated, 2 error of the check
  check.py PROP --replay FILE               re-run one recorded violation exactly
  check.py --setup                          build everything once
  check.py --determinism [PROP...]          run every seed in two processes, compare event logs

The simulators (sim/) are rebuilt from /repo's working tree in two profiles, with and without debug
assertions, because the library guards some of its steps by cfg!(debug_assertions).
"""
import array
import argparse
import hashlib
import json
import os
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(HERE, "target")
TOOLCHAIN = "nightly-2021-08-29-x86_64-unknown-linux-gnu"
VENDOR_CONFIG = "/opt/vp/cargo-home/config.toml"
WORKERS = 8
FINDINGS = os.path.join(HERE, "known-findings.txt")

# property -> [(simulator, runs per worker in the quick tier, in the thorough tier)]
BUF, ZOO = "bufsim", "zoosim"
PLAN = {
    "C01": [(BUF, 300_000, 6_000_000)],
    "C02": [(BUF, 300_000, 6_000_000)],
    "C03": [(BUF, 300_000, 6_000_000)],
    "C04": [(BUF, 300_000, 6_000_000)],
    "C05": [(ZOO, 140_000, 1_000_000)],
    "C06": [(ZOO, 140_000, 1_000_000)],
    "C07": [(ZOO, 140_000, 1_000_000)],
    "C08": [(ZOO, 140_000, 1_000_000)],
    "C09": [(ZOO, 140_000, 1_000_000)],
    "C10": [(ZOO, 140_000, 1_000_000)],
    "C11": [(ZOO, 140_000, 1_000_000)],
    "C12": [(ZOO, 140_000, 1_000_000)],
    "C13": [(BUF, 120_000, 1_000_000), (ZOO, 80_000, 600_000)],
    "C14": [(BUF, 120_000, 1_000_000), (ZOO, 140_000, 1_000_000)],
    "C15": [(ZOO, 140_000, 1_000_000)],
    "C16": [(ZOO, 140_000, 1_000_000)],
    "C17": [(ZOO, 5_000, 40_000)],
    "C18": [(ZOO, 140_000, 1_000_000)],
    "C20": [(ZOO, 140_000, 1_000_000)],
    "C21": [(ZOO, 250, 5_000)],
    "C22": [(ZOO, 100_000, 700_000)],
    "C23": [(ZOO, 140_000, 1_000_000)],
    "C24": [(ZOO, 60_000, 500_000)],
}
# A crash or an endless loop says nothing about these: they are about calls that come back.
RETURNS_ONLY = {"C12", "C14", "C16", "C23"}
MODES = ("dev", "rel")
HANG_WALL, HANG_CPU, HANG_WALL_MAX = 40.0, 20.0, 240.0


class CheckError(Exception):
    pass


def say(*a):
    print(*a, flush=True)


# ---------------------------------------------------------------------------------------- building
def cargo_env(mode, opt):
    home = os.path.join(TARGET, "cargo-home")
    os.makedirs(home, exist_ok=True)
    cfg = os.path.join(home, "config.toml")
    want = open(VENDOR_CONFIG).read()
    if not os.path.exists(cfg) or open(cfg).read() != want:
        with open(cfg + ".%d" % os.getpid(), "w") as f:
            f.write(want)
        os.replace(cfg + ".%d" % os.getpid(), cfg)
    env = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO", "RUST"))}
    env.update(
        RUSTUP_HOME="/root/.rustup",
        RUSTUP_TOOLCHAIN=TOOLCHAIN,
        CARGO_HOME=home,
        CARGO_NET_OFFLINE="true",
        CARGO_TERM_COLOR="never",
        # the library tells the simulator of every operation on a buffer or cursor (nommy/src/sim.rs)
        RUSTFLAGS="--cfg nommy_sim",
        PATH="/root/.cargo/bin:" + env.get("PATH", "/usr/local/bin:/usr/bin:/bin"),
    )
    env["CARGO_TARGET_DIR"] = os.path.join(TARGET, mode)
    env["CARGO_PROFILE_%s_OPT_LEVEL" % ("DEV" if mode == "dev" else "RELEASE")] = str(opt)
    return env


def tree_hash():
    h = hashlib.sha256()
    for crate in ("nommy", "nommy-derive"):
        for root, dirs, files in os.walk(os.path.join(REPO, crate)):
            dirs[:] = sorted(d for d in dirs if d not in ("target", ".git"))
            for n in sorted(files):
                p = os.path.join(root, n)
                h.update(p.encode() + b"\0")
                with open(p, "rb") as f:
                    h.update(f.read())
    return h.hexdigest()


class Build:
    """The simulators in both profiles, possibly with a freshly generated zoo of types."""

    def __init__(self, bins, tier, zoo=None):
        self.bins, self.zoo = sorted(set(bins)), zoo
        opt = {"dev": 0, "rel": 0} if tier == "quick" else {"dev": 0, "rel": 2}
        if self.bins == [BUF]:
            opt = {"dev": 1, "rel": 1} if tier == "quick" else {"dev": 1, "rel": 3}
        t0 = time.time()
        th = tree_hash()
        src = os.path.join(HERE, "sim")
        if zoo is not None:
            src = os.path.join(TARGET, "sim-zoo")
            shutil.rmtree(src, ignore_errors=True)
            shutil.copytree(os.path.join(HERE, "sim"), src)
            out = os.path.join(src, "src", "bin", "zoosim")
            subprocess.run([sys.executable, os.path.join(HERE, "tools", "gen_zoo.py"), out, str(zoo)],
                           check=True, stdout=subprocess.DEVNULL)
        self.src = src
        procs = []
        for mode in MODES:
            td = os.path.join(TARGET, mode)
            os.makedirs(td, exist_ok=True)
            # cargo goes by time stamps; we go by contents
            mark = os.path.join(td, ".tree")
            if os.path.exists(mark) and open(mark).read() != th:
                shutil.rmtree(td)
                os.makedirs(td)
            with open(mark, "w") as f:
                f.write(th)
            procs.append((mode, self.start(mode, opt[mode], True), opt[mode]))
        for mode, p, o in procs:
            out = p.communicate()[0]
            if p.returncode != 0 and "--locked" in out:
                lock = os.path.join(src, "Cargo.lock")
                saved = open(lock).read()
                try:
                    p = self.start(mode, o, False)
                    out = p.communicate()[0]
                finally:
                    with open(lock, "w") as f:
                        f.write(saved)
            if p.returncode != 0:
                raise CheckError("the simulators do not build against %s (%s):\n%s" % (REPO, mode, out[-6000:]))
        # keep what we run apart from what the next build overwrites
        self.dir = tempfile.mkdtemp(prefix="bin-", dir=TARGET)
        for mode in MODES:
            sub = "debug" if mode == "dev" else "release"
            for b in self.bins:
                shutil.copy2(os.path.join(TARGET, mode, sub, b), os.path.join(self.dir, "%s-%s" % (b, mode)))
        self.secs = time.time() - t0

    def start(self, mode, opt, locked):
        cmd = ["cargo", "build", "--offline", "--quiet"]
        if locked:
            cmd.append("--locked")
        if mode == "rel":
            cmd.append("--release")
        for b in self.bins:
            cmd += ["--bin", b]
        return subprocess.Popen(cmd, cwd=self.src, env=cargo_env(mode, opt), text=True,
                                stdout=subprocess.PIPE, stderr=subprocess.STDOUT)

    def exe(self, b, mode):
        return os.path.join(self.dir, "%s-%s" % (b, mode))

    def clean(self):
        shutil.rmtree(self.dir, ignore_errors=True)
        if self.zoo is not None:
            shutil.rmtree(self.src, ignore_errors=True)


# ----------------------------------------------------------------------------------------- running
def limits():
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def sim_env():
    return {k: v for k, v in os.environ.items() if not k.startswith("RUST")}


def spawn(exe, args, out):
    return subprocess.Popen([exe] + [str(a) for a in args], stdout=out, stderr=subprocess.DEVNULL,
                            stdin=subprocess.DEVNULL, env=sim_env(), preexec_fn=limits, start_new_session=True)


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()


def cpu_of(pid):
    try:
        with open("/proc/%d/stat" % pid) as f:
            v = f.read().rsplit(")", 1)[1].split()
        return (int(v[11]) + int(v[12])) / os.sysconf("SC_CLK_TCK")
    except OSError:
        return 0.0


def stuck(watch, pid, key):
    """True once `key` has not changed for long enough, with the process at work or not."""
    now, cpu = time.time(), cpu_of(pid)
    if watch.get("key") != key:
        watch.update(key=key, wall=now, cpu=cpu)
        return False
    wall, used = now - watch["wall"], cpu - watch["cpu"]
    return (wall >= HANG_WALL and used >= HANG_CPU) or wall >= HANG_WALL_MAX


def bounded(exe, args):
    """(class or None, text): runs one simulated run to its end, its crash, or its hanging."""
    with tempfile.TemporaryFile(dir=TARGET) as f:
        p = spawn(exe, args, f)
        watch = {}
        while p.poll() is None:
            if stuck(watch, p.pid, 0):
                kill(p)
                return "hang", ""
            time.sleep(0.02)
        f.seek(0)
        text = f.read().decode(errors="replace")
    if p.returncode < 0:
        return "crash-signal-%d" % -p.returncode, text
    for line in text.splitlines():
        if line.startswith("violation-class "):
            return line.split(" ", 1)[1], text
    if p.returncode == 0:
        return None, text
    return "crash-exit-%d" % p.returncode, text


def field(text, key):
    for line in text.splitlines():
        if line.startswith(key + " "):
            return line.split(" ", 1)[1].strip()
    return None


def replay_choices(exe, prop, choices):
    fd, path = tempfile.mkstemp(dir=TARGET)
    with os.fdopen(fd, "w") as f:
        f.write(" ".join(str(c) for c in choices))
    try:
        return bounded(exe, ["replay", prop, path])
    finally:
        os.unlink(path)


class Worker:
    def __init__(self, build, prop, seed, job, scratch):
        self.build, self.prop, self.seed, self.scratch = build, prop, seed, scratch
        self.sim, self.mode, self.first, self.count, self.maxsecs = job
        self.start, self.done, self.tries, self.skipped = self.first, [], 0, []
        self.launch()

    def launch(self):
        self.tries += 1
        stem = os.path.join(self.scratch, "%s-%s-%d-%d" % (self.sim, self.mode, self.first, self.tries))
        self.out, self.cur, self.watch = stem + ".out", stem + ".cur", {}
        left = self.first + self.count - self.start
        self.p = spawn(self.build.exe(self.sim, self.mode),
                       ["run", self.prop, self.seed, self.start, left, self.out, self.cur, self.maxsecs], subprocess.DEVNULL)

    def current(self):
        try:
            with open(self.cur, "rb") as f:
                b = f.read(8)
            return int.from_bytes(b, "little") if len(b) == 8 else self.start
        except OSError:
            return self.start

    def poll(self):
        """None while running, else ('done'|'violation'|'hang'|'crash-signal-N', run)"""
        if self.p.poll() is None:
            cur = self.current()
            if stuck(self.watch, self.p.pid, cur):
                kill(self.p)
                return "hang", cur
            return None
        rc = self.p.returncode
        if rc == 0:
            with open(self.out) as f:
                self.done.append((json.load(f), self.out + ".sigs"))
            return "done", None
        if rc == 1 and os.path.exists(self.out):
            with open(self.out) as f:
                self.violation = json.load(f)
            return "violation", self.violation["run"]
        if rc < 0:
            return "crash-signal-%d" % -rc, self.current()
        return "crash-exit-%d" % rc, self.current()

    def resume_after(self, run):
        self.skipped.append(run)
        if run + 1 >= self.first + self.count or len(self.skipped) > 200:
            return False
        self.start = run + 1
        self.launch()
        return True


# -------------------------------------------------------------------------------- findings, replays
def findings(prop):
    out = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            if line.startswith("finding: property=%s " % prop):
                rec = {}
                for part in line[len("finding: "):].strip().split(" | "):
                    k, _, v = part.partition("=")
                    rec[k.strip()] = v.strip()
                out.append(rec)
    return out


def known(prop, cls, message):
    for f in findings(prop):
        if f.get("class") == cls and f.get("match") and f["match"] in message:
            return f
    return None


def ddmin(test, choices, secs):
    """Smallest list found for which test() holds, by removing and zeroing stretches."""
    t0, best, n = time.time(), list(choices), 0
    size = max(1, len(best) // 2)
    while size >= 1 and time.time() - t0 < secs:
        i = 0
        while i < len(best) and time.time() - t0 < secs:
            cand = best[:i] + best[i + size:]
            n += 1
            if test(cand):
                best = cand
            else:
                i += size
        size //= 2
    return best, n


def outcome_of_range(exe, prop, seed, start, count):
    """Runs a stretch in one process: (class, run, json)"""
    d = tempfile.mkdtemp(dir=TARGET)
    try:
        out, cur = os.path.join(d, "out"), os.path.join(d, "cur")
        p = spawn(exe, ["run", prop, seed, start, count, out, cur, 600], subprocess.DEVNULL)
        watch = {}

        def at():
            try:
                with open(cur, "rb") as f:
                    return int.from_bytes(f.read(8), "little")
            except OSError:
                return start
        while p.poll() is None:
            if stuck(watch, p.pid, at()):
                kill(p)
                return "hang", at(), None
            time.sleep(0.02)
        if p.returncode == 0:
            return None, None, None
        if p.returncode == 1 and os.path.exists(out):
            js = json.load(open(out))
            return js["class"], js["run"], js
        return ("crash-signal-%d" % -p.returncode if p.returncode < 0 else "crash-exit-%d" % p.returncode), at(), None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def pin_down(w, what, run):
    """A record that reproduces what the worker saw, in a fresh process, or None."""
    exe, prop, seed = w.build.exe(w.sim, w.mode), w.prop, w.seed
    base = {"property": prop, "simulator": w.sim, "profile": w.mode, "zoo": w.build.zoo, "seed": seed, "run": run}

    def by_choices(choices, cls, **more):
        c1, t1 = replay_choices(exe, prop, choices)
        if c1 != cls:
            return None
        c2, t2 = replay_choices(exe, prop, choices)
        if c2 != cls or field(t1, "log-hash") != field(t2, "log-hash"):
            return None
        lines = t1.splitlines()
        cut = [i for i, l in enumerate(lines) if l.startswith("log-hash")]
        trace = [l.strip() for l in (lines[:cut[0]] if cut else lines)]
        message = "\n".join(lines[cut[0] + 2:]) if cut else "the process ended by %s" % cls
        return dict(base, kind="choices", **{"class": cls, "choices": choices, "trace": trace, "message": message,
                                             "log_hash": field(t1, "log-hash")}, **more)

    if what == "violation":
        v = w.violation
        r = by_choices(v["choices"], v["class"], original_choices=v["original_choices"])
        if r:
            return r
        cls, at, js = outcome_of_range(exe, prop, seed, run, 1)
        if js:
            r = by_choices(js["choices"], cls, original_choices=js["original_choices"])
            if r:
                return r
        want = v["class"]
    else:
        fd, dump = tempfile.mkstemp(dir=TARGET)
        os.close(fd)
        cls, _ = bounded(exe, ["one", prop, seed, run, dump])
        with open(dump) as f:
            words = f.read().split()
        os.unlink(dump)
        if cls is not None:
            choices = [int(x) for x in words]
            if cls == "hang":
                r = by_choices_hang(exe, prop, choices, base)
            else:
                small, n = ddmin(lambda c: replay_choices(exe, prop, c)[0] == cls, choices, 45)
                r = by_choices(small, cls, original_choices=len(choices)) or by_choices(choices, cls)
            if r:
                return r
        want = what
    # It takes what earlier runs left behind in the process: find the shortest stretch that shows it.
    back = 1
    while True:
        start = max(w.start, run - back)
        cls, at, js = outcome_of_range(exe, prop, seed, start, run - start + 1)
        if cls is not None:
            cls2, at2, js2 = outcome_of_range(exe, prop, seed, start, at - start + 1)
            if (cls2, at2) == (cls, at):
                msg = js["message"] if js else "the process ended by %s" % cls
                return dict(base, kind="stretch", start=start, count=at - start + 1, run=at,
                            **{"class": cls, "message": msg + " (needs the preceding runs in the same process)",
                               "trace": js["trace"] if js else []})
        if start == w.start:
            return None
        back *= 4


def by_choices_hang(exe, prop, choices, base):
    # the watchdog takes long: keep only as much as is cheap to find
    for cut in (len(choices) // 2, len(choices)):
        cls, text = replay_choices(exe, prop, choices[:cut])
        if cls == "hang":
            return dict(base, kind="choices", choices=choices[:cut], original_choices=len(choices), log_hash=None,
                        **{"class": "hang", "trace": [], "message": "this run never ends"})
    return None


def replay(path, prop, tier):
    rec = json.load(open(path))
    if rec["property"] != prop:
        raise CheckError("%s is about %s" % (path, rec["property"]))
    b = Build([rec["simulator"]], tier, rec.get("zoo"))
    try:
        exe = b.exe(rec["simulator"], rec["profile"])
        if rec["kind"] == "stretch":
            cls, at, js = outcome_of_range(exe, prop, rec["seed"], rec["start"], rec["count"])
            if cls == rec["class"]:
                say("%s: run %s: %s" % (cls, at, js["message"] if js else ""))
                say("reproduced exactly" if at == rec["run"] else "reproduced at another run")
                say("VIOLATION property=%s replay=%s" % (prop, path))
                return 1
        else:
            cls, text = replay_choices(exe, prop, rec["choices"])
            say(text)
            if cls is not None:
                same = cls == rec["class"] and field(text, "log-hash") == rec["log_hash"]
                say("reproduced exactly" if same else "violated, but not as recorded (the code has changed)")
                say("VIOLATION property=%s replay=%s" % (prop, path))
                return 1
        say("not reproduced: the property holds on this run")
        return 0
    finally:
        b.clean()


# ------------------------------------------------------------------------------------------- search
RULE = {
    BUF: "one run = one seeded history of operations (next, peek, skip, fork a cursor, commit, abandon, panic through) on "
         "a real Buf over a simulated source, with faults placed between and inside the operations, compared step by step "
         "with a plain-vector reference model. Distinct: different hash of the sequence of operations, arguments, arrival "
         "and fault events. Non-trivial: elements were really consumed or inspected by more than one kind of operation, "
         "or a fault fired.",
    ZOO: "one run = one seeded session (a type of the zoo, an input sampled from or mutated off its grammar, a delivery "
         "schedule, faults, and one or several parse/peek calls on a buffer or on nested cursors), compared with a "
         "reference model of the grammar or with another run of the real code. Distinct: different hash of type, input, "
         "calls, arrival and fault events. Non-trivial: the property had something to decide in the run.",
}
RULE_OF = {
    "C24": "one run = one seeded parse, peek or attempt abandoned half-way, of a type of the zoo on a long or deeply nested "
           "input, with elements still arriving, a source that panics or junk and look-ahead before it, the depth of the stack "
           "sampled at every operation and held against how deep parts nest in the reference model. Distinct: different hash of "
           "type, input, calls and arrival. Non-trivial: more than 60 elements looked at, or parts nested more than five deep.",
    "C22": "one run = one seeded parse, peek or attempt abandoned half-way, of a type of the zoo on a long or deeply nested "
           "input, with elements still arriving, a source that panics or junk and look-ahead before it, every operation of the "
           "library on a buffer or cursor counted through the hook and held against what the reference model had to look at. "
           "Distinct: different hash of type, input, calls and arrival. Non-trivial: the model looked at more than 40 things.",
    "C21": "one run = one seeded program of up to five operations (parse, peek, skip, next, look ahead, abandoned or panicking "
           "cursors, source and user faults) repeated along a stream of 20,000 characters or 80,000 bytes, the heap in use taken "
           "after every round. Distinct: different hash of type, stream and program. Non-trivial: what was consumed would not "
           "fit, twice over, into what may be held.",
}
ASSUMPTIONS = [
    "sampled, not exhaustive: a clean batch is evidence, not proof",
    "types are those of the hand-written and the generated zoo; a type shape outside it is not covered",
    "the reference model (sim/src/model.rs) states the intended meaning of the grammar",
    "x86-64 Linux, the pinned nightly toolchain, with and without debug assertions",
]
REAL = ["nommy (buffer, cursors, text, bytes, containers, entry points)", "nommy-derive (generated parsers)",
        "eyre", "std collections and panic unwinding"]
STUB = ["the input iterator (simulated source: arrival, stalls, panics, read counting)",
        "the element type where drops or clones are observed", "user-written parsers and conversions (scripted)",
        "the thread scheduler (C17: real threads, one released at a time by the seeded scheduler)"]


def jobs_for(prop, tier, share=1.0, maxsecs=120):
    out = []
    for sim, quick, thorough in PLAN[prop]:
        n = max(1, int((quick if tier == "quick" else thorough) * share))
        for i in range(WORKERS):
            for mode in MODES:
                # two profiles share the workers' runs
                out.append((sim, mode, i * n, (n + 1) // 2, maxsecs))
    return out


def search(build, prop, seed, jobs, total, scratch):
    """Runs the jobs, WORKERS at a time; returns a record of a violation or None."""
    queue, live, unclear = list(jobs), [], []
    try:
        while queue or live:
            while queue and len(live) < WORKERS:
                live.append(Worker(build, prop, seed, queue.pop(0), scratch))
            time.sleep(0.05)
            for w in list(live):
                r = w.poll()
                if r is None:
                    continue
                what, run = r
                if what == "done":
                    live.remove(w)
                    total["finished"] += w.done
                    total["skipped"] += len(w.skipped)
                    continue
                if what != "violation" and prop in RETURNS_ONLY:
                    if not w.resume_after(run):
                        live.remove(w)
                        total["finished"] += w.done
                        total["skipped"] += len(w.skipped)
                    continue
                rec = pin_down(w, what, run)
                if rec is None:
                    unclear.append("%s %s run %s: %s" % (w.sim, w.mode, run, w.violation if what == "violation" else what))
                    if len(unclear) > 20 or not w.resume_after(run):
                        live.remove(w)
                    continue
                k = known(prop, rec["class"], rec["message"])
                if k:
                    total["known"][k["what"]] = k
                    if not w.resume_after(run):
                        live.remove(w)
                    continue
                return rec
    finally:
        for w in live:
            kill(w.p)
    if unclear:
        raise CheckError("seen once, not reproducible: " + "; ".join(unclear)[:3000])
    return None


def count_distinct(files):
    seen = set()
    for f in files:
        a = array.array("Q")
        with open(f, "rb") as fh:
            a.frombytes(fh.read())
        seen.update(a)
    return len(seen)


def merge(total):
    st = {"evals": 0, "nontrivial": 0, "sim_time": 0, "faults": {}, "probes": {}, "samples": [], "cpu": 0.0}
    for js, _ in total["finished"]:
        for k in ("evals", "nontrivial", "sim_time"):
            st[k] += js[k]
        st["cpu"] += js["wall"]
        for k in ("faults", "probes"):
            for n, v in js[k].items():
                st[k][n] = st[k].get(n, 0) + v
        st["samples"] += [s for s in js["samples"] if s]
    return st


def write_evidence(prop, tier, seed, total, t0, rec, phases):
    st = merge(total)
    wall = time.time() - t0
    search_wall = max(total["search_wall"], 1e-9)
    sims = [s for s, _, _ in PLAN[prop]]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": st["evals"],
            "distinct_nontrivial": count_distinct([s for _, s in total["finished"] if os.path.exists(s)]),
            "nontrivial": st["nontrivial"],
            "rule": RULE_OF.get(prop) or " ".join(RULE[s] for s in sims),
            "samples": [s[:1500] for s in st["samples"][:6]],
            "seeds": "VERIF_SEED=%d; every (profile, run number) is one seed" % seed,
            "runs_per_hour": int(st["evals"] / search_wall * 3600),
            "seeds_per_hour": int(st["evals"] / search_wall * 3600),
            "simulated_time": {"source_reads": st["sim_time"],
                               "unit": "reads of the simulated source (the only clock the code under test can observe)"},
            "faults_injected": st["faults"],
            "probes": st["probes"],
            "real_components": REAL,
            "stub_components": STUB,
            "profiles": ["debug assertions on", "debug assertions off"],
            "type_zoos": phases,
            "runs_skipped_without_verdict": total["skipped"],
            "search_wall_s": round(total["search_wall"], 1),
            "build_wall_s": round(total["build_wall"], 1),
        },
        "assumptions": ASSUMPTIONS,
        "wall_s": round(wall, 2),
        "violations": 1 if rec else 0,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    path = os.path.join(HERE, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    os.replace(path + ".tmp", path)
    return ev


def save_replay(rec):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    name = "%s-%s-%s-%s.json" % (rec["property"], rec["class"], rec["profile"], rec["run"])
    path = os.path.join(d, name.replace("/", "_").replace(" ", "_"))
    with open(path, "w") as f:
        json.dump(rec, f, indent=1, ensure_ascii=False)
    return path


def check(prop, tier, seed):
    t0 = time.time()
    bins = [s for s, _, _ in PLAN[prop]]
    total = {"finished": [], "skipped": 0, "known": {}, "search_wall": 0.0, "build_wall": 0.0}
    scratch = tempfile.mkdtemp(prefix="run-", dir=TARGET)
    rec, phases = None, []
    # (zoo, share of the runs); the committed zoo first
    plan = [(None, 1.0)]
    if tier == "thorough" and ZOO in bins:
        plan = [(None, 1.0)] + [(seed * 1000 + i, 0.5) for i in range(1, 9)]
    budget = 690.0
    try:
        for i, (zoo, share) in enumerate(plan):
            left = budget - (time.time() - t0)
            if i and left < 120:
                break
            sub = os.path.join(scratch, str(i))
            os.makedirs(sub)
            b = Build(bins, tier, zoo)
            try:
                total["build_wall"] += b.secs
                t1 = time.time()
                per_job = 120
                if tier == "thorough":
                    js = jobs_for(prop, tier, share)
                    rounds = max(1, len(js) // WORKERS)
                    aim = left - 60 if len(plan) == 1 else min(200.0 if i == 0 else 110.0, left - 60)
                    per_job = max(5, int(aim / rounds))
                phases.append("committed" if zoo is None else "generated from seed %d" % zoo)
                rec = search(b, prop, seed + 1_000_003 * i, jobs_for(prop, tier, share, per_job), total, sub)
                total["search_wall"] += time.time() - t1
            finally:
                b.clean()
            if rec:
                break
        ev = write_evidence(prop, tier, seed, total, t0, rec, phases)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    for k in sorted(total["known"]):
        say("KNOWN-FINDING: property=%s %s" % (prop, k))
    if rec:
        path = save_replay(rec)
        say("%s: %s" % (rec["class"], rec["message"]))
        for line in rec.get("trace", [])[-40:]:
            say("    " + line[:400])
        say("seed %s, run %s, profile %s, simulator %s" % (rec["seed"], rec["run"], rec["profile"], rec["simulator"]))
        say("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    c = ev["coverage"]
    say("%s held: %d runs (%d distinct non-trivial), %d runs/hour, faults %s, %.0f s"
        % (prop, c["evaluations"], c["distinct_nontrivial"], c["runs_per_hour"],
           sum(c["faults_injected"].values()), ev["wall_s"]))
    if c["evaluations"] == 0:
        raise CheckError("nothing was run")
    return 0


def determinism(props, seed):
    """Every run twice, in processes of different extent: equal event logs."""
    b = Build([BUF, ZOO], "quick")
    bad = 0
    try:
        for prop in props:
            for sim, _, _ in PLAN[prop]:
                n = {"C17": 60, "C21": 12, "C22": 1000, "C24": 500}.get(prop, 4000)
                for mode in MODES:
                    exe = b.exe(sim, mode)
                    parts = lambda k: b"".join(
                        p.communicate()[0] for p in
                        [subprocess.Popen([exe, "log", prop, str(seed), str(i * n // k), str((i + 1) * n // k - i * n // k)],
                                          stdout=subprocess.PIPE, env=sim_env()) for i in range(k)])
                    same = parts(1) == parts(7) == parts(3)
                    say("%s %s %s: %s" % (prop, sim, mode, "identical" if same else "DIFFERENT"))
                    bad += not same
    finally:
        b.clean()
    return 1 if bad else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("props", nargs="*")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--determinism", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED") or 1)
    os.makedirs(TARGET, exist_ok=True)
    try:
        if a.setup:
            b = Build([BUF, ZOO], "quick")
            b.clean()
            say("built in %.0f s" % b.secs)
            return 0
        if a.determinism:
            return determinism(a.props or sorted(PLAN), seed)
        if len(a.props) != 1 or a.props[0] not in PLAN:
            ap.error("one property of: " + " ".join(PLAN))
        if a.replay:
            return replay(a.replay, a.props[0], a.tier)
        return check(a.props[0], a.tier, seed)
    except CheckError as e:
        say("ERROR: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
