#!/usr/bin/env python3
"""Runs the check of one property against /repo's current working tree.

  run.py C01 [quick|thorough]     exit 0 held, 1 violated (VIOLATION line), 2 the check itself failed
  run.py replay <file>            runs one recorded case again
  run.py setup                    checks the tools that the checks need

Every check compiles its harness (harness/<name>.cpp) from /repo/include into a scratch directory, in several variants
(sanitized, optimised, other standard and compiler), runs the variants' cases in shards, and merges what the monitors
inside the harness saw.
"""
import array
import json
import os
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
JOBS = 8

COMMON = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(HERE, "harness"), "-pthread", "-w"]
VARIANTS = {
    # sanitized: memory errors, undefined behaviour, stale iterators and indices, uninitialised locals made visible
    "asan": ["g++", "-std=c++14", "-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
             "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern"],
    # what users ship: optimised, another compiler and standard, assertions off
    "opt": ["clang++", "-std=c++17", "-O2", "-DNDEBUG", "-DVH_OPT"],
    # another standard, with libstdc++'s debug containers (every iterator and reference of the containers tracked)
    "dbg20": ["g++", "-std=c++20", "-O1", "-g", "-D_GLIBCXX_DEBUG", "-fsanitize=undefined", "-fno-sanitize-recover=all", "-DVH_OPT"],
    "tsan": ["clang++", "-std=c++14", "-O1", "-g", "-fsanitize=thread", "-fno-sanitize-recover=all"],
    "vg": ["g++", "-std=c++14", "-O1", "-g", "-DVH_OPT", "-DVH_VALGRIND"],
    "fuzz": ["clang++", "-std=c++14", "-O1", "-g", "-fsanitize=fuzzer,address,undefined", "-fno-sanitize-recover=all",
             "-D_GLIBCXX_ASSERTIONS"],
}
ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:malloc_fill_byte=165:max_malloc_fill_size=4096:free_fill_byte=90:"
                    "max_free_fill_size=4096:detect_stack_use_after_return=1:exitcode=99:abort_on_error=0:"
                    "allocator_may_return_null=0:handle_abort=1:check_initialization_order=1:strict_init_order=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=99:halt_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=99:second_deadlock_stack=1:history_size=4",
    "LC_ALL": "C",
}
STALL = {"quick": 60, "thorough": 180}      # seconds one case may take before it is looked at on its own
ALONE = {"quick": 120, "thorough": 400}     # seconds it may take then
RSS_MB = 3500                               # memory one process of a harness may hold (the most seen is a third of it)


class CheckError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def env():
    e = {k: v for k, v in os.environ.items() if not k.startswith(("ASAN_", "UBSAN_", "TSAN_", "LC_", "LANG"))}
    e.update(ENV)
    return e


def compile_all(work, harness, variants):
    """compiles all variants in parallel; the compiler is only asked to read /repo's tree"""
    procs = {}
    for v in variants:
        src = os.path.join(HERE, "harness", (variants[v].get("source") or harness) + ".cpp")
        out = os.path.join(work, v)
        base = variants[v].get("base", v)
        cmd = VARIANTS[base] + variants[v].get("flags", []) + COMMON + [src, "-o", out] + variants[v].get("libs", [])
        err = open(out + ".cc", "w")
        procs[v] = (subprocess.Popen(cmd, stdout=err, stderr=err, env=env()), cmd, out)
    bins = {}
    for v, (p, cmd, out) in procs.items():
        if p.wait() != 0:
            raise CheckError("compiling variant %s failed:\n%s\n%s" % (v, " ".join(cmd), open(out + ".cc").read()[-4000:]))
        bins[v] = out
    return bins


def read_progress(path):
    try:
        with open(path, "rb") as f:
            s = f.read(200).split(b"\n")[0].decode("ascii", "replace")
        part, _, idx = s.partition(":")
        return (part, int(idx)) if idx.isdigit() else None
    except OSError:
        return None


def rss_mb(pid):
    """memory held by a process that this run started"""
    try:
        with open("/proc/%d/statm" % pid) as f:
            return int(f.read().split()[1]) * 4096 >> 20
    except (OSError, IndexError, ValueError):
        return 0


# the oracles recurse too
STACK = 256 << 20


def limit_memory(mb):
    def f():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        hard = resource.getrlimit(resource.RLIMIT_STACK)[1]
        if hard == resource.RLIM_INFINITY or hard >= STACK:
            resource.setrlimit(resource.RLIMIT_STACK, (STACK, hard))
        if mb:
            resource.setrlimit(resource.RLIMIT_AS, (mb << 20, mb << 20))
    return f


def kill_group(p):
    if p.poll() is None:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
    p.wait()


def tail(path, n=6000):
    try:
        with open(path, errors="replace") as f:
            s = f.read()
    except OSError:
        return ""
    for mark in ("ERROR: AddressSanitizer", "runtime error:", "WARNING: ThreadSanitizer", "Assertion", "==ERROR"):
        i = s.find(mark)
        if i >= 0:
            return s[max(0, i - 200):i + n]
    return s[-n:]


class Shard:
    """one process of a harness; ended when a case makes no progress for too long or holds too much memory"""

    def __init__(self, cmd, stem, alone=None):
        self.stem = stem
        self.cmd = cmd + ["--out", stem + ".json", "--progress", stem + ".prog"]
        self.alone = alone      # (part, index) when it runs that one case only
        self.p = None
        self.last = None
        self.t = 0
        self.peak = 0
        self.ended = None       # "stalled" or "memory" when the watchdog ended it

    def start(self):
        self.err = open(self.stem + ".log", "w")
        self.p = subprocess.Popen(self.cmd, stdout=self.err, stderr=self.err, stdin=subprocess.DEVNULL, env=env(),
                                  preexec_fn=limit_memory(0))
        self.t = time.monotonic()

    def done(self, stall):
        if self.p.poll() is not None:
            return True
        held = rss_mb(self.p.pid)
        self.peak = max(self.peak, held)
        cur = read_progress(self.stem + ".prog")
        now = time.monotonic()
        if held > RSS_MB:
            self.ended = "memory"
        elif cur != self.last and not self.alone:
            self.last, self.t = cur, now
        elif now - self.t > stall:
            self.ended = "stalled"
        if self.ended:
            kill_group(self.p)
            return True
        return False


def run_alone(cmd, part, index, timeout, stem):
    sh = Shard(cmd + ["--only", "%s:%d" % (part, index)], stem, (part, index))
    sh.start()
    while not sh.done(timeout):
        time.sleep(0.02)
    return None if sh.ended else sh.p.returncode


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.check = CHECKS[prop]
        self.violations = []  # dict(variant, part, index, msg)
        self.evaluations = 0
        self.cases = 0
        self.distinct = set()
        self.parts = {}
        self.counters = {}
        self.samples = {}
        self.notes = []
        self.known = []
        self.hangs = 0          # cases without an end, or without a bound on memory
        self.peak = 0           # MB held by the biggest process of the harness
        self.shard_cmd = {}
        self.assumptions = list(self.check.get("assumptions", []))
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % prop.lower())
        self.t0 = time.time()

    # -- one variant's cases
    def base_cmd(self, exe, v):
        c = list(v.get("wrap", [])) + [exe, "--seed", str(self.seed)]
        if self.tier == "thorough" and not v.get("quick_size"):
            c.append("--thorough")
        return c

    def merge(self, stem, variant):
        with open(stem + ".json") as f:
            d = json.load(f)
        self.cases += d["cases"]
        self.evaluations += d["evaluations"]
        for k, n in d["parts"].items():
            key = "%s/%s" % (variant, k)
            self.parts[key] = self.parts.get(key, 0) + n
        for k, n in d["counters"].items():
            self.counters[k] = self.counters.get(k, 0) + n
        for k, l in d["samples"].items():
            have = self.samples.setdefault(k, [])
            for s in l:
                if len(have) < 3:
                    have.append(s)
        a = array.array("Q")
        with open(stem + ".json.distinct", "rb") as f:
            a.frombytes(f.read())
        self.distinct.update(a)
        for x in d["violations"]:
            self.violations.append(dict(variant=variant, part=x["part"], index=x["index"], msg=x["msg"]))

    def run_variants(self, bins, variants):
        pending = []
        for name, v in variants.items():
            if v.get("manual"):
                continue
            permille = v.get("permille_thorough", v.get("permille", 1000)) if self.tier == "thorough" else v.get("permille", 1000)
            shards = v.get("shards", JOBS)
            for s in range(shards):
                cmd = self.base_cmd(bins[name], v)
                full = cmd + ["--shard", str(s), "--shards", str(shards), "--permille", str(permille)]
                sh = Shard(full, os.path.join(self.work, "%s.%d" % (name, s)))
                self.shard_cmd[sh.stem] = full
                pending.append((name, v, cmd, sh))
        running = []
        try:
            while (pending or running) and not self.hangs:
                while pending and len(running) < JOBS:
                    e = pending.pop(0)
                    e[3].start()
                    running.append(e)
                still = []
                for e in running:
                    slow = e[1].get("slow", 1) * (4 if e[3].stem.endswith(".again") else 1)
                    if not e[3].done((ALONE if e[3].alone else STALL)[self.tier] * slow):
                        still.append(e)
                        continue
                    self.peak = max(self.peak, e[3].peak)
                    more = self.finish(*e)
                    if more:
                        pending.insert(0, more)
                running = still
                time.sleep(0.02)
        finally:
            # one case without an end is an answer: the others would only take the machine's time and memory
            for e in running:
                kill_group(e[3].p)

    def bad(self, name, at, msg):
        self.violations.append(dict(variant=name, part=at[0], index=at[1], msg=msg))

    def finish(self, name, v, cmd, sh):
        """what a process that ended says; returns another one to run when that is not clear yet"""
        rc = sh.p.returncode
        if sh.alone:
            if sh.ended:
                self.bad(name, sh.alone, "the case does not end (alone for %d s)" % ALONE[self.tier] if sh.ended == "stalled"
                         else "the case holds more than %d MB, and wants more" % RSS_MB)
                if not known_match(self.prop, self.violations[-1]):
                    self.hangs += 1
            elif rc in (0, 1):
                # slow because of its company: once more, with more patience
                if sh.stem.endswith(".again.alone"):
                    raise CheckError("variant %s case %s:%d is ended in the batch but ends alone with %s" % ((name,) + sh.alone + (rc,)))
                self.notes.append("%s case %s:%d was slow in the batch, ended alone; its shard ran again" % ((name,) + sh.alone))
                again = Shard(self.shard_cmd[sh.stem[:-len(".alone")]], sh.stem[:-len(".alone")] + ".again")
                self.shard_cmd[again.stem] = self.shard_cmd[sh.stem[:-len(".alone")]]
                return (name, v, cmd, again)
            else:
                self.bad(name, sh.alone, "the process died (%s): %s" % (signame(rc), tail(sh.stem + ".log")))
            return None
        at = read_progress(sh.stem + ".prog")
        if not sh.ended and rc in (0, 1) and os.path.exists(sh.stem + ".json"):
            self.merge(sh.stem, name)
            return None
        if sh.ended and not at:
            raise CheckError("variant %s made no progress at all" % name)
        text = tail(sh.stem + ".log")
        if not sh.ended and (rc == 2 or not at or at[0] == "done"):
            raise CheckError("variant %s shard failed (rc %s at %s): %s" % (name, rc, at, text))
        if sh.ended or rc == -9:
            # ended by the watchdog, or from outside (memory): see what the case does on its own
            return (name, v, cmd, Shard(cmd + ["--only", "%s:%d" % at], sh.stem + ".alone", at))
        self.bad(name, at, "the process died (%s): %s" % (signame(rc), text))
        return None

    # -- reporting
    def report(self):
        fresh = []
        for x in self.violations:
            k = known_match(self.prop, x)
            if k:
                if k not in self.known:
                    self.known.append(k)
            else:
                fresh.append(x)
        for k in self.known:
            log("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        self.evidence(len(fresh))
        if not fresh:
            log("%s %s: held on %d cases (%d evaluations, %d distinct non-trivial), %.1f s"
                % (self.prop, self.tier, self.cases, self.evaluations, len(self.distinct), time.time() - self.t0))
            return 0
        d = os.path.join(HERE, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        shown = 0
        for i, x in enumerate(fresh[:12]):
            path = os.path.join(d, "%s-%d.json" % (self.prop, i))
            with open(path, "w") as f:
                json.dump(dict(property=self.prop, tier=self.tier, seed=self.seed, **x), f, indent=1)
                f.write("\n")
            log("VIOLATION property=%s replay=%s" % (self.prop, path))
            if shown < 4:
                log("  [%s] %s:%s %s" % (x["variant"], x["part"], x["index"], x["msg"][:1800]))
            shown += 1
        return 1

    def evidence(self, bad):
        c = self.check
        samples = []
        for k, l in self.samples.items():
            samples += ["%s: %s" % (k, s) for s in l[:2]]
        cov = dict(evaluations=self.evaluations, distinct_nontrivial=min(len(self.distinct), self.evaluations), rule=c["rule"],
                   samples=samples[:24] or ["(none)"], cases=self.cases, cases_per_part=self.parts,
                   monitor_counters=self.counters, peak_rss_mb=self.peak)
        if self.notes:
            cov["notes"] = self.notes
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=c["level"], coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=bad)
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        path = os.path.join(HERE, "evidence", self.prop + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        os.replace(path + ".tmp", path)


def signame(rc):
    if rc is not None and rc < 0:
        try:
            return signal.Signals(-rc).name
        except ValueError:
            pass
    return "exit %s" % rc


def known_lines(prop):
    path = os.path.join(HERE, "known_findings.txt")
    for l in open(path):
        l = l.strip()
        if l.startswith("known: property=%s " % prop):
            # known: property=<id> part=<part> index=<index or *> :: <what fails>
            head, _, what = l.partition(" :: ")
            f = dict(w.split("=", 1) for w in head.split()[1:] if "=" in w)
            yield f, what


def known_match(prop, x):
    for f, what in known_lines(prop):
        if f.get("part") == x["part"] and f.get("index") in ("*", str(x["index"])):
            return what
    return None


def active_variants(check, tier):
    r = {}
    for n, v in check["variants"].items():
        if v.get("only", tier) == tier:
            r[n] = v
    return r


def check(prop, tier):
    seed = int(os.environ.get("VERIF_SEED", "1"))
    run = Run(prop, tier, seed)
    try:
        c = run.check
        variants = active_variants(c, tier)
        bins = compile_all(run.work, c["harness"], variants)
        log("%s: built %s in %.1f s" % (prop, " ".join(bins), time.time() - run.t0))
        run.run_variants(bins, variants)
        for step in c.get("steps", []):
            if not run.hangs:
                step(run, bins, tier)
        return run.report()
    finally:
        shutil.rmtree(run.work, ignore_errors=True)


def replay(path):
    x = json.load(open(path))
    run = Run(x["property"], x["tier"], x["seed"])
    try:
        v = run.check["variants"][x["variant"]]
        bins = compile_all(run.work, run.check["harness"], {x["variant"]: v})
        if x.get("input") is not None:
            f = os.path.join(run.work, "input")
            open(f, "wb").write(bytes.fromhex(x["input"]))
            rc = subprocess.run([bins[x["variant"]], "-detect_leaks=0", f], env=env()).returncode
            log("VIOLATION property=%s replay=%s" % (x["property"], path) if rc else "the input no longer fails")
            return 1 if rc else 0
        if v.get("manual"):
            log("this case was found by an extra step: %s" % x["msg"])
            return 0
        stem = os.path.join(run.work, "one")
        rc = run_alone(run.base_cmd(bins[x["variant"]], v), x["part"], int(x["index"]), 600, stem)
        if os.path.exists(stem + ".json"):
            log(open(stem + ".json").read())
        log(open(stem + ".log").read()[-8000:])
        log("ended with", "a timeout" if rc is None else signame(rc))
        return 0 if rc == 0 else 1
    finally:
        shutil.rmtree(run.work, ignore_errors=True)


def setup():
    for t in ("g++", "clang++"):
        if not shutil.which(t):
            raise CheckError("no " + t)
    for c in CHECKS.values():
        p = os.path.join(HERE, "harness", c["harness"] + ".cpp")
        if not os.path.exists(p):
            raise CheckError("no " + p)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    log("ready: %d checks" % len(CHECKS))
    return 0


def main():
    a = sys.argv[1:]
    # ended from outside: through the finally blocks, so that nothing it started is left
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(2))
    try:
        if a[:1] == ["setup"]:
            return setup()
        if a[:1] == ["replay"]:
            return replay(a[1])
        tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
        return check(a[0], tier)
    except CheckError as e:
        log("CHECK-ERROR: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
