#!/usr/bin/env python3
"""Decide one property by watching executions of /repo's code.

  check.py ID quick|thorough      run the check
  check.py --replay FILE          re-run what a VIOLATION line named
  check.py --build                build all variants (setup)

Exit 0: held on everything explored. Exit 1, with a VIOLATION line: a monitor
saw the property fail. Exit 2: no answer (build failure, harness error, too few
observations).
"""
import fcntl, hashlib, json, os, resource, shutil, signal, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import plan  # noqa: E402

HARNESS = os.path.join(HERE, "harness")
TARGET = os.path.join(HARNESS, "target")
REPO = "/repo"
HOST = "x86_64-unknown-linux-gnu"

VARIANTS = {
    # Optimized, debug assertions and overflow checks on.
    "mon": dict(args=["--profile", "mon"], bin="mon/cvmon"),
    # As a canister is shipped.
    "rel": dict(args=["--profile", "release"], bin="release/cvmon"),
    # AddressSanitizer.
    "asan": dict(toolchain="+nightly", args=["--profile", "asan", "--target", HOST],
                 bin=HOST + "/asan/cvmon", env={"RUSTFLAGS": "-Zsanitizer=address"}, dir="asan"),
    # The toy hash of the Miri builds, to compare with them.
    "toy": dict(args=["--release"], bin="release/cvmon-miri", cwd=os.path.join(HERE, "mirih")),
}


class NoAnswer(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def env_with(extra=None):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "MIRIFLAGS", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e.update(extra or {})
    return e


def repo_hash():
    """Content of what the crate under test is built from."""
    h = hashlib.sha256()
    files = [os.path.join(REPO, "Cargo.toml")]
    for d, dirs, names in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        files += [os.path.join(d, n) for n in sorted(names)]
    for n in ("build.rs",):
        p = os.path.join(REPO, n)
        if os.path.exists(p):
            files.append(p)
    for f in files:
        h.update(f.encode() + b"\0")
        h.update(open(f, "rb").read())
        h.update(b"\0")
    return h.hexdigest()


def target_dir(sub):
    return TARGET if sub is None else os.path.join(TARGET, sub)


def fresh(sub):
    """Cargo trusts time stamps; trust contents instead."""
    d = target_dir(sub)
    os.makedirs(d, exist_ok=True)
    stamp = os.path.join(d, "repo.hash")
    now = repo_hash()
    old = open(stamp).read() if os.path.exists(stamp) else None
    if old != now:
        forget(d)
        with open(stamp, "w") as f:
            f.write(now)


def forget(d):
    """Drop what was built below `d` of the crate under test and the harness."""
    ours = ("certified-vars", "certified_vars", "libcertified_vars", "cvmon")
    for base, dirs, files in os.walk(d):
        for n in list(dirs):
            if n.startswith(ours):
                shutil.rmtree(os.path.join(base, n), ignore_errors=True)
                dirs.remove(n)
        for n in files:
            if n.startswith(ours):
                os.unlink(os.path.join(base, n))


def build(names):
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        procs = []
        for n in names:
            v = VARIANTS[n]
            tc = [v["toolchain"]] if "toolchain" in v else []
            # Separate directories, so that variants build in parallel.
            sub = n
            env = env_with(v.get("env"))
            fresh(sub)
            cmd = ["cargo"] + tc + ["build", "--offline", "--locked", "--target-dir", target_dir(sub)] + v["args"]
            out = open(os.path.join(target_dir(sub), "build.log"), "w+")
            procs.append((n, out, subprocess.Popen(cmd, cwd=v.get("cwd", HARNESS), env=env, stdout=out, stderr=subprocess.STDOUT)))
        for n, out, p in procs:
            if p.wait() != 0:
                out.seek(0)
                errs = [l for l in out.read().splitlines() if l.startswith("error")] or ["see " + out.name]
                for _, _, q in procs:
                    q.wait()
                raise NoAnswer("the %s variant does not build: %s" % (n, "; ".join(errs[:5])))
            out.close()


# Miri runs the same harness with a cheap hash function, or, where that does not
# build, as it is.
MIRI_DIRS = [os.path.join(HERE, "mirih"), HARNESS]
MIRI_FLAGS = "-Zmiri-disable-isolation -Zmiri-tree-borrows"


def miri_cmd(crate, args, target=None):
    return (["cargo", "+nightly", "miri", "run", "--offline", "--locked", "-q", "--target-dir",
             os.path.join(TARGET, "miri" if crate == MIRI_DIRS[0] else "miri-real")]
            + (["--target", target] if target else []) + ["--"] + args)


def build_miri(crates=MIRI_DIRS, targets=(None,)):
    """Returns the crate that builds."""
    with open(os.path.join(TARGET, "lock-miri"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        for c in crates:
            env = env_with({"MIRIFLAGS": MIRI_FLAGS})
            fresh("miri" if c == MIRI_DIRS[0] else "miri-real")
            ok = True
            for t in targets:
                p = subprocess.run(miri_cmd(c, ["--prop", "C11", "--cases", "0"], t), cwd=c, env=env,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                ok = ok and p.returncode == 0
            if ok:
                return c
        raise NoAnswer("the Miri variant does not build: " + p.stdout.decode(errors="replace")[-600:])


def binary(variant):
    return os.path.join(target_dir(variant), VARIANTS[variant]["bin"])


RUN_ENV = {"ASAN_OPTIONS": "halt_on_error=1:abort_on_error=1:detect_leaks=1:allocator_may_return_null=0:detect_stack_use_after_return=1",
           "RUST_BACKTRACE": "0"}


def limits(cpu=None, mem=None):
    def f():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    return f


def options(variant):
    # The largest collections take too long under a sanitizer.
    return ["--huge", "0"] if variant == "asan" else []


def run_case(variant, prop, seed, case, tier, small, cpu=100):
    """One case alone. Returns (bad, message)."""
    cmd = [binary(variant), "--prop", prop, "--seed", str(seed), "--tier", tier, "--case", str(case), "--small", str(small)] + options(variant)
    mem = None if variant == "asan" else 12 << 30
    p = subprocess.Popen(cmd, env=env_with(RUN_ENV), stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=limits(cpu, mem))
    try:
        out, err = p.communicate(timeout=cpu * 6)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        raise NoAnswer("replaying one case took too long")
    out, err = out.decode(errors="replace"), err.decode(errors="replace")
    if p.returncode == 0:
        return False, out.strip()
    if p.returncode == 1 and "ERROR: " not in err:
        return True, out.strip()
    if p.returncode == 2 or "HARNESS-ERROR" in err:
        raise NoAnswer("harness error: " + (err or out)[-600:])
    if p.returncode in (-signal.SIGXCPU, -signal.SIGKILL):
        return True, "the case does not finish within %d s of processor time (or exhausts memory); ordinary cases take under a second, and the largest some seconds" % cpu
    return True, "the process died (%s) inside a history of valid calls: %s" % (death(p.returncode), interesting(err))


def death(rc):
    if rc < 0:
        try:
            return signal.Signals(-rc).name
        except ValueError:
            return "signal %d" % -rc
    return "exit status %d" % rc


def interesting(err):
    keep = [l for l in err.splitlines() if l.strip()]
    first = next((i for i, l in enumerate(keep) if "ERROR" in l or "error" in l or "panicked" in l or "overflow" in l), 0)
    return " | ".join(keep[first:first + 14])[:1800]


def end(p):
    """End a process and what it started."""
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        p.kill()
    p.wait()


class Run:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.t0 = time.time()
        self.evaluations = 0
        self.distinct = set()
        self.samples, self.counters, self.findings = [], {}, {}
        self.variants = []
        self.violation = None  # (message, replay dict)
        self.extra = {}
        self.work = os.path.join(HARNESS, "target", "run-%s-%d" % (prop, os.getpid()))
        os.makedirs(self.work, exist_ok=True)

    def merge(self, j, sig, tag):
        self.evaluations += j["evaluations"]
        if sig and os.path.exists(sig):
            b = open(sig, "rb").read()
            self.distinct.update(memoryview(b).cast("Q").tolist() if b else [])
        for k, n in j["counters"].items():
            if k.startswith("max "):
                self.counters[k] = max(self.counters.get(k, 0), n)
            else:
                self.counters[k] = self.counters.get(k, 0) + n
        for k, n in j["findings"].items():
            self.findings[k] = self.findings.get(k, 0) + n
        for s in j["samples"][:2]:
            if len(self.samples) < 6:
                self.samples.append(s)
        self.counters["cases run (%s)" % tag] = self.counters.get("cases run (%s)" % tag, 0) + j["cases"]

    def violate(self, message, replay):
        if self.violation is None:
            self.violation = (message, replay)

    def shards(self, variant, shards, secs, small=0, base=0, prop=None, cases=10 ** 9):
        """Run shards of one variant; the caller waits with `wait`. With another
        property's workload, only sanitizer reports and crashes count."""
        prop = prop or self.prop
        out = []
        for i in range(shards):
            f = os.path.join(self.work, "%s-%s-%d" % (prop, variant, base + i))
            # Variants explore different cases, except where `base` says so.
            cmd = [binary(variant), "--prop", prop, "--seed", str(self.seed), "--tier", self.tier,
                   "--shard", str(base + i), "--shards", str(self.total), "--cases", str(cases), "--time", str(secs),
                   "--out", f, "--crumb", f + ".crumb", "--small", str(small)] + options(variant)
            err = open(f + ".err", "w+b")
            p = subprocess.Popen(cmd, env=env_with(RUN_ENV), stdout=subprocess.DEVNULL, stderr=err, preexec_fn=limits())
            out.append((variant, prop, f, p, err, secs, small))
        return out

    def wait(self, jobs, patience=90):
        hard = time.time() + max(j[5] for j in jobs) + patience
        for (variant, prop, f, p, err, secs, small) in jobs:
            try:
                p.wait(timeout=max(1, hard - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                if prop == self.prop:
                    self.suspect(variant, prop, f, small, "ran past its time")
                continue
            err.seek(0)
            e = err.read().decode(errors="replace")
            if p.returncode in (0, 1) and os.path.exists(f):
                j = json.load(open(f))
                if prop != self.prop:
                    k = "cases run (%s, workload of %s)" % (variant, prop)
                    self.counters[k] = self.counters.get(k, 0) + j["cases"]
                else:
                    self.merge(j, f + ".sig", variant)
                if j["violation"] and prop == self.prop:
                    v = j["violation"]
                    self.violate(v["message"], dict(variant=variant, prop=prop, seed=self.seed, case=v["case"], tier=self.tier, small=small))
                elif variant == "asan" and "ERROR: " in e:
                    self.violate("sanitizer report: " + interesting(e), dict(variant=variant, prop=prop, seed=self.seed, shard=f, tier=self.tier, small=small))
            elif p.returncode == 2 or "HARNESS-ERROR" in e:
                raise NoAnswer("harness error: " + e[-800:])
            elif "LeakSanitizer" in e:
                self.violate("leak: " + interesting(e), dict(variant=variant, prop=prop, seed=self.seed, case=0, tier=self.tier, small=small))
            else:
                self.suspect(variant, prop, f, small, death(p.returncode), interesting(e), p.returncode)

    def suspect(self, variant, prop, f, small, how, detail="", rc=None):
        """A shard died or hung: decide on the case it was in, run alone."""
        try:
            seed, case = open(f + ".crumb").read().split()[:2]
        except (OSError, ValueError):
            raise NoAnswer("a shard %s before its first case: %s" % (how, detail))
        bad, msg = run_case(variant, prop, int(seed), int(case), self.tier, small)
        if bad and prop != self.prop and "the process died" not in msg:
            return
        if bad:
            self.violate(msg, dict(variant=variant, prop=prop, seed=int(seed), case=int(case), tier=self.tier, small=small))
        elif rc is not None and rc in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS, -signal.SIGILL, -signal.SIGFPE):
            self.violate("the process died (%s) in case %s after the cases before it: %s" % (how, case, detail),
                         dict(variant=variant, prop=prop, seed=int(seed), case=int(case), tier=self.tier, small=small))
        else:
            raise NoAnswer("a shard %s in case %s, which is well when run alone: %s" % (how, case, detail))

    def finish(self):
        cfg = plan.PROPS[self.prop]
        known = plan.known_findings(HERE)
        for what, n in sorted(self.findings.items()):
            if (self.prop, what) not in known and self.violation is None:
                self.violate("unlisted finding: " + what, dict(variant="mon", prop=self.prop, seed=self.seed, case=0, tier=self.tier, small=0))
        d = len(self.distinct) + self.extra.pop("distinct", 0)
        cov = {
            "evaluations": self.evaluations,
            "distinct_nontrivial": d,
            "rule": cfg["rule"],
            "samples": self.samples or ["(none)"],
            "observed": self.counters,
        }
        cov.update(self.extra)
        if self.findings:
            cov["known_findings_observed"] = self.findings
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": cfg.get("level", "exploration"),
            "coverage": cov,
            "assumptions": cfg.get("assumptions", []),
            "wall_s": round(time.time() - self.t0, 1),
            "violations": 1 if self.violation else 0,
        }
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
            f.write("\n")
        shutil.rmtree(self.work, ignore_errors=True)
        if self.violation:
            msg, rep = self.violation
            d = os.path.join(HERE, "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-%s.json" % (self.prop, hashlib.sha256(json.dumps(rep, sort_keys=True).encode()).hexdigest()[:10]))
            with open(path, "w") as f:
                json.dump(dict(property=self.prop, message=msg, replay=rep), f, indent=1)
                f.write("\n")
            log("violated: " + msg)
            log("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        for what in sorted(self.findings):
            log("KNOWN-FINDING: property=%s %s (seen %d times in this run)" % (self.prop, what, self.findings[what]))
        if self.evaluations < cfg["min"] or d < cfg["min"] // 20:
            raise NoAnswer("only %d observations, %d distinct" % (self.evaluations, d))
        for k in cfg.get("need", []):
            if not self.counters.get(k):
                raise NoAnswer("the workload never reached: " + k)
        log("%s held: %d evaluations, %d distinct and non-trivial, %.0f s" % (self.prop, self.evaluations, d, time.time() - self.t0))
        return 0


def main(argv):
    if argv[:1] == ["--build"]:
        build(["mon", "rel", "asan", "toy"])
        jobs = [lambda: build_miri(), lambda: plan.build_probes(sys.modules[__name__]), lambda: build_miri(targets=plan.CROSS)]
        errors = []

        def guard(j):
            try:
                j()
            except Exception as e:  # reported below; checks decide for themselves
                errors.append(e)
        for j in jobs:
            guard(j)
        for e in errors:
            log("setup: %s" % e)
        return 0
    if argv[:1] == ["--replay"]:
        rec = json.load(open(argv[1]))
        rep = rec["replay"]
        if "cmd" in rep or "compare" in rep:
            return plan.replay(sys.modules[__name__], rec)
        build([rep["variant"]])
        bad, msg = run_case(rep["variant"], rep["prop"], rep["seed"], rep["case"], rep["tier"], rep["small"])
        log(msg)
        return 1 if bad else 0
    prop, tier = argv
    assert tier in ("quick", "thorough")
    run = Run(prop, tier)
    plan.execute(run, sys.modules[__name__])
    return run.finish()


if __name__ == "__main__":
    try:
        sys.exit(main(sys.argv[1:]))
    except NoAnswer as e:
        log("NO ANSWER: %s" % e)
        sys.exit(2)
