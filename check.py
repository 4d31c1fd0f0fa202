#!/usr/bin/env python3
"""Decides one property:  check.py <ID> [quick|thorough]      (check.py setup builds everything)

Exit 0: held on everything explored. Exit 1 with "VIOLATION property=<id> replay=<path>": broken.
Exit 2: no verdict (the build failed, the machinery failed, or an execution could not be judged)."""
import glob, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(HERE, ".build")
HARNESS = os.path.join(HERE, "harness")
EVID = os.path.join(HERE, "evidence")
KNOWN = os.path.join(HERE, "known_findings.txt")
REPO = "/repo"
HOST = "x86_64-unknown-linux-gnu"
T0 = time.time()


class Inconclusive(Exception):
    pass


def base_env():
    """The environment of the repository's own build, with our own target folder."""
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; env -0"], stdout=subprocess.PIPE, check=True).stdout
    env = dict(kv.split("=", 1) for kv in out.decode().split("\0") if "=" in kv)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"):
        env.pop(k, None)
    env["CARGO_INCREMENTAL"] = "0"
    return env


ENV = base_env()


def cargo_build(target_dir, args, rustflags=None, cwd=HARNESS, env_extra=None, timeout=800):
    env = dict(ENV)
    env["CARGO_TARGET_DIR"] = os.path.join(BUILD, target_dir)
    if rustflags:
        env["RUSTFLAGS"] = rustflags
    env.update(env_extra or {})
    r = subprocess.run(["cargo", "build", "--offline", "--locked"] + args, cwd=cwd, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=timeout)
    if r.returncode != 0:
        sys.stdout.write(r.stdout.decode(errors="replace")[-6000:])
        raise Inconclusive("the monitors do not build against the current tree (%s)" % " ".join(args))
    return env["CARGO_TARGET_DIR"]


def build_mon():
    d = cargo_build("target", ["--profile", "mon"])
    return os.path.join(d, "mon", "ozzmon")


def build_release():
    d = cargo_build("target", ["--release"])
    return os.path.join(d, "release", "ozzmon")


def build_o0():
    d = cargo_build("o0", ["--profile", "plain"])
    return os.path.join(d, "plain", "ozzmon")


def build_avx2():
    d = cargo_build("avx2", ["--release", "--target", HOST], rustflags="-Ctarget-cpu=x86-64-v3")
    return os.path.join(d, HOST, "release", "ozzmon")


def build_san(kind):
    d = cargo_build(kind, ["--profile", "mon", "--target", HOST, "--features", "sanitized"],
                    rustflags="-Zsanitizer=%s" % kind)
    return os.path.join(d, HOST, "mon", "ozzmon")


def build_wasm(simd=False):
    d = cargo_build("wasmsimd" if simd else "wasm", ["--release", "--target", "wasm32-unknown-unknown", "--lib"],
                    cwd=os.path.join(HERE, "wasm"), rustflags="-Ctarget-feature=+simd128" if simd else None)
    return os.path.join(d, "wasm32-unknown-unknown", "release", "ozzwasm.wasm")


# ---- The newest nightly: it has the sources of the standard library (so that all code can be instrumented) and the
# interpreter. Its portable SIMD renamed one method since the toolchain the repository is built with; the copy follows.

NIGHTLY = os.path.join(BUILD, "nightly")


def put_file(path, data):
    if os.path.exists(path) and open(path, "rb").read() == data:
        return
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)


def nightly_tree():
    want = set()
    for top, sub in ((REPO, "repo"), (HARNESS, "harness")):
        for base in ("src", "Cargo.toml", "Cargo.lock", "build.rs"):
            root = os.path.join(top, base)
            files = [root] if os.path.isfile(root) else [os.path.join(d, f) for d, _, fs in os.walk(root) for f in fs]
            for f in files:
                data = open(f, "rb").read()
                if sub == "repo" and f.endswith(".rs"):
                    data = data.replace(b".to_int()", b".to_simd()")
                if sub == "harness" and f.endswith("Cargo.toml"):
                    data = data.replace(b'path = "/repo"', b'path = "../repo"')
                dst = os.path.join(NIGHTLY, sub, os.path.relpath(f, top))
                want.add(dst)
                put_file(dst, data)
    for sub in ("repo", "harness"):
        for d, _, fs in os.walk(os.path.join(NIGHTLY, sub)):
            for f in fs:
                if os.path.join(d, f) not in want:
                    os.remove(os.path.join(d, f))
    return os.path.join(NIGHTLY, "harness")


class Unavailable(Exception):
    """A stage beyond the toolchain of the repository cannot be built for this tree; the others decide."""


NIGHTLY_ENV = {"RUSTUP_TOOLCHAIN": "nightly"}


MSAN_FLAGS = "-Zsanitizer-memory-track-origins"


def build_std_san(kind, flags=""):
    cwd = nightly_tree()
    try:
        d = cargo_build("std-" + kind, ["-Zbuild-std", "--profile", "mon", "--target", HOST, "--features", "sanitized"],
                        rustflags="-Zsanitizer=%s %s" % (kind, flags), cwd=cwd, env_extra=NIGHTLY_ENV)
    except Inconclusive as e:
        raise Unavailable(str(e))
    return os.path.join(d, HOST, "mon", "ozzmon")


MIRI_FLAGS = "-Zmiri-disable-isolation -Zmiri-permissive-provenance "


def miri_command(target=None, flags="", env_extra=None):
    env = dict(ENV)
    env.update(NIGHTLY_ENV)
    env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "miri")
    env["XDG_CACHE_HOME"] = os.path.join(BUILD, "miri-cache")
    env["RUSTFLAGS"] = "-Awarnings"
    env["MIRIFLAGS"] = MIRI_FLAGS + flags
    env.update(env_extra or {})
    cmd = ["cargo", "miri", "run", "--quiet", "--offline", "--locked", "--bin", "ozzmon"]
    return cmd + (["--target", target] if target else []) + ["--"], env


def build_miri(target=None):
    """Builds everything the interpreter runs (and the standard library it needs)."""
    cwd = nightly_tree()
    cmd, env = miri_command(target)
    try:
        r = subprocess.run(cmd + ["list"], cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
    except subprocess.TimeoutExpired:
        raise Unavailable("the interpreter (%s) was not built in time" % (target or "host"))
    if r.returncode != 0:
        raise Unavailable("the interpreter (%s) does not run this tree: %s" % (target or "host", r.stdout.decode(errors="replace")[-600:]))
    return cwd


def run_all(jobs, cwd, timeout):
    """Runs commands side by side. jobs: (command, environment, file for the output). Gives their exit codes (None: timeout)."""
    ps = []
    for cmd, env, log in jobs:
        f = open(log, "wb")
        ps.append(subprocess.Popen(cmd, cwd=cwd, env=env, stdout=f, stderr=subprocess.STDOUT, start_new_session=True))
        f.close()
    end = time.time() + timeout
    codes = []
    for p in ps:
        try:
            codes.append(p.wait(max(1, end - time.time())))
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
            codes.append(None)
    return codes


FATAL = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE}


def limits(mem_gb, cpu_s):
    def f():
        if mem_gb:
            resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
        if cpu_s:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu_s, cpu_s + 5))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


class Run:
    """One run of a build of the monitors over the groups of one property (or of one group)."""

    def __init__(self, prop, tier, scratch):
        self.prop, self.tier, self.scratch = prop, tier, scratch
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.n = 0
        self.stages = []
        self.violations = []
        self.notes = []

    def env(self, extra=None, only=False):
        """The environment of a run of the monitors (`only`: just the variables to add to another environment)."""
        e = {} if only else dict(os.environ)
        for k in list(e):
            if k.startswith("OZZMON_"):
                del e[k]
        e["VERIF_SEED"] = str(self.seed)
        e["VERIF_TIER"] = self.tier
        e["OZZMON_SCRATCH"] = self.scratch
        e["RUST_BACKTRACE"] = "0"
        e.update(extra or {})
        return e

    def replay_case(self, binary, prop, group, index, mem_gb=12, cpu_s=100, extra=None, wrap=()):
        log = os.path.join(self.scratch, "replay.log")
        with open(log, "wb") as f:
            try:
                r = subprocess.run(list(wrap) + [binary, "case", prop, group, str(index)], env=self.env(extra), stdout=f,
                                   stderr=subprocess.STDOUT, preexec_fn=limits(mem_gb, cpu_s), timeout=400)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = None
        return rc, open(log, errors="replace").read()[-8000:]

    def monitors(self, label, binary, prop=None, groups=None, mem_gb=12, divide=1, deadline=None, extra=None,
                 timeout=700, wrap=(), sanitizer=None, threads=None):
        """Runs the groups; collects violations, crashes and hangs. Returns the JSON the monitors wrote."""
        prop = prop or self.prop
        self.n += 1
        out = os.path.join(self.scratch, "out%d.json" % self.n)
        cur = os.path.join(self.scratch, "cur%d" % self.n)
        log = os.path.join(self.scratch, "log%d" % self.n)
        deadline = deadline or (260 if self.tier == "quick" else 3600)
        ex = {"OZZMON_OUT": out, "OZZMON_CURRENT": cur, "OZZMON_DEADLINE": str(deadline), "OZZMON_DIVIDE": str(divide)}
        if threads:
            ex["OZZMON_THREADS"] = str(threads)
        if groups:
            ex["OZZMON_GROUP"] = groups
        ex.update(extra or {})
        if self.tier != "quick":
            timeout = max(timeout, deadline + 1800)
        t = time.time()
        with open(log, "wb") as f:
            try:
                r = subprocess.run(list(wrap) + [binary, "run", prop], env=self.env(ex), stdout=f, stderr=subprocess.STDOUT,
                                   preexec_fn=limits(mem_gb, None), timeout=timeout)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                raise Inconclusive("stage %s did not finish in %d s" % (label, timeout))
        text = open(log, errors="replace").read()
        stage = {"stage": label, "wall_s": round(time.time() - t, 2)}
        self.stages.append(stage)
        if os.path.exists(out):
            d = json.load(open(out))
            stage.update({k: d[k] for k in ("evaluations", "distinct_nontrivial", "per_group", "events", "truncated")})
            stage["samples"], stage["rule"], stage["exhaustive_groups"] = d["samples"], d["rule"], d["exhaustive_groups"]
            for v in d["violations"]:
                v["stage"] = label
                self.violations.append(v)
            if d["errors"] and not d["violations"]:
                raise Inconclusive("harness error in stage %s: %s" % (label, d["errors"][0]))
            if sanitizer and rc not in (0, 1, 3):
                # Everything ran, and the sanitizer reported: it says what is wrong.
                self.violations.append({"property": prop, "group": "?", "index": -1, "seed": self.seed, "stage": label,
                                        "what": "%s: %s" % (sanitizer, first_report(text)), "detail": {"log": text[-6000:]}})
            elif rc not in (0, 1, 3):
                raise Inconclusive("stage %s ended with %s after writing its result" % (label, rc))
            return d
        # No result: the process died or hung.
        if rc == 97:
            p, g, i = open(cur + ".hang").read().split()
            cpu = 60
            for _ in range(2):
                rc2, txt = self.replay_case(binary, p, g, i, mem_gb=mem_gb, cpu_s=cpu, extra=extra, wrap=wrap)
                if rc2 not in (-signal.SIGXCPU, -signal.SIGKILL):
                    raise Inconclusive("case %s %s %s ran too long once, but not when replayed" % (p, g, i))
            self.violations.append({"property": p, "group": g, "index": int(i), "seed": self.seed, "stage": label,
                                    "thorough": self.tier == "thorough",
                                    "what": "the case does not terminate (over %d s of processor time)" % cpu, "detail": {}})
            return None
        cases = []
        for f in sorted(glob.glob(cur + ".*")):
            x = open(f).read().split()
            if len(x) == 3:
                cases.append(x)
        found = False
        for p, g, i in cases:
            rc1, t1 = self.replay_case(binary, p, g, i, mem_gb=mem_gb, extra=extra, wrap=wrap)
            bad1 = crashed(rc1, sanitizer)
            if not bad1:
                continue
            rc2, t2 = self.replay_case(binary, p, g, i, mem_gb=mem_gb, extra=extra, wrap=wrap)
            if crashed(rc2, sanitizer):
                found = True
                self.violations.append({"property": p, "group": g, "index": int(i), "seed": self.seed, "stage": label,
                                        "thorough": self.tier == "thorough",
                                        "what": "the process died (%s): %s" % (describe(rc2), first_report(t2)),
                                        "detail": {"log": t2[-4000:]}})
        if not found:
            if sanitizer and is_report(text):
                self.violations.append({"property": prop, "group": "?", "index": -1, "seed": self.seed, "stage": label,
                                        "what": "%s: %s" % (sanitizer, first_report(text)), "detail": {"log": text[-6000:]}})
                return None
            # A crash that no single case shows on its own: repeat the whole run.
            with open(log, "wb") as f:
                try:
                    os.path.exists(out) and os.remove(out)
                    r = subprocess.run(list(wrap) + [binary, "run", prop], env=self.env(ex), stdout=f, stderr=subprocess.STDOUT,
                                       preexec_fn=limits(mem_gb, None), timeout=timeout)
                    rc2 = r.returncode
                except subprocess.TimeoutExpired:
                    rc2 = None
            text2 = open(log, errors="replace").read()
            if rc2 is not None and rc2 < 0 and -rc2 in FATAL and rc < 0 and -rc in FATAL:
                self.violations.append({"property": prop, "group": "?", "index": -1, "seed": self.seed, "stage": label,
                                        "what": "the process died twice (%s): %s" % (describe(rc2), first_report(text2)),
                                        "detail": {"log": text2[-4000:]}})
                return None
            sys.stdout.write(text[-3000:] + "\n")
            raise Inconclusive("stage %s died (%s) and no replay of its cases did" % (label, describe(rc)))
        return None


def is_report(text):
    return any(s in text for s in ("ERROR: AddressSanitizer", "WARNING: ThreadSanitizer", "ERROR: LeakSanitizer",
                                   "WARNING: MemorySanitizer"))


def first_report(text):
    for line in text.splitlines():
        if is_report(line) or "memory allocation of" in line or "SUMMARY:" in line or "Undefined Behavior" in line:
            return line.strip()[:300]
    for line in text.splitlines():
        if line.strip():
            return line.strip()[:300]
    return "no output"


def crashed(rc, sanitizer):
    if rc is None:
        return False
    if rc < 0:
        return -rc in FATAL
    return bool(sanitizer) and rc in (66, 99)


def describe(rc):
    if rc is None:
        return "timeout"
    if rc < 0:
        try:
            return signal.Signals(-rc).name
        except ValueError:
            return "signal %d" % -rc
    return "exit code %d" % rc


# ---------------------------------------------------------------- stages

def stage_mon(run):
    # Three times the cases where this build alone decides.
    more = {} if run.prop in STAGES or run.tier != "quick" else {"OZZMON_MULTIPLY": "3"}
    run.monitors("debug-asserting build", build_mon(), extra=more)


def stage_release(run):
    """The build users run: no overflow checks and no debug assertions."""
    run.monitors("release build", build_release())


SAN_ENV = {
    "ASAN_OPTIONS": "exitcode=66:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1",
    "TSAN_OPTIONS": "exitcode=66:halt_on_error=1:history_size=4",
    "MSAN_OPTIONS": "exit_code=66",
}


def stage_everything(run):
    run.monitors("allocator monitor, every workload", build_mon(), prop="ALL", divide=8 if run.tier == "quick" else 1,
                 extra={"OZZMON_ONLY_CRASHES": "1"})


def stage_asan(run):
    run.monitors("AddressSanitizer, every workload", build_san("address"), prop="ALL", divide=10 if run.tier == "quick" else 2,
                 extra=dict(SAN_ENV, OZZMON_ONLY_CRASHES="1"), mem_gb=None, sanitizer="AddressSanitizer")


def stage_msan(run):
    run.monitors("MemorySanitizer, every workload", build_std_san("memory", MSAN_FLAGS), prop="ALL",
                 divide=12 if run.tier == "quick" else 2, extra=dict(SAN_ENV, OZZMON_ONLY_CRASHES="1"), mem_gb=None,
                 sanitizer="MemorySanitizer")


def stage_tsan(run):
    run.monitors("ThreadSanitizer", build_std_san("thread"), divide=1, extra=SAN_ENV, mem_gb=None, sanitizer="ThreadSanitizer")


def stage_miri(groups, procs, quick_s, flags):
    """The interpreter over small cases: `procs` processes, each with its own seed, for `quick_s` seconds."""
    def stage(run):
        cwd = build_miri()
        seconds = quick_s if run.tier == "quick" else 3000
        jobs, outs, t = [], [], time.time()
        for k in range(procs):
            out = os.path.join(run.scratch, "miri%d.json" % k)
            seed = run.seed * 1000 + k
            cmd, env = miri_command(flags=flags(k, seed), env_extra=run.env({
                "VERIF_SEED": str(seed), "OZZMON_OUT": out, "OZZMON_GROUP": groups[k % len(groups)], "OZZMON_THREADS": "1",
                "OZZMON_DEADLINE": str(seconds), "OZZMON_DIVIDE": "1" if run.tier != "quick" else "500"}, only=True))
            jobs.append((cmd + ["run", run.prop], env, os.path.join(run.scratch, "miri%d.log" % k)))
            outs.append((out, seed))
        codes = run_all(jobs, cwd, seconds + 260)
        stage = {"stage": "Miri", "wall_s": 0, "evaluations": 0, "distinct_nontrivial": 0, "per_group": {}, "events": {}}
        for (cmd, env, log), (out, seed), rc in zip(jobs, outs, codes):
            text = open(log, errors="replace").read()
            d = json.load(open(out)) if os.path.exists(out) else None
            what = None
            m = re.search(r"error: (Undefined Behavior: .*|the evaluated program deadlocked.*|abnormal termination: .*)", text)
            if m:
                what = "Miri: " + m.group(1)[:300]
            elif rc is None:
                run.notes.append("an interpreter process (seed %d) ran out of time" % seed)
            elif d is None:
                run.notes.append("an interpreter process (seed %d) gave no verdict: %s" % (seed, text[-300:]))
            if what:
                run.violations.append({"property": run.prop, "group": "miri", "index": -1, "seed": seed, "stage": "Miri",
                                       "what": what, "detail": {"log": text[:6000], "miriflags": env["MIRIFLAGS"]}})
            if d:
                for v in d["violations"]:
                    v["stage"] = "Miri"
                    run.violations.append(v)
                stage["evaluations"] += d["evaluations"]
                stage["distinct_nontrivial"] += d["distinct_nontrivial"]
                for key in ("per_group", "events"):
                    for n, c in d[key].items():
                        stage[key][n] = stage[key].get(n, 0) + c
        stage["wall_s"] = round(time.time() - t, 2)
        run.stages.append(stage)
    return stage


def flags_c24(k, seed):
    return "-Zmiri-tree-borrows" if k % 2 == 0 else "-Zmiri-disable-stacked-borrows -Zmiri-symbolic-alignment-check"


def flags_c23(k, seed):
    return "-Zmiri-disable-stacked-borrows -Zmiri-seed=%d -Zmiri-preemption-rate=%s" % (seed, ("0.01", "0.05", "0.2")[k % 3])


# ---- C25: the same programs on several builds.

def parse_digest(text):
    """{program: [(step, name, digest, raw)]}"""
    out = {}
    for line in text.splitlines():
        x = line.split("\t")
        if len(x) == 5 and x[0].isdigit():
            out.setdefault(int(x[0]), []).append((int(x[1]), x[2], x[3], x[4] == "1"))
    return out


def digest_native(run, binary, lo, hi, extra=None, tiny=False):
    ex = {"OZZMON_TINY": "1"} if tiny else {}
    ex.update(extra or {})
    r = subprocess.run([binary, "digest", str(lo), str(hi)], env=run.env(ex), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       preexec_fn=limits(12, None), timeout=600)
    if r.returncode != 0:
        raise Inconclusive("%s ended with %s" % (binary, describe(r.returncode)))
    return parse_digest(r.stdout.decode())


def digest_wasm(run, module, lo, hi):
    r = subprocess.run(["node", os.path.join(HERE, "wasm", "run.js"), module, str(run.seed), str(lo), str(hi)],
                       env=run.env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
    if r.returncode != 0:
        # The module trapped, natively the same programs ran: where it trapped shows in what is missing.
        run.notes.append("node: " + r.stderr.decode(errors="replace")[-300:])
        return None
    return parse_digest(r.stdout.decode())


def compare(run, label, ref, got, raw):
    """Compares two traces; reports the first steps that differ."""
    n, names, seen = 0, {}, set()
    bad = 0
    for p, steps in sorted(ref.items()):
        other = got.get(p)
        if other is None:
            raise Inconclusive("%s: no trace of program %d" % (label, p))
        if steps[0] != other[0]:
            if steps[0][1].startswith("failed") or other[0][1].startswith("failed"):
                what = "program %d: %s here, %s in the reference" % (p, other[0][1], steps[0][1])
                run.violations.append({"property": "C25", "group": "digest", "index": p, "seed": run.seed, "stage": label,
                                       "what": what, "detail": {}})
                bad += 1
                continue
            raise Inconclusive("%s: the inputs of program %d differ" % (label, p))
        for a, b in zip(steps, other):
            if a[3] and not raw:
                continue
            n += 1
            seen.add((a[1], a[2]))
            names[a[1]] = names.get(a[1], 0) + 1
            if a[:3] != b[:3]:
                bad += 1
                if bad <= 5:
                    run.violations.append({"property": "C25", "group": "digest", "index": p, "seed": run.seed, "stage": label,
                                           "what": "program %d, step %d (%s): the result differs from the reference build" % (p, a[0], a[1]),
                                           "detail": {"reference": a[2], "here": b[2], "replay": "ozzmon digest %d %d" % (p, p + 1)}})
                break
        else:
            if len(steps) != len(other):
                raise Inconclusive("%s: program %d has other steps" % (label, p))
    run.stages.append({"stage": label, "evaluations": n, "distinct_nontrivial": len(seen), "per_group": names,
                       "events": {"programs compared": len(ref)}})


def stage_digest(run):
    quick = run.tier == "quick"
    n = 1500 if quick else 60000
    mon = build_mon()
    ref = digest_native(run, mon, 0, n)
    run.stages.append({"stage": "reference (debug-asserting build)", "evaluations": 0, "distinct_nontrivial": 0,
                       "samples": [{"program": p, "steps": ["%s %s" % (s[1], s[2]) for s in ref[p][:6]]} for p in range(3)],
                       "rule": "programs of 20 to 60 steps on generated assets; the digest of each step's results is compared "
                               "with the reference build's; distinct by step and digest"})
    for k in range(3 if quick else 10):
        compare(run, "again, in another process (%s threads, other fill)" % (1, 7, 3)[k % 3], ref,
                digest_native(run, mon, 0, n, {"OZZMON_FILL": str((0, 255, 77)[k % 3]), "OZZMON_THREADS": str((1, 7, 3)[k % 3])}), True)
    for label, build, m in (("optimized build", build_release, n), ("AVX2 and FMA build", build_avx2, n),
                            ("unoptimized build", build_o0, n // 3)):
        compare(run, label, {p: s for p, s in ref.items() if p < m}, digest_native(run, build(), 0, m), False)
    for simd in (False, True):
        got = digest_wasm(run, build_wasm(simd), 0, n)
        label = "WebAssembly" + (" with SIMD" if simd else "")
        if got is None:
            # Find the program that traps; natively it did not.
            for p in range(0, n):
                if digest_wasm(run, build_wasm(simd), p, p + 1) is None:
                    run.violations.append({"property": "C25", "group": "digest", "index": p, "seed": run.seed, "stage": label,
                                           "what": "program %d dies there and not in the reference build" % p,
                                           "detail": {"node": run.notes[-1]}})
                    break
            return
        compare(run, label, ref, got, False)


def stage_digest_miri(run):
    """Other processors, interpreted: 32-bit x86 and 64-bit ARM; the interpreter also perturbs every operation whose result the
    platform may choose."""
    quick = run.tier == "quick"
    per, procs = (1, 3) if quick else (12, 4)
    targets = ["aarch64-unknown-linux-gnu", "i686-unknown-linux-gnu"]
    ref = digest_native(run, build_mon(), 0, per * procs, tiny=True)
    jobs, what = [], []
    for t in targets:
        cwd = build_miri(t)
        for k in range(procs):
            cmd, env = miri_command(t, "-Zmiri-tree-borrows -Zmiri-seed=%d" % (run.seed * 100 + k),
                                    run.env({"OZZMON_TINY": "1", "OZZMON_THREADS": "1"}, only=True))
            jobs.append((cmd + ["digest", str(k * per), str((k + 1) * per)], env, os.path.join(run.scratch, "d-%s-%d" % (t, k))))
            what.append((t, k))
    codes = run_all(jobs, cwd, 420 if quick else 6000)
    for (t, k), (cmd, env, log), rc in zip(what, jobs, codes):
        if rc != 0:
            run.notes.append("interpreter on %s, programs from %d: %s %s" % (t, k * per, describe(rc) if rc is not None else "out of time",
                                                                           open(log, errors="replace").read()[-300:]))
            continue
        got = parse_digest(open(log, errors="replace").read())
        compare(run, "Miri, " + t, {p: ref[p] for p in range(k * per, (k + 1) * per)}, got, False)


STAGES = {
    "C23": [stage_mon, stage_tsan, stage_miri(["shared,pipeline,contention"], 6, 60, flags_c23)],
    "C24": [stage_mon, stage_everything, stage_asan, stage_msan,
            stage_miri(["programs", "loading,contexts", "contexts,loading", "programs"], 7, 110, flags_c24)],
    "C25": [stage_digest, stage_digest_miri],
    "C28": [stage_mon, stage_release],
}


def known_findings(prop):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"KNOWN-FINDING: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def write_evidence(run, level, code):
    ev = distinct = 0
    samples, rules, exh = [], [], []
    for s in run.stages:
        ev += s.get("evaluations", 0)
        distinct = max(distinct, s.get("distinct_nontrivial", 0))
        samples += s.pop("samples", [])
        r = s.pop("rule", None)
        if r and r not in rules:
            rules.append(r)
        exh += s.pop("exhaustive_groups", [])
    cov = {
        "evaluations": ev,
        "distinct_nontrivial": distinct,
        "rule": "Cases are generated from VERIF_SEED; distinct by a hash of the generated case (the largest number over the stages), "
                "non-trivial unless the case says it observed nothing. " + " || ".join(rules),
        "samples": samples[:12],
        "stages": run.stages,
    }
    if exh:
        cov["exhaustively_enumerated_groups"] = sorted(set(exh))
    d = {
        "property": run.prop, "tier": run.tier, "seed": run.seed, "level": level, "coverage": cov,
        "assumptions": ["the oracles in /verif/harness and the Rust toolchain are right",
                        "nothing is claimed beyond the executions counted here"],
        "wall_s": round(time.time() - T0, 2), "violations": len(run.violations),
    }
    if run.notes:
        d["coverage"]["notes"] = run.notes
    os.makedirs(EVID, exist_ok=True)
    p = os.path.join(EVID, run.prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(d, f, indent=1, ensure_ascii=False)
    os.replace(p + ".tmp", p)


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "setup":
        build_mon()
        for f in SETUP:
            try:
                f()
            except (Inconclusive, Unavailable, subprocess.TimeoutExpired) as e:
                print("setup:", str(e)[:500])
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    for f in glob.glob(os.path.join(EVID, prop + "-*.replay.json")):
        os.remove(f)
    scratch = tempfile.mkdtemp(prefix="ozzmon-", dir=BUILD)
    run = Run(prop, tier, scratch)
    try:
        error = None
        for stage in STAGES.get(prop, [stage_mon]):
            try:
                stage(run)
            except Unavailable as e:
                run.notes.append("skipped: %s" % e)
                print("note: a stage is not available for this tree, the others decide: %s" % str(e)[:300])
            except Inconclusive as e:
                error = e
                break
            if run.violations:
                break
        known = known_findings(prop)
        reported, listed = [], {}
        for v in run.violations:
            key = "%s:%s" % (v.get("group"), hashlib.sha256(v["what"].encode()).hexdigest()[:12])
            k = (v.get("detail") or {}).get("finding") if isinstance(v.get("detail"), dict) else None
            hit = [d for kk, d in known if kk in (key, k)]
            if hit:
                listed[hit[0]] = listed.get(hit[0], 0) + 1
            else:
                reported.append(v)
        write_evidence(run, "exploration", 0)
        for what in listed:
            print("KNOWN-FINDING: property=%s %s" % (prop, what))
        if reported:
            for n, v in enumerate(reported[:10]):
                path = os.path.join(EVID, "%s-%d.replay.json" % (prop, n))
                json.dump(v, open(path, "w"), indent=1, ensure_ascii=False)
                print("VIOLATION property=%s replay=%s" % (prop, path))
                print("  %s / %s #%s: %s" % (v.get("stage"), v.get("group"), v.get("index"), v["what"]))
            return 1
        if error:
            print("INCONCLUSIVE property=%s %s" % (prop, error))
            return 2
        total = sum(s.get("evaluations", 0) for s in run.stages)
        if total == 0:
            print("INCONCLUSIVE property=%s nothing was observed" % prop)
            return 2
        print("property=%s held: %d executions in %d stages, %.1f s" % (prop, total, len(run.stages), time.time() - T0))
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


SETUP = [build_release, build_o0, build_avx2, lambda: build_san("address"), build_wasm, lambda: build_wasm(True),
         lambda: build_std_san("thread"), lambda: build_std_san("memory", MSAN_FLAGS), build_miri,
         lambda: build_miri("aarch64-unknown-linux-gnu"), lambda: build_miri("i686-unknown-linux-gnu")]

if __name__ == "__main__":
    try:
        code = main()
    except Inconclusive as e:
        print("INCONCLUSIVE %s" % e)
        code = 2
    sys.exit(code)
