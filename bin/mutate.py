#!/usr/bin/env python3
"""Development tool: measures the monitors against many small mutations of the library (never used by a check).

  mutate.py WORKERS COUNT SEED OUT.jsonl [FILE...]

Each worker has a copy of the repository and of the monitors under /tmp/m; a mutation that compiles and passes the
repository's tests is run under all monitors (property ALL); the survivors are for reading by hand."""
import json, os, random, re, shutil, subprocess, sys, threading, time

ROOT = "/tmp/m"
SRC = ["animation", "archive", "base", "blending_job", "endian", "ik_aim_job", "ik_two_bone_job", "local_to_model_job", "math",
       "motion_blending_job", "sampling_job", "skeleton", "skinning_job", "track", "track_sampling_job", "track_triggering_job"]


def sh(cmd, cwd, timeout, env=None):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(["bash", "-c", cmd], cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode(errors="replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return None, ""


def candidates(path):
    lines = open(path).read().split("\n")
    end = next((i for i, l in enumerate(lines) if l.strip().startswith("#[cfg(test)]") and i > 30 and "mod " in "".join(lines[i:i + 4])), len(lines))
    out = []
    for i in range(end):
        l = lines[i]
        s = l.strip()
        if not s or s.startswith(("//", "#", "use ", "pub use", "impl", "pub struct", "where", "pub type", "type ", "fn ", "pub fn", "mod ", "const fn", "pub const fn")) or "assert" in s:
            continue
        if "'t" in s or s.startswith(("pub trait", "trait", "unsafe fn", "pub unsafe fn", "}")) and len(s) < 3:
            continue

        def rep(a, b, new):
            out.append((i, l[:a] + new + l[b:]))
        for m in re.finditer(r"(?<![<>=!\-+*/&|])(<=|>=|==|!=|<|>)(?![<>=])", l):
            if not (l[m.start() - 1:m.start()] == " " and l[m.end():m.end() + 1] == " "):
                continue
            for n in {"<": ["<=", ">"], "<=": ["<", ">="], ">": [">=", "<"], ">=": [">", "<="], "==": ["!="], "!=": ["=="]}[m.group()]:
                rep(m.start(), m.end(), n)
        for m in re.finditer(r" ([+\-*/%]|\|\||&&|<<|>>|&|\||\^) ", l):
            for n in {"+": ["-"], "-": ["+"], "*": ["/", "+"], "/": ["*"], "%": ["/"], "||": ["&&"], "&&": ["||"], "<<": [">>"], ">>": ["<<"], "&": ["|"], "|": ["&"], "^": ["|"]}[m.group(1)]:
                rep(m.start(1), m.end(1), n)
        for m in re.finditer(r" ([+\-*/|&])= ", l):
            rep(m.start(1), m.end(1), {"+": "-", "-": "+", "*": "/", "/": "*", "|": "&", "&": "|"}[m.group(1)])
        for m in re.finditer(r"(?<![\w.])(\d+)(?=\D|$)(?!\.\d|f32|x4)", l):
            v = int(m.group(1))
            for n in {v + 1, max(v - 1, 0), 0} - {v}:
                rep(m.start(1), m.end(1), str(n))
        for m in re.finditer(r"(?<![\w.])(\d+\.\d+)", l):
            v = float(m.group(1))
            rep(m.start(1), m.end(1), "1.0" if v == 0 else "0.0")
            if v:
                rep(m.start(1), m.end(1), repr(v * 1.01))
        for a, b in ((".min(", ".max("), (".max(", ".min("), ("true", "false"), ("false", "true"), (".x", ".y"), (".y", ".z"), (".z", ".x"), (".w", ".x"),
                     ("MIN", "MAX"), ("simd_lt", "simd_le"), ("simd_gt", "simd_ge"), ("simd_ge", "simd_gt"), ("simd_le", "simd_lt"), ("simd_ne", "simd_eq"),
                     ("simd_eq", "simd_ne"), ("translation", "scale"), ("rotation", "scale"), ("start", "mid"), ("mid", "end"), ("previous", "next"),
                     ("read()", "write()"), (".neg()", ""), ("0..", "1.."), ("..=", ".."), (" -", " "), ("!", ""), ("left", "right"), ("right", "left"), ("forward", "up"), ("normals", "tangents"),
                     ("positions", "normals"), ("&a", "&b"), ("sin", "cos"), ("joint", "1 + joint"), ("idx", "idx + 1"), (".abs()", ""), ("?;", ".ok();"), ("Some(", "None.or(")):
            for m in re.finditer(re.escape(a), l):
                if a[-1].isalnum() and l[m.end():m.end() + 1].isalnum() and a[0] == ".":
                    continue
                if a == "!" and (l[m.end():m.end() + 1] in "=[" or l[m.start() - 1:m.start()].isalnum()):
                    continue
                rep(m.start(), m.end(), b)
        if s.endswith(";") and not s.startswith(("let ", "return", "pub ", "const ", "static ", "}", ")", "break")) and s.count("(") == s.count(")"):
            out.append((i, l[:len(l) - len(l.lstrip())] + "// removed"))
        m = re.match(r"(\s*(?:\} else )?if )(?!let )(.*)( \{)$", l)
        if m:
            out.append((i, m.group(1) + "!(" + m.group(2) + ")" + m.group(3)))
            out.append((i, m.group(1) + "true || " + m.group(2) + m.group(3)))
            out.append((i, m.group(1) + "false && (" + m.group(2) + ")" + m.group(3)))
    return lines, [(i, n) for i, n in out if n != lines[i]]


def main():
    workers, count, seed, outp = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    files = sys.argv[5:] or SRC
    rnd = random.Random(seed)
    jobs = []
    per_line = {}
    for f in files:
        lines, cs = candidates("/repo/src/%s.rs" % f)
        for i, n in cs:
            per_line.setdefault((f, i), []).append(n)
    keys = sorted(per_line)
    rnd.shuffle(keys)
    done = set()
    if os.path.exists(outp):
        for l in open(outp):
            d = json.loads(l)
            done.add((d["file"], d["line"], d["new"]))
    rounds = 0
    while len(jobs) < count and rounds < 40:
        for k in keys:
            c = [n for n in per_line[k] if (k[0], k[1], n) not in done]
            if c:
                n = rnd.choice(c)
                done.add((k[0], k[1], n))
                jobs.append((k[0], k[1], n))
        rounds += 1
    jobs = jobs[:count]
    lock = threading.Lock()
    q = list(reversed(jobs))
    print(len(keys), "lines", len(jobs), "mutations", flush=True)

    def work(w):
        d = "%s/w%d" % (ROOT, w)
        repo, mon = d + "/repo", d + "/v"
        os.makedirs(d, exist_ok=True)
        if not os.path.exists(repo):
            shutil.copytree("/repo", repo, symlinks=True, ignore=shutil.ignore_patterns("target", ".git"))
        shutil.rmtree(mon, ignore_errors=True)
        shutil.copytree("/verif/harness", mon + "/harness", ignore=shutil.ignore_patterns("target"))
        sh("grep -rl '\"/repo' %s | xargs sed -i 's#\"/repo#\"%s#g'" % (mon, repo), d, 30)
        env = "source /opt/vp/env.sh; export CARGO_INCREMENTAL=0; "
        T = "export CARGO_TARGET_DIR=%s/target; " % d
        while True:
            with lock:
                if not q:
                    return
                f, i, n = q.pop()
            src = "/repo/src/%s.rs" % f
            text = open(src).read().split("\n")
            old = text[i]
            text[i] = n
            dst = "%s/src/%s.rs" % (repo, f)
            open(dst, "w").write("\n".join(text))
            rec = {"file": f, "line": i, "old": old.strip(), "new": n, "by": None}
            t0 = time.time()
            try:
                rc, o = sh(env + T + "cargo test --lib --no-run --offline --quiet 2>&1", repo, 300)
                if rc != 0:
                    rec["by"] = "compiler"
                    continue
                rc, o = sh(env + T + "cargo test --lib --offline --quiet -- --test-threads 4 2>&1", repo, 60)
                if rc != 0:
                    rec["by"] = "tests"
                    continue
                M = "export CARGO_TARGET_DIR=%s/mtarget; " % d
                rc, o = sh(env + M + "cargo build --offline --profile mon --quiet 2>&1", mon + "/harness", 500)
                if rc != 0:
                    rec["by"] = "harness build"
                    rec["log"] = o[-500:]
                    continue
                out = d + "/out.json"
                if os.path.exists(out):
                    os.remove(out)
                rc, o = sh("ulimit -v 8000000; VERIF_SEED=1 OZZMON_THREADS=2 OZZMON_DIVIDE=%s OZZMON_DEADLINE=240 OZZMON_OUT=%s OZZMON_CURRENT=%s/cur OZZMON_SCRATCH=%s %s/mtarget/mon/ozzmon run ALL" % (os.environ.get("MUT_DIVIDE", "4"), out, d, d, d), d, 500)
                rec["rc"] = rc
                if os.path.exists(out):
                    j = json.load(open(out))
                    rec["props"] = sorted({v["property"] for v in j["violations"]})
                    rec["what"] = [v["property"] + " " + v["group"] + ": " + v["what"][:120] for v in j["violations"][:3]]
                    rec["errors"] = j["errors"][:1]
                    rec["by"] = "monitors" if j["violations"] else ("harness error" if j["errors"] else "SURVIVED")
                else:
                    rec["by"] = "crash or hang"
            finally:
                rec["s"] = round(time.time() - t0, 1)
                open(dst, "w").write(open(src).read())
                with lock:
                    open(outp, "a").write(json.dumps(rec) + "\n")

    ts = [threading.Thread(target=work, args=(w,)) for w in range(workers)]
    [t.start() for t in ts]
    [t.join() for t in ts]


main()
