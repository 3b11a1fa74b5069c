#!/usr/bin/env python3
"""Driver of the solver-based checks.  usage: check.py PROPERTY [--tier quick|thorough] [--only H]

Rebuilds everything from /repo's working tree (LLVM IR of the harness crate with the real library
linked in, native replay binaries), runs the symbolic executor on every job of the property's plan
(plan.py), replays every counterexample and a sample of the explored paths natively, writes
evidence/<ID>.json.  Exit 0: held on everything explored; 1 + VIOLATION line; anything else: error.
"""
import fcntl, glob, hashlib, json, os, re, resource, shutil, subprocess, sys, threading, time

V = os.path.dirname(os.path.abspath(__file__))
B = os.path.join(V, ".build")
REPO = "/repo"
T0 = time.time()
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="",
           CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0")
ENV["PATH"] = "/root/.cargo/bin:" + ENV.get("PATH", "/usr/bin:/bin")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS", "RUST_BACKTRACE"):
    ENV.pop(k, None)
CORES = int(os.environ.get("VERIF_CORES") or max(1, min(8, os.cpu_count() or 8)))

# build variants: cargo features of the harness crate, target-cpu
VARIANTS = {
    "base": ([], "x86-64"),
    "u16": (["u16"], "x86-64"),
    "simd": (["simd"], "x86-64-v4"),
    "serde": (["serde"], "x86-64"),
}


def runnable(var):
    """can this machine run the variant's native code?"""
    if var != "simd":
        return True
    try:
        f = open("/proc/cpuinfo").read().split()
        return all(x in f for x in ("avx2", "avx512f", "avx512bw", "avx512vl", "bmi2"))
    except OSError:
        return False


def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, flush=True)


def die(msg, code=2):
    print("ERROR " + msg, flush=True)
    os._exit(code)


def tree_hash():
    h = hashlib.sha256()
    for root in (REPO + "/src", V + "/harness/src"):
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
    for p in (REPO + "/Cargo.toml", V + "/harness/Cargo.toml"):
        h.update(open(p, "rb").read())
    return h.hexdigest()


def run(cmd, cwd, env, what):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout[-4000:])
        die("build failed: " + what)


def stamp_ok(d, h):
    """cargo trusts mtimes; drop the fingerprints of our crates when the sources differ by content"""
    s = os.path.join(d, "stamp")
    old = open(s).read() if os.path.exists(s) else ""
    if old != h:
        if os.path.exists(s):
            os.remove(s)
        for p in glob.glob(d + "/*/.fingerprint/vers-vecs-*") + glob.glob(d + "/*/.fingerprint/vharness-*"):
            shutil.rmtree(p, ignore_errors=True)
    return old == h


def build_engine():
    run(["cargo", "build", "--offline", "--release", "-q"], V + "/engine", ENV, "engine")
    return V + "/engine/target/release/vse"


def build_ir(var, h):
    feats, cpu = VARIANTS[var]
    d = "%s/ir-%s" % (B, var)
    os.makedirs(d, exist_ok=True)
    out = d + "/out.ll"
    if stamp_ok(d, h) and os.path.exists(out):
        return out
    for f in glob.glob(d + "/release/deps/vharness*.ll"):
        os.remove(f)
    env = dict(ENV, CARGO_TARGET_DIR=d, RUSTFLAGS="-C target-cpu=" + cpu)
    cmd = ["cargo", "rustc", "--offline", "--release", "--bin", "vharness", "-q"]
    if feats:
        cmd += ["--features", ",".join(feats)]
    cmd += ["--", "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp", "-C", "linker=/bin/true"]
    run(cmd, V + "/harness", env, "LLVM IR (%s)" % var)
    f = glob.glob(d + "/release/deps/vharness*.ll")
    if len(f) != 1:
        die("no LLVM IR produced")
    os.replace(f[0], out)
    open(d + "/stamp", "w").write(h)
    return out


def build_native(var, prof, h):
    """prof: dev (debug assertions, overflow checks), rep (plain release), asan (nightly, AddressSanitizer)"""
    feats, cpu = VARIANTS[var]
    d = "%s/native-%s-%s" % (B, var, prof)
    os.makedirs(d, exist_ok=True)
    sub = {"dev": "debug", "rep": "rep", "asan": "x86_64-unknown-linux-gnu/debug"}[prof]
    out = "%s/%s/vharness" % (d, sub)
    if stamp_ok(d, h) and os.path.exists(out):
        return out
    flags = "-C target-cpu=" + cpu
    env = dict(ENV, CARGO_TARGET_DIR=d)
    cmd = ["cargo", "build", "--offline", "-q", "--features", ",".join(["native"] + feats)]
    if prof == "rep":
        cmd += ["--profile", "rep"]
    if prof == "asan":
        env["RUSTUP_TOOLCHAIN"] = "nightly"
        flags += " -Zsanitizer=address"
        cmd += ["--target", "x86_64-unknown-linux-gnu"]
    env["RUSTFLAGS"] = flags
    run(cmd, V + "/harness", env, "native replay (%s %s)" % (var, prof))
    open(d + "/stamp", "w").write(h)
    return out


def replay(binary, entry, inputs, params, timeout=20):
    """-> (status, text): ok / fail / assume / hang / mem / noentry"""
    try:
        r = subprocess.run([binary, entry, ",".join(map(str, inputs)), ",".join(map(str, params))],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout,
                           env=dict(ENV, ASAN_OPTIONS="detect_leaks=0"), errors="replace",
                           preexec_fn=None)
    except subprocess.TimeoutExpired:
        return "hang", "no result within %d s" % timeout
    last = [l for l in r.stdout.splitlines() if l.startswith("REPLAY")][-1:]
    text = last[0] if last else r.stdout[-300:]
    if r.returncode == 0:
        return "ok", text
    if r.returncode in (10, 11, 12):
        return "fail", text
    if r.returncode == 20:
        return "assume", text
    if r.returncode == 21:
        return "noentry", text
    if "AddressSanitizer" in r.stdout or r.returncode < 0:
        m = re.search(r"AddressSanitizer: [^\n]*", r.stdout)
        return "mem", m.group(0) if m else "signal %d" % -r.returncode
    return "fail", "exit status %d: %s" % (r.returncode, text)


def limits():
    g = 6 << 30
    resource.setrlimit(resource.RLIMIT_AS, (g, g))
    os.setpgrp()


class Runner:
    def __init__(self, prop, tier, only=None):
        sys.path.insert(0, V)
        import plan
        self.prop, self.tier, self.h = prop, tier, tree_hash()
        self.plan = plan.PLAN[prop]
        self.jobs = []
        for j in self.plan["jobs"]:
            if only and j["h"] not in only:
                continue
            if tier == "quick" and j.get("tier") == "thorough":
                continue
            if tier == "thorough" and j.get("tier") == "quick":
                continue
            k = j.get("shards", 1)
            for i in range(k):
                self.jobs.append(dict(j, i=i, n=k))
        self.budget = self.plan.get("budget", {}).get(tier, 480 if tier == "quick" else 6 * 3600)
        self.lock = threading.Lock()
        self.results, self.procs, self.stop = [], set(), False
        self.confirmed, self.unconfirmed, self.mismatch = [], [], []
        self.replayed = 0
        self.sample_list = []

    def confirm(self, job, v):
        """replay a counterexample natively; returns (profile, text) or None"""
        inputs, params = v["inputs"], job.get("p", [])
        var = job.get("var", "base")
        if not runnable(var):
            return None
        tries = ["dev", "rep"]
        if "memory" in v["what"] or "out of bounds" in v["what"] or "undefined" in v["what"]:
            tries.append("asan")
        for prof in tries:
            b = self.native(var, prof)
            st, text = replay(b, job["h"], inputs, params)
            if st == "hang" and "termination" not in v["what"]:
                st, text = replay(b, job["h"], inputs, params, 60)
            if st in ("fail", "mem", "hang"):
                return prof, text, b
        return None

    def native(self, var, prof):
        with self.nlock:
            if (var, prof) not in self.nat:
                self.nat[var, prof] = build_native(var, prof, self.h)
            return self.nat[var, prof]

    def one(self, job):
        left = self.deadline - time.time()
        rec = dict(h=job["h"], p=job.get("p", []), shard="%d/%d" % (job["i"], job["n"]), var=job.get("var", "base"))
        if self.stop or left < 3:
            rec["status"] = "stopped" if self.stop else "not-run"
            with self.lock:
                self.results.append((job, rec))
            return
        t = min(job.get("t", 300) if self.tier == "quick" else job.get("tt", 4 * 3600), left)
        out = "%s/out/%s-%s-%s-%d.json" % (B, self.prop, job["h"], "_".join(map(str, job.get("p", []))), job["i"])
        if os.path.exists(out):
            os.remove(out)
        cmd = [self.vse, "--ir", self.ir[rec["var"]], "--entry", job["h"], "--out", out, "--time", "%.0f" % t,
               "--shard", rec["shard"], "--samples", str(job.get("samples", 3)), "--src", REPO + "/src"]
        if job.get("p"):
            cmd += ["--param", ",".join(map(str, job["p"]))]
        if job.get("steps"):
            cmd += ["--steps", str(job["steps"])]
        p = subprocess.Popen(cmd, env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, preexec_fn=limits)
        with self.lock:
            self.procs.add(p)
        try:
            p.wait(t + 60)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        with self.lock:
            self.procs.discard(p)
        if self.stop:
            return
        try:
            rec.update(json.load(open(out)))
        except Exception:
            rec["status"] = "killed" if p.returncode < 0 or p.returncode in (-9, 137, 101, 134) else "crashed"
            rec["rc"] = p.returncode
        for v in rec.get("violations", []):
            c = self.confirm(job, v)
            with self.lock:
                if c:
                    self.confirmed.append((job, v, c))
                    self.stop = True
                    for q in self.procs:
                        q.kill()
                else:
                    self.unconfirmed.append((job, v))
            if c:
                break
        if not self.stop and runnable(rec["var"]):
            for s in rec.get("samples", []):
                for prof in ("dev", "rep"):
                    b = self.native(rec["var"], prof)
                    st, text = replay(b, job["h"], s, job.get("p", []), 60)
                    with self.lock:
                        self.replayed += 1
                        if st == "fail" or st == "mem":
                            self.mismatch.append((job, s, (prof, text, b)))
                        elif st != "ok":
                            self.unconfirmed.append((job, dict(what="sample replay: " + st, inputs=s, at=text)))
                with self.lock:
                    if len(self.sample_list) < 12:
                        self.sample_list.append(dict(harness=job["h"], params=job.get("p", []), inputs=s[:40]))
        with self.lock:
            self.results.append((job, rec))
        if rec["status"] not in ("holds",):
            log(job["h"], rec["p"], rec["shard"], rec["status"], rec.get("error", ""), "%.0fs" % rec.get("wall_s", 0))

    def main(self):
        os.makedirs(B + "/out", exist_ok=True)
        os.makedirs(V + "/evidence", exist_ok=True)
        lockf = open(B + "/lock", "w")
        fcntl.flock(lockf, fcntl.LOCK_EX)
        self.nat, self.nlock = {}, threading.Lock()
        vs = sorted({j.get("var", "base") for j in self.jobs})
        # native replay binaries are built while the executor already runs
        self.ir = {}
        th = [threading.Thread(target=lambda v=v: self.ir.__setitem__(v, build_ir(v, self.h))) for v in vs]
        for t in th:
            t.start()
        self.vse = build_engine()
        for t in th:
            t.join()
        if len(self.ir) != len(vs):
            die("IR build")

        def nat():
            for v in vs:
                for p in ("dev", "rep"):
                    self.native(v, p)
        bt = threading.Thread(target=nat)
        bt.start()
        log("built", self.vse, vs)
        self.deadline = time.time() + self.budget
        queue = list(self.jobs)

        def worker():
            while True:
                with self.lock:
                    if not queue:
                        return
                    j = queue.pop(0)
                try:
                    self.one(j)
                except Exception as e:
                    with self.lock:
                        self.results.append((j, dict(h=j["h"], p=j.get("p", []), status="crashed", error=repr(e))))
        ws = [threading.Thread(target=worker) for _ in range(CORES)]
        for w in ws:
            w.start()
        for w in ws:
            w.join()
        bt.join()
        lockf.close()
        return self.report()

    def report(self):
        R = [r for _, r in self.results]
        S = lambda k: sum(r.get(k, 0) for r in R)
        violations = self.confirmed + [(j, dict(what="native run of an explored path fails", inputs=s, at=""), c)
                                       for j, s, c in self.mismatch]
        funcs = sorted({f for r in R for f in r.get("functions", [])})
        lines = {}
        for r in R:
            for f, l in r.get("lines", {}).items():
                lines.setdefault(os.path.relpath(f, REPO), set()).update(l)
        per = {}
        for j, r in self.results:
            k = j["h"] + ("[%s]" % ",".join(map(str, j.get("p", []))) if j.get("p") else "") + \
                ("" if r.get("var", "base") == "base" else "@" + r["var"])
            d = per.setdefault(k, dict(bounds=j.get("b", ""), shards=0, complete=0, statuses={}, paths=0, assertions=0,
                                       queries=0, solver_s=0.0, wall_s=0.0, covers={}))
            d["shards"] += 1
            d["statuses"][r["status"]] = d["statuses"].get(r["status"], 0) + 1
            d["complete"] += r["status"] == "holds"
            for a, b in (("paths", "paths"), ("assertions", "checks"), ("queries", "queries")):
                d[a] += r.get(b, 0)
            d["solver_s"] = round(d["solver_s"] + r.get("solver_s", 0), 2)
            d["wall_s"] = round(d["wall_s"] + r.get("wall_s", 0), 2)
            for c, n in r.get("covers", {}).items():
                d["covers"][c] = d["covers"].get(c, 0) + n
        vac = [k for k, d in per.items() if d["complete"] == d["shards"] and not d["covers"]]
        incomplete = {k: d["statuses"] for k, d in per.items() if d["complete"] != d["shards"]}
        undecided = ["%s%s %s inputs=%s" % (j["h"], j.get("p", []), v["what"], ",".join(map(str, v["inputs"][:40]))) for j, v in self.unconfirmed[:20]]
        ev = dict(property=self.prop, tier=self.tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1),
                  level="model_checking",
                  coverage=dict(states=S("paths"), transitions=S("instructions"),
                                traces_validated_against_impl=self.replayed,
                                samples=self.sample_list or ["none"],
                                exhaustive=not incomplete and not undecided and not violations,
                                exhaustive_note="every path of every job within the stated bounds was explored and every "
                                                "assertion on it decided by the solver" if not incomplete else
                                                "jobs listed under incomplete were cut by their time budget or left undecided",
                                method="path-wise symbolic execution of the LLVM IR rustc emits for the harness crate "
                                       "with the working tree's vers-vecs linked in (fat LTO); branch feasibility and "
                                       "assertions decided by z3 over bit-vectors",
                                states_meaning="symbolic paths completed", transitions_meaning="IR instructions interpreted symbolically",
                                feasible_forks=S("forks"), assertions_checked=S("checks"),
                                solver_queries=S("queries"), solver_sat=S("sat"), solver_unsat=S("unsat"),
                                solver_unknown=S("unknown"), solver_seconds=round(S("solver_s"), 2),
                                infeasible_or_assumed_away_paths=S("paths_killed"),
                                paths_ending_in_documented_panic=S("paths_panic_ok"),
                                solver=next((r["solver"] for r in R if r.get("solver")), ""),
                                jobs=per, incomplete=incomplete, undecided=undecided,
                                functions_encoded=funcs, source_lines_encoded={k: len(v) for k, v in sorted(lines.items())}),
                  assumptions=self.plan.get("assumptions", []) + [
                      "claims hold within the bounds listed per job; larger structures are outside them",
                      "rustc/LLVM lowering at opt-level 2 with overflow checks on (simd code only in jobs marked @simd)",
                      "allocation never fails; the heap is modelled object by object"],
                  wall_s=round(time.time() - T0, 2), violations=len(violations))
        json.dump(ev, open("%s/evidence/%s.json" % (V, self.prop), "w"), indent=1)
        log("paths %d, assertions %d, queries %d (unsat %d, sat %d, unknown %d), solver %.1f s, samples replayed %d" % (
            S("paths"), S("checks"), S("queries"), S("unsat"), S("sat"), S("unknown"), S("solver_s"), self.replayed))
        for k, d in per.items():
            log("  %-28s %s paths=%d assertions=%d wall=%.1f covers=%s" % (k, d["statuses"], d["paths"], d["assertions"], d["wall_s"], d["covers"]))
        if violations:
            os.makedirs(V + "/replays", exist_ok=True)
            j, v, (prof, text, binary) = violations[0]
            f = "%s/replays/%s.sh" % (V, self.prop)
            open(f, "w").write("#!/bin/sh\n# property %s, harness %s: %s\n# %s\n# native (%s): %s\n"
                               "exec %s %s '%s' '%s'\n" % (
                                   self.prop, j["h"], v["what"], v["at"], prof, text.replace("\n", " "), binary, j["h"],
                                   ",".join(v["inputs"]), ",".join(map(str, j.get("p", [])))))
            os.chmod(f, 0o755)
            print("counterexample: harness %s %s: %s; native replay (%s): %s" % (j["h"], j.get("p", []), v["what"], prof, text))
            print("VIOLATION property=%s replay=%s" % (self.prop, f), flush=True)
            return 1
        for j, v in self.unconfirmed[:5]:
            print("UNCONFIRMED %s %s: %s at %s inputs=%s" % (j["h"], j.get("p", []), v["what"], v["at"], ",".join(v["inputs"])))
        if self.unconfirmed:
            print("UNDECIDED: %d counterexample(s) above do not reproduce on the real code; these paths count as not explored" % len(self.unconfirmed))
        if vac:
            print("VACUOUS " + " ".join(vac))
            return 5
        bad = {k: s for k, s in incomplete.items() if set(s) & {"crashed", "error"}}
        if bad:
            print("ENGINE-ERROR", bad)
            if not any(d["complete"] for d in per.values()):
                return 6
        if incomplete:
            log("not decided completely within the budget:", incomplete)
        return 0


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[:1] == ["--build"]:
        os.makedirs(B, exist_ok=True)
        h = tree_hash()
        build_engine()
        for v in (a[1:] or ["base"]):
            print(build_ir(v, h))
            for p in ("dev", "rep"):
                build_native(v, p, h)
        sys.exit(0)
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    only = a[a.index("--only") + 1].split(",") if "--only" in a else None
    rc = Runner(a[0], tier, only).main()
    sys.stdout.flush()
    os._exit(rc)
