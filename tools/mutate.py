#!/usr/bin/env python3
"""Development tool: a mutation campaign. mutate.py gen FILE.json [SEED] [PER_FILE] writes mutants; mutate.py run FILE.json OUT.jsonl i/n
runs every n-th mutant in a private mount namespace with copies of /repo and /verif (so neither is touched):
the stable tests first, the checks of the properties that concern the file if they pass. No check uses it."""
import json, os, random, re, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [
    ("src/bit_vec/mask.rs", "C04 C22"),
    ("src/bit_vec/mod.rs", "C01 C03 C02 C04 C05 C22 C06"),
    ("src/bit_vec/sparse.rs", "C12 C22"),
    ("src/bit_vec/fast_rs_vec/bitset.rs", "C23"),
    ("src/bit_vec/fast_rs_vec/iter.rs", "C09 C08"),
    ("src/bit_vec/fast_rs_vec/select.rs", "C07 C09 C23"),
    ("src/bit_vec/fast_rs_vec/mod.rs", "C06 C08 C07 C09 C22"),
    ("src/elias_fano/mod.rs", "C10 C11 C12 C22"),
    ("src/util/elias_fano_iter.rs", "C10"),
    ("src/util/general_iter.rs", "C05 C15"),
    ("src/util/pdep.rs", "C07 C09"),
    ("src/rmq/binary_rmq/mod.rs", "C13"),
    ("src/rmq/fast_rmq/mod.rs", "C14"),
    ("src/wavelet/mod.rs", "C15 C16 C17 C05 C22"),
    ("src/trees/mmt.rs", "C18 C19 C20"),
    ("src/trees/bp/builder.rs", "C20"),
    ("src/trees/bp/lookup.rs", "C18 C20"),
    ("src/trees/bp/lookup_query.rs", "C18 C20"),
    ("src/trees/bp/mod.rs", "C18 C19 C20 C22"),
]
OPS = [
    (r"(?<![<=>!-])<(?![<=>&'])(?= )", ["<=", ">"]), (r"(?<= )>(?![=>])", [">=", "<"]), (r"<=", ["<"]), (r">=(?!=)", [">"]),
    (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|(?= )", ["&&"]),
    (r" \+ 1\b", ["", " - 1", " + 2"]), (r" - 1\b", ["", " + 1"]), (r"(?<= )\+(?= )", ["-"]), (r"(?<= )-(?= )", ["+"]),
    (r"(?<= )%(?= )", ["/"]), (r"(?<= )/(?= )", ["%"]), (r"(?<= )<<(?= )", [">>"]), (r"(?<= )>>(?= )", ["<<"]),
    (r"(?<= )&(?= )", ["|"]), (r"(?<= )\|(?= )", ["&", "^"]), (r"(?<= )\^(?= )", ["|"]),
    (r"\+= 1\b", ["+= 2", "+= 0"]), (r"-= 1\b", ["-= 0"]), (r"\+=", ["-=", "="]), (r"-=", ["+="]), (r"\|=", ["=", "^="]), (r"&=", ["="]),
    (r"\bWORD_SIZE\b", ["(WORD_SIZE - 1)"]), (r"\b64\b", ["63", "32"]), (r"\bmin\b\(", ["max("]), (r"\bmax\b\(", ["min("]),
    (r"\bsaturating_sub\b", ["wrapping_sub"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\b0\b", ["1"]), (r"\b1\b", ["0", "2"]),
    (r"\bdiv_ceil\((\w+)\)", [r"div_euclid(\1)"]), (r"\bis_none\b", ["is_some"]), (r"\bleading_zeros\b", ["leading_ones"]),
    (r"\bselect0\b", ["select1"]), (r"\brank0\b", ["rank1"]), (r"\brank1\b", ["rank0"]), (r"!(?=[a-z(])", [""]),
    (r"\.(len)\(\)", [".len() - 1", ".len() + 1"]), (r"\bSome\((\w+)\)", ["None"]),
]
if os.environ.get("MUT_OPS") == "narrow":
    # values cut to fewer bits: only large instances show it
    OPS = [(r" as usize\b", [" as u16 as usize", " as u8 as usize"]), (r" as u64\b", [" as u32 as u64", " as u16 as u64"]), (r" as i64\b", [" as i16 as i64"]),
           (r"\bself\.len\(\)(?! as)", ["(self.len() as u16 as usize)"]), (r"\brank \+= (?=[a-z])", ["rank = (rank & 0xffff) + "]),
           (r"(\b[a-z_]+) >= self\.len\(\)", [r"\1.wrapping_add(1) > self.len()"]), (r"(\b[a-z_]+) >= self\.len\b(?!\()", [r"\1.wrapping_add(1) > self.len"]),
           (r"(\b[a-z_]+(?:\.[a-z_]+)*) \+= 1\b", [r"\1 = (\1 + 1) & 0x3fff"]), (r" - 1\b", [".saturating_sub(1)"]),
           (r"\.rank([01])\(([a-z_.]+)\)", [r".rank\1(\2 & 0xffff)"]), (r"\.select([01])\(([a-z_.]+)\)", [r".select\1(\2 & 0xffff)"])]
def gen(out, seed=1, per=14):
    rnd = random.Random(seed)
    muts = []
    for f, _ in MAP:
        lines = open("/repo/" + f).read().split("\n")
        cand, depth = [], 0
        for n, l in enumerate(lines):
            s = l.strip()
            if s.startswith("#[cfg(test)]") or s.startswith("mod tests"):
                if n > len(lines) // 2:
                    break
            if not s or s.startswith(("//", "#", "use ", "pub use", "mod ", "pub mod", "debug_assert", "assert!", "\"", "const ", "pub const", "impl", "pub fn", "fn ", "struct", "pub struct", "where", "type ")):
                continue
            if "heap_size" in s or "debug_assert" in s or "capacity" in s:
                continue
            for pat, reps in OPS:
                for m in re.finditer(pat, l):
                    for r in reps:
                        cand.append((n, m.start(), l[:m.start()] + m.expand(r) + l[m.end():]))
            if s.endswith(";") and not s.startswith(("let ", "return", "}", "use ")) and "=" in s or s.startswith("self.") and s.endswith(";"):
                cand.append((n, 0, ""))
            m = re.match(r"^(\s*(?:\} else )?if )(.*)( \{)$", l)
            if m and not m.group(2).startswith("let "):
                cand.append((n, 0, m.group(1) + "true" + m.group(3)))
                cand.append((n, 0, m.group(1) + "false" + m.group(3)))
        rnd.shuffle(cand)
        k = int(per * (1 + len(lines) / 900))
        for n, c, new in cand[:k]:
            muts.append(dict(file=f, line=n + 1, old=lines[n], new=new))
    rnd.shuffle(muts)
    for i, m in enumerate(muts):
        m["id"] = "s%d-%d" % (seed, i)
    json.dump(muts, open(out, "w"), indent=0)
    print(len(muts), "mutants")
def sh(c, t):
    try:
        p = subprocess.Popen(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True, errors="replace")
        o, _ = p.communicate(timeout=t)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        return -9, "timeout"
def run(muts, out, shard):
    i, n = map(int, shard.split("/"))
    w = "/tmp/mw%d" % i
    if os.environ.get("MUT_NS") != "1":
        os.makedirs(w, exist_ok=True)
        for a in ("repo", "verif"):
            subprocess.run(["rsync", "-a", "--delete", "/%s/" % a, w + "/" + a + "/"]) if os.path.exists("/usr/bin/rsync") else subprocess.run("mkdir -p %s/%s && cp -a /%s/. %s/%s/" % (w, a, a, w, a), shell=True)
        os.execvpe("unshare", ["unshare", "-rm", "--kill-child", "bash", "-c",
                   "mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && exec python3 %s run %s %s %s" % (
                       w, w, "/verif/tools/mutate.py", muts, out, shard)], dict(os.environ, MUT_NS="1"))
    ms = json.load(open(muts))
    done = set()
    if os.path.exists(out):
        done = {json.loads(l)["id"] for l in open(out)}
    stable = json.load(open("/opt/vp/BASELINE.json"))
    sh("git -C /repo checkout -- .", 60)
    for j, m in enumerate(ms):
        if j % n != i or m["id"] in done:
            continue
        r = dict(m)
        t0 = time.time()
        p = "/repo/" + m["file"]
        src = open(p).read()
        ls = src.split("\n")
        assert ls[m["line"] - 1] == m["old"]
        ls[m["line"] - 1] = m["new"]
        open(p, "w").write("\n".join(ls))
        try:
            rc, o = sh("rm -f /tmp/mw%d/t.json; bash /opt/vp/test.sh /tmp/mw%d/t.json" % (i, i), 150)
            try:
                t = json.load(open("/tmp/mw%d/t.json" % i))
                ok = len(t["passed"]) >= 545 and not t["failed"]
            except Exception:
                ok = False
            r["tests"] = "pass" if ok else "killed"
            r["test_s"] = round(time.time() - t0)
            if ok:
                r["checks"] = {}
                for c in dict(MAP)[m["file"]].split():
                    t1 = time.time()
                    rc, o = sh("cd /verif && python3 check.py %s" % c, 900)
                    r["checks"][c] = [rc, round(time.time() - t1), next((l[:200] for l in o.splitlines() if "counterexample" in l or "UNDEC" in l or "ERROR" in l), "")]
                    if rc == 1:
                        break
                r["caught"] = any(x[0] == 1 for x in r["checks"].values())
        finally:
            open(p, "w").write(src)
        with open(out, "a") as f:
            f.write(json.dumps(r) + "\n")
if sys.argv[1] == "gen":
    gen(sys.argv[2], *(int(x) for x in sys.argv[3:]))
else:
    run(*sys.argv[2:5])
