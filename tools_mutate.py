#!/usr/bin/env python3
"""Development tool (no check uses it): random mutants of milo against scaled-down runs of every check.
  tools_mutate.py run OUT.jsonl N SEED [WORKERS] [path filter regex]
Scratch: /tmp/mut (removed at the end).  A mutant nobody notices is printed with its diff for inspection."""
import sys, os, re, random, subprocess, hashlib, json, shutil, time, multiprocessing as mp
ROOT = "/tmp/mut"
FUNC = {"hash": ["C01"], "mac": ["C02"], "kdf": ["C06"], "cipher": ["C03"], "aead": ["C04", "C05"], "codec": ["C07"]}
ORDER = ["C01", "C02", "C03", "C04", "C06", "C05", "C07", "C08", "C09", "C10", "C12", "C11", "C13", "C21", "C15"]
FRAC = int(os.environ.get("MUT_FRAC", "16"))
OPS = [
    (r"(?<![<>=!+\-*/|&^])<(?![<=a-z_])", ["<="]), (r"<=", ["<"]), (r" > ", [" >= "]), (r">=", [">"]), (r"==", ["!="]), (r"!=", ["=="]),
    (r"&&", ["||"]), (r"\|\|", ["&&"]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r"\+=", ["-=", "="]), (r"-=", ["+="]), (r"\|=", ["=", "&="]), (r"\^=", ["|="]), (r"&=", ["="]),
    (r"<<", [">>"]), (r">>", ["<<"]), (r" \| ", [" & "]), (r" \^ ", [" | "]), (r" & ", [" | "]), (r" \* ", [" + "]), (r" / ", [" * "]), (r" % ", [" / "]),
    (r"\b0x[0-9a-fA-F]+\b", ["+1", "-1"]), (r"(?<![\w.])\d+(?![\w.])", ["+1", "-1", "0"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"\buint64_t\b", ["uint32_t"]), (r"\bsize_t\b", ["uint32_t"]), (r"\bif \(", ["if (false && ", "if (true || "]), (r"(?<=[ (])!(?=[\w(])", [""]),
    (r"\bmin\b", ["max"]), (r"\bcontinue\b", ["break"]), (r"\bother\.", ["this->", ]), (r"std::move\((\w+)\)", [r"\1"]),
]
def mutants_of(rel, text):
    out = []; lines = text.split("\n"); com = False
    asm = rel.endswith(".asm")
    for i, l in enumerate(lines):
        s = l.strip()
        if asm:
            if not s or s.startswith(";") or s.startswith("%") or s.startswith("section") or s.endswith(":") or s.startswith("global") or s.startswith("extern"): continue
            code = s.split(";")[0]
            out.append((i, "delete", ""))
            for m in re.finditer(r"\b0x[0-9a-fA-F]+\b|(?<![\w.])\d+(?![\w.])", l.split(";")[0]):
                v = int(m.group(0), 0)
                for nv in (v + 1, v - 1, v + 8):
                    if nv >= 0: out.append((i, "imm %d->%d" % (v, nv), l[:m.start()] + str(nv) + l[m.end():]))
            continue
        if s.startswith("/*"): com = True
        if com:
            if "*/" in s: com = False
            continue
        if not s or s.startswith("//") or s.startswith("#") or s.startswith("*") or s in "{}();," or s.startswith("static_assert") or s.startswith("template") or s.startswith("requires") or s.startswith("namespace") or s.startswith("using "): continue
        c = l.split("//")[0]
        for pat, reps in OPS:
            for m in re.finditer(pat, c):
                for r in reps:
                    if r in ("+1", "-1", "0") and re.match(r"0x|\d", m.group(0)):
                        v = int(m.group(0), 0) if m.group(0).startswith("0x") or not m.group(0).startswith("0") or m.group(0) == "0" else int(m.group(0))
                        nv = v + 1 if r == "+1" else v - 1 if r == "-1" else 0
                        if nv < 0 or nv == v: continue
                        t = str(nv)
                    else: t = m.expand(r) if "\\" in r else r
                    out.append((i, "%s -> %s" % (m.group(0), t), c[:m.start()] + t + c[m.end():]))
        if s.endswith(";") and not re.match(r"(return|constexpr|static|auto|break|continue|\w[\w:<>]*\s+\w+(\[.*\])?( = .*)?;)", s): out.append((i, "delete", ""))
        # a whole call statement spread over lines
        if re.match(r"[\w:.\->]+(<.*>)?\($", s) and not s.startswith(("if", "for", "while", "return", "requires", "static_assert")):
            ind = len(l) - len(l.lstrip())
            for j in range(i + 1, min(i + 12, len(lines))):
                if len(lines[j]) - len(lines[j].lstrip()) == ind and lines[j].strip() == ");" : out.append((i, "delete-call %d" % (j - i + 1), None)); break
        if re.match(r"(uint\d+_t|size_t|bytes_t|word_t|state_t|char)\b.*[\w\]](\s*=.*)?;$", s) and l.startswith(" " * 8): out.append((i, "static", l.replace(s, "static " + s)))
        if "noexcept(true)" not in l and s.startswith("break"): out.append((i, "delete", ""))
    return out
def files():
    r = []
    for top in ("src", "app"):
        for d, _, fs in os.walk("/repo/" + top):
            for f in fs:
                p = os.path.relpath(os.path.join(d, f), "/repo")
                if f.endswith((".h", ".hpp", ".cpp", ".asm")) and f not in ("test.h", "abi.asm", "meta.h", "dep.h", "def.h", "compiler.h"): r.append(p)
    return sorted(r)
def norm(b, repo): return b.replace(repo.encode(), b"@R@")
def worker(args):
    wid, jobs, out = args
    w = ROOT + "/w%d" % wid; repo = w + "/repo"
    os.makedirs(w, exist_ok=True)
    shutil.rmtree(repo, ignore_errors=True); subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
    os.environ["SIM_REPO"] = repo
    sys.path.insert(0, "/verif"); import check
    check.V = w; check.JOBS = 2; check.REPO = repo
    real = check.sh
    base_keys = {}
    def cached(cmd, **k):
        if cmd[0] == "g++" and "-c" in cmd:
            src, o = cmd[cmd.index("-c") + 1], cmd[-1]
            e = subprocess.run(cmd[:cmd.index("-c")] + ["-E", "-P", src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            if e.returncode == 0:
                key = hashlib.sha256(norm(e.stdout, repo) + norm(repr(cmd[1:cmd.index("-c")]).encode(), repo)).hexdigest()
                f = ROOT + "/cache/" + key
                if not os.path.exists(f):
                    r = real(cmd[:-1] + [f + ".%d.%d" % (wid, time.time_ns())] , **k)
                    t = [x for x in os.listdir(ROOT + "/cache") if x.startswith(key + ".%d." % wid)]
                    if r.returncode: 
                        for x in t: os.unlink(ROOT + "/cache/" + x)
                        return r
                    os.rename(ROOT + "/cache/" + t[0], f)
                shutil.copy(f, o); cmd_used[0].add(f)
                return subprocess.CompletedProcess(cmd, 0, b"")
        return real(cmd, **k)
    cmd_used = [set()]
    check.sh = cached
    sigs = {}
    def sig(pid):   # what the executable is made of, to spot mutants that compile to the same code
        d = subprocess.run(["objcopy", "-O", "binary", "--strip-all", w + "/build/" + pid + "/sim", w + "/x.bin"]); return hashlib.sha256(open(w + "/x.bin", "rb").read()).hexdigest()
    for (rel, i, what, new, n) in jobs:
        p = repo + "/" + rel; orig = open("/repo/" + rel).read(); lines = orig.split("\n")
        if new is None:
            old = "\n".join(lines[i:i + n]); lines[i:i + n] = [""]
        else: old = lines[i]; lines[i] = new
        open(p, "w").write("\n".join(lines))
        rec = {"file": rel, "line": i + 1, "what": what, "old": old.strip(), "new": (new or "").strip()}
        t0 = time.time()
        prim = next((v for k, v in FUNC.items() if ("/" + k + "/") in rel), [])
        order = (["C14"] if rel.startswith("app") else prim + [x for x in ORDER if x not in prim] + (["C14"] if n else []))
        res, same, ran = None, 0, []
        for pid in order:
            P = check.PROPS[pid]
            try: exe = check.build(pid)
            except check.Harness as e: res = "nocompile"; rec["err"] = str(e)[-200:]; break
            s = sig(pid); 
            if (pid) not in sigs: sigs[pid] = basesig(check, pid, w, repo, rel, orig, "\n".join(lines))
            if s == sigs[pid]: same += 1; continue
            jn, per, tl = P.quick; work = w + "/work"; shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
            nj = min(jn, 4 if pid not in ("C08", "C15") else jn); per = max(20, per * jn // nj // FRAC) if pid not in ("C15", "C08") else max(10, per // FRAC)
            for k in range(nj):
                job = (k, P.cpus[k % len(P.cpus)], 777000000000 + k * 100000, per, 40)
                _, d = check.run_job(pid, exe, work, job)
                if d.get("dead"): res = (pid, "dead", str(d.get("rc"))); break
                if d["failures"]: res = (pid, d["failures"][0]["class"], d["failures"][0]["message"][:120]); break
            ran.append(pid)
            if res: break
        if not res: res = "same-code" if not ran else "SURVIVED"
        rec.update(result=res, ran=ran, secs=round(time.time() - t0, 1))
        open(p, "w").write(orig)
        with open(out, "a") as f: f.write(json.dumps(rec) + "\n")
    return 0
def basesig(check, pid, w, repo, rel, orig, mut):
    open(repo + "/" + rel, "w").write(orig)
    check.build(pid)
    subprocess.run(["objcopy", "-O", "binary", "--strip-all", w + "/build/" + pid + "/sim", w + "/y.bin"]); r = hashlib.sha256(open(w + "/y.bin", "rb").read()).hexdigest()
    open(repo + "/" + rel, "w").write(mut); check.build(pid)
    return r
def main():
    out, N, seed = sys.argv[2], int(sys.argv[3]), int(sys.argv[4]); W = int(sys.argv[5]) if len(sys.argv) > 5 else 7
    filt = re.compile(sys.argv[6]) if len(sys.argv) > 6 else re.compile(".")
    rnd = random.Random(seed)
    per = {}
    for f in files():
        if not filt.search(f): continue
        t = open("/repo/" + f).read(); ms = mutants_of(f, t)
        if ms: per[f] = ms
    jobs = []
    names = sorted(per); wt = [len(per[f]) ** 0.5 for f in names]
    seen = set()
    while len(jobs) < N and len(seen) < sum(map(len, per.values())):
        f = rnd.choices(names, wt)[0]; m = rnd.choice(per[f])
        if (f, m) in seen: continue
        seen.add((f, m)); n = int(m[1].split()[1]) if m[1].startswith("delete-call") else 0
        jobs.append((f, m[0], m[1], m[2], n))
    print(len(jobs), "mutants of", sum(map(len, per.values())), "possible")
    os.makedirs(ROOT + "/cache", exist_ok=True)
    with mp.Pool(W) as pool: pool.map(worker, [(k, jobs[k::W], out) for k in range(W)], chunksize=1)
    rs = [json.loads(l) for l in open(out)]
    from collections import Counter
    print(Counter(r["result"] if isinstance(r["result"], str) else "killed " + r["result"][0] for r in rs))
    for r in rs:
        if r["result"] == "SURVIVED": print("%s:%d  %s\n   - %s\n   + %s" % (r["file"], r["line"], r["what"], r["old"], r["new"]))
if __name__ == "__main__": main()
