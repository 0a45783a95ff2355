#!/usr/bin/env python3
"""Driver of the simulation checks.

  check.py <property>            run the check (VERIF_TIER, VERIF_SEED)
  check.py replay <file>         rebuild, replay a violation file, compare exactly
  check.py gate <property>       determinism gate: same seeds, different processes and worker counts
  check.py setup                 verify that the tools are there
Exit: 0 the property held on everything simulated, 1 + VIOLATION line, 2 harness error.
"""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, struct, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
SIM = os.path.join(V, "sim")
JOBS = max(1, min(8, os.cpu_count() or 1))
BASE = ["g++", "-std=c++20", "-I" + REPO + "/src", "-DMILO_INTERNAL_ASM=true", "-DMILO_INTERNAL_ABI_UNIX=true",
        "-mno-red-zone", "-fno-pie", "-fcf-protection=none", "-w", "-pthread"]
FAMS = {"HASH": ["fam_hash"], "MAC": ["fam_mac"], "KDF": ["fam_kdf:1", "fam_kdf:2"], "CIPHER": ["fam_cipher"], "AEAD": ["fam_aead"], "CODEC": ["fam_codec"]}
ALL = ["HASH", "MAC", "KDF", "CIPHER", "AEAD"]


class P:
    def __init__(self, fams, world, quick, thorough, cpus=None, srcs=(), opts=("-O2",), isa=False, link=(), mem=0, timeout=None, replays=24, memref=False, huge=None, wind=False):
        self.replays, self.memref, self.huge, self.wind = replays, memref, huge, wind   # huge: (very long streams: jobs, seeds per job quick, thorough)
        self.fams, self.world, self.quick, self.thorough = fams, world, quick, thorough
        self.cpus = cpus or [0, 3, 4, 2, 0, 1, 12, 6]
        self.srcs, self.opts, self.isa, self.link, self.mem, self.timeout = list(srcs), opts, isa, list(link), mem, timeout


# quick/thorough: (jobs, seeds per job, time limit per job in seconds)
PROPS = {
    "C01": P(["HASH"], "stream", (16, 9000, 60), (64, 60000, 120), huge=(14, 40, 1500)),
    "C02": P(["MAC"], "stream", (16, 9000, 60), (64, 60000, 120), huge=(12, 40, 1500)),
    "C03": P(["CIPHER"], "stream", (16, 12000, 60), (64, 80000, 120), huge=(7, 40, 1500)),
    "C04": P(["AEAD"], "stream", (16, 9000, 60), (64, 60000, 120), huge=(9, 40, 1500)),
    "C05": P(["AEAD"], "chan", (16, 16000, 60), (64, 120000, 120)),
    "C06": P(["KDF"], "stream", (16, 6000, 60), (64, 30000, 120), huge=(3, 40, 1500)),
    "C07": P(["CODEC"], "chan", (16, 60000, 60), (64, 400000, 120), huge=(2, 40, 1500)),
    "C08": P(ALL, "stream", (48, 1500, 30), (256, 6000, 60), cpus=list(range(48)), srcs=["init"], isa=True),
    "C09": P(ALL, "stream", (16, 6000, 60), (64, 40000, 120)),
    "C10": P(ALL + ["CODEC"], "stream", (16, 8000, 60), (64, 60000, 120)),
    "C11": P(ALL + ["CODEC"], "stream", (16, 800, 60), (64, 6000, 120), wind=True),
    "C13": P(ALL + ["CODEC"], "threads", (16, 2500, 50), (64, 20000, 150)),
    "C14": P([], "app", (16, 1500, 60), (64, 12000, 150), cpus=[0, 0, 0, 3], srcs=["appmain"]),
    "C12": P(ALL, "stream", (16, 7000, 60), (64, 40000, 120)),
    "C21": P(ALL + ["CODEC"], "stream", (16, 300, 45), (64, 4000, 150), srcs=["ctcmp"], memref=True),
    "C15": P(ALL + ["CODEC"], "huge", (47, 300, 100), (188, 3000, 240), cpus=[0], replays=8),
}


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


REGS = {"%" + r: i + 1 for i, r in enumerate("rax rcx rdx rbx rsp rbp rsi rdi r8 r9 r10 r11 r12 r13 r14 r15".split())}


class Harness(Exception):
    pass


def tree_key(extra):
    h = hashlib.sha256()
    roots = [REPO + "/src", REPO + "/app", SIM]
    for r in roots:
        for d, ds, fs in os.walk(r):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                try:
                    h.update(p.encode()); h.update(open(p, "rb").read())
                except OSError:
                    pass
    h.update(repr(extra).encode())
    return h.hexdigest()[:20]


def build(pid):
    p = PROPS[pid]
    out = os.path.join(V, "build", pid)
    exe = os.path.join(out, "sim")
    key = tree_key((pid, p.fams, p.world, p.srcs, p.opts, p.isa, p.link, p.memref, bool(p.huge), p.wind, BASE))
    if os.path.exists(exe) and os.path.exists(out + "/key") and open(out + "/key").read() == key:
        return exe
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    opts = list(p.opts)
    cmds = []
    def cc(src, obj, defs=()):
        cmds.append((BASE + (["-I" + REPO + "/app", "-I" + REPO + "/app/include"] + ["-fsanitize-coverage=trace-pc"] if src == "appmain" else []) + opts + list(defs) + ["-c", os.path.join(SIM, src + ".cpp"), "-o", os.path.join(out, obj + ".o")], obj))
    for s in p.srcs:
        cc(s, "00_" + s)
    for f in p.fams:
        for s in FAMS[f]:
            if ":" in s:
                a, b = s.split(":"); cc(a, a + b, ["-DKDF_PART=" + b])
            else:
                cc(s, s)
    for s in ("engine", "model", p.world) + (("huge",) if p.huge else ()):
        cc(s, s)
    cc("main", "main", ["-DFAM_" + f for f in p.fams] + ["-DWORLD=make_" + p.world] + (["-DWORLD2=make_huge"] if p.huge else []))
    for d, _, fs in os.walk(REPO + "/src"):
        for f in sorted(fs):
            rel = os.path.relpath(os.path.join(d, f), REPO)
            if f.endswith(".asm") and (f.endswith("x86_64.asm") or "/arch/x86_64/" in "/" + rel) and f != "abi.asm":
                cmds.append((["nasm", "-f", "elf64", "-i", REPO + "/src/milo/internal/arch/x86_64/", "-i", d + "/", "-DMILO_INTERNAL_ABI_UNIX=true", os.path.join(d, f), "-o", os.path.join(out, "asm_" + rel.replace("/", "_") + ".o")], "asm_" + rel.replace("/", "_")))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for (c, o), r in zip(cmds, ex.map(lambda c: sh(c[0]), cmds)):
            if r.returncode:
                raise Harness("cannot build %s:\n%s" % (o, r.stdout.decode(errors="replace")[-3000:]))
    if p.world == "app":   # the work meters of sim/app.cpp sit in front of the assembly entry points
        for _, o in cmds:
            if o.startswith("asm_"):
                t = os.path.join(out, o + ".o")
                syms = [l.split()[-1] for l in sh(["nm", "-g", "--defined-only", t]).stdout.decode().splitlines() if re.search(r" T milo_primitive", l)]
                r = sh(["objcopy"] + ["--redefine-sym=%s=simreal_%s" % (x, x) for x in syms if x in open(os.path.join(SIM, "app.cpp")).read()] + [t])
                if r.returncode:
                    raise Harness(r.stdout.decode())
    if p.wind:   # the Windows variant of the assembly library beside the usual one, sim/wind.cpp chooses
        both = []
        for c, o in list(cmds):
            if o.startswith("asm_"):
                t = os.path.join(out, o + ".o"); w = os.path.join(out, "w" + o + ".o")
                if sh([x.replace("ABI_UNIX", "ABI_WIND") for x in c[:-1]] + [w]).returncode:
                    continue
                syms = [[l.split()[-1] for l in sh(["nm", "-g", "--defined-only", f]).stdout.decode().splitlines() if " T milo_" in l] for f in (t, w)]
                if not syms[0] or syms[0] != syms[1]:
                    continue
                for f, pre in ((t, "simreal_"), (w, "simwin_")):
                    r = sh(["objcopy"] + (["--rename-section", ".text=wintext"] if f == w and "cpuid" not in o else []) + ["--redefine-sym=%s=%s%s" % (x, pre, x) for x in syms[0]] + [f])
                    if r.returncode:
                        raise Harness(r.stdout.decode())
                cmds.append(([], "w" + o)); both += syms[0]
        open(out + "/wind.inc", "w").write("".join("WIND(%s)\n" % x for x in both))
        r = sh(BASE + opts + ["-I" + out, "-c", SIM + "/wind.cpp", "-o", out + "/wind.o"])
        if r.returncode:
            raise Harness("cannot build wind:\n" + r.stdout.decode(errors="replace")[-3000:])
        cmds.append(([], "wind"))
    for o in ("engine", "threads") if p.world == "threads" else ("engine",):
        args = ["objcopy"]
        for s in (".text", ".text.unlikely", ".text.startup", ".text.hot", ".text.exit"):
            args += ["--rename-section", s + "=simtext"]
        r = sh(args + [os.path.join(out, o + ".o")])
        if r.returncode:
            raise Harness(r.stdout.decode())
    objs = [os.path.join(out, o + ".o") for _, o in cmds]
    r = sh(["g++", "-no-pie", "-pthread", "-Wl,-z,muldefs,-z,now", "-Wl,-z,noexecstack"] + objs + p.link + ["-o", exe])
    if r.returncode:
        raise Harness("cannot link:\n" + r.stdout.decode(errors="replace")[-3000:])
    dump = subprocess.run(["objdump", "-d", "--no-show-raw-insn", "-j", ".text", exe], stdout=subprocess.PIPE, text=True).stdout
    addrs, xg, cpuid, badins, refs = [], [], [], 0, []
    for l in dump.splitlines():
        m = re.match(r"\s+([0-9a-f]+):\t(\S+)", l)
        if not m:
            continue
        a = int(m.group(1), 16); addrs.append(a)
        if m.group(2) == "xgetbv": xg.append(a)
        elif m.group(2) == "cpuid": cpuid.append(a)
        elif m.group(2) == "(bad)": badins += 1
        if p.memref and "(" in l and not re.search(r"\b(lea|nop[wl]?)\b", l):
            q = re.search(r"(-?0x[0-9a-f]+)?\((%\w+)?(?:,(%\w+),([1248]))?\)", l)
            if q and all(x is None or x in REGS for x in q.group(2, 3)):
                refs.append((a, int(q.group(1) or "0", 16), REGS[q.group(2)] if q.group(2) else 0, REGS[q.group(3)] if q.group(3) else 0, int(q.group(4) or 1)))
    env = {"SIM_XGETBV": ",".join("%x" % a for a in xg), "SIM_CPUID": ",".join("%x" % a for a in cpuid)}
    if not xg:
        del env["SIM_XGETBV"]; env["SIM_NOXGETBV"] = "1"
    if p.isa and not badins:
        open(out + "/isa.bin", "wb").write(struct.pack("<%dI" % len(addrs), *sorted(addrs)))
        env["SIM_ISA"] = out + "/isa.bin"
    if p.memref:
        open(out + "/mem.bin", "wb").write(b"".join(struct.pack("<IiBBBB", a, d, b, i, s, 0) for a, d, b, i, s in sorted(refs)))
        env["SIM_MEM"] = out + "/mem.bin"
    json.dump(env, open(out + "/env.json", "w"))
    for o in objs:
        os.unlink(o)
    open(out + "/key", "w").write(key)
    return exe


def env_for(pid, cpu, work=None):
    e = {"PATH": "/usr/bin:/bin", "LC_ALL": "C", "SIM_CPU": str(cpu), "HOME": "/nonexistent", "MALLOC_ARENA_MAX": "1"}
    e.update(json.load(open(os.path.join(V, "build", pid, "env.json"))))
    if work:
        e["SIM_WORK"] = work
    return e


def limits(pid):
    mem = PROPS[pid].mem
    def f():
        import resource
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    return f


def run_job(pid, exe, out, job):
    """job = (index, cpu, first seed, count, time limit)"""
    i, cpu, s0, n, tl = job
    st, res = os.path.join(out, "st%d" % i), os.path.join(out, "res%d" % i)
    wall = (PROPS[pid].timeout or tl * 3 + 120)
    try:
        r = subprocess.run([exe, "run", pid, str(s0), str(n), st, res, str(tl)], env=env_for(pid, cpu, out), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=wall, preexec_fn=limits(pid))
        rc, err = r.returncode, r.stderr.decode(errors="replace")[-400:]
    except subprocess.TimeoutExpired:
        rc, err = "timeout", "no end within %d s" % wall
    if rc in (0, 1) and os.path.exists(res):
        d = json.load(open(res)); d["rc"] = rc
        return job, d
    seed, started = s0, False
    try:
        b = open(st, "rb").read(16)
        if len(b) == 16:
            seed, flag = struct.unpack("<QQ", b); started = flag != 0
    except OSError:
        pass
    return job, {"rc": rc, "dead": True, "started": started, "seed": seed, "err": err}


def exec_plan(pid, exe, cpu, plan, work, tag="p", timeout=150):
    pf, of = os.path.join(work, tag + ".plan"), os.path.join(work, tag + ".out")
    open(pf, "w").write(plan)
    try:
        os.unlink(of)
    except OSError:
        pass
    try:
        r = subprocess.run([exe, "exec", pid, pf, of], env=env_for(pid, cpu, work), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, preexec_fn=limits(pid))
    except subprocess.TimeoutExpired:
        return {"failed": True, "class": "hang", "message": "the simulated process did not end", "hash": "-", "events": 0}
    if os.path.exists(of):
        return json.load(open(of))
    return {"failed": True, "class": "process-crash", "message": "the simulated process died: status %s %s" % (r.returncode, r.stderr.decode(errors="replace")[-300:]), "hash": "-", "events": 0}


def gen_plan(pid, exe, cpu, seed, work):
    r = subprocess.run([exe, "gen", pid, str(seed)], env=env_for(pid, cpu, work), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    return r.stdout.decode() if r.returncode == 0 else None


def minimise(pid, exe, cpu, plan, cls, work, budget=45.0):
    end = time.time() + budget
    ops = [l for l in plan.splitlines() if l]
    tried = 0
    def fails_many(cands):
        nonlocal tried
        tried += len(cands)
        with cf.ThreadPoolExecutor(JOBS) as ex:
            rs = list(ex.map(lambda ic: exec_plan(pid, exe, cpu, "\n".join(ic[1]) + "\n", work, "m%d" % ic[0], 60), list(enumerate(cands))))
        return [r["failed"] and r["class"] == cls for r in rs]
    n = 2
    while len(ops) >= 2 and time.time() < end:
        sz = max(1, len(ops) // n)
        cands = [ops[:i] + ops[i + sz:] for i in range(0, len(ops), sz)]
        hit = None
        for b in range(0, len(cands), JOBS):
            ok = fails_many(cands[b:b + JOBS])
            if any(ok):
                hit = cands[b + ok.index(True)]; break
            if time.time() > end:
                break
        if hit is not None:
            ops = hit; n = max(2, n - 1)
        elif sz == 1:
            break
        else:
            n = min(len(ops), n * 2)
    # shrink arguments
    progress = True
    while progress and time.time() < end:
        progress = False
        for i in range(len(ops)):
            w = ops[i].split()
            for j in range(1, len(w)):
                v = int(w[j])
                if v == 0 or time.time() > end:
                    continue
                cs = []
                for nv in dict.fromkeys([0, 1, v // 8, v // 2, v - v // 8, v - 1]):
                    if 0 <= nv < v:
                        cs.append(ops[:i] + [" ".join(w[:j] + [str(nv)] + w[j + 1:])] + ops[i + 1:])
                if not cs:
                    continue
                ok = fails_many(cs)
                if any(ok):
                    ops = cs[ok.index(True)]; w = ops[i].split(); progress = progress or ok.index(True) < len(cs) - 1
    return "\n".join(ops) + "\n", tried


def known():
    r = []
    try:
        for l in open(os.path.join(V, "KNOWN_FINDINGS")):
            m = re.match(r"known: property=(\S+) class=(\S+) match=(.*)", l.strip())
            if m:
                r.append(m.groups())
    except OSError:
        pass
    return r


def check(pid):
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
    vseed = int(os.environ.get("VERIF_SEED", "1") or 1)
    p = PROPS[pid]
    t0 = time.time()
    exe = build(pid)
    tb = time.time() - t0
    work = os.path.join(V, "build", pid, "work")
    shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    jobs_n, per, tl = p.quick if tier == "quick" else p.thorough
    base = (vseed * 1000003 + (0 if tier == "quick" else 500000000)) * 10000000
    jobs = [(i, p.cpus[i % len(p.cpus)], base + i * 100000, per, tl) for i in range(jobs_n)]
    if p.huge:   # seeds of jobs 70.. are runs of the very-long-streams world; they start first because each takes long
        jobs = [(70 + i, 0, base + (70 + i) * 100000, p.huge[1 if tier == "quick" else 2], 100 if tier == "quick" else 300) for i in range(p.huge[0])] + jobs
    with cf.ThreadPoolExecutor(JOBS) as ex:
        results = list(ex.map(lambda j: run_job(pid, exe, work, j), jobs))
    # ---- violations ----
    viol, knownhits, notes = None, [], []
    kn = known()
    for job, d in results:
        cand = []
        if d.get("dead"):
            if not d["started"]:
                cand.append({"seed": job[2], "class": "process-crash", "message": "the process died before the first run (status %s): %s" % (d["rc"], d["err"]), "plan": "", "hash": "-"})
            else:
                plan = gen_plan(pid, exe, job[1], d["seed"], work)
                cand.append({"seed": d["seed"], "class": "hang" if d["rc"] == "timeout" else "process-crash", "message": "the simulated process died (status %s): %s" % (d["rc"], d["err"]), "plan": plan, "hash": "-"})
        else:
            cand = d["failures"]
        for f in cand:
            k = [x for x in kn if x[0] == pid and x[1] == f["class"] and x[2] in f["message"]]
            if k:
                knownhits.append(k[0]); continue
            if viol is None:
                viol = (job, f)
    # ---- determinism: replay a sample of runs in fresh processes ----
    replays, mismatches = 0, []
    if viol is None:
        todo = []
        for job, d in results:
            for smp in d.get("samples", [])[: (1 if tier == "quick" or job[0] >= 70 and p.huge else 3)]:
                todo.append((job, smp))
        long = [x for x in todo if p.huge and x[0][0] >= 70]; todo = [x for x in todo if x not in long]
        todo = long[:2] + todo[:: max(1, len(todo) // p.replays)][: p.replays if tier == "quick" else 200]
        def rep(k):
            job, smp = todo[k]
            return exec_plan(pid, exe, job[1], smp["plan"], work, "r%d" % k)
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for (job, smp), r in zip(todo, ex.map(rep, range(len(todo)))):
                replays += 1
                if r["failed"] and viol is None:
                    viol = (job, dict(r, seed=smp["seed"], plan=smp["plan"]))
                elif r["hash"] != smp["hash"]:
                    mismatches.append([job[1], smp["seed"], smp["hash"], r["hash"]])
    # ---- evidence ----
    runs = sum(d.get("runs", 0) for _, d in results)
    stat = {}
    for _, d in results:
        for k, v in d.get("stat", {}).items():
            stat[k] = stat.get(k, 0) + v
    sigs = set()
    for i in [j[0] for j in jobs]:
        f = os.path.join(work, "res%d.sigs" % i)
        if os.path.exists(f):
            b = open(f, "rb").read()
            sigs.update(struct.unpack("<%dQ" % (len(b) // 8), b))
    wall = time.time() - t0
    simwall = max(0.001, wall - tb)
    samples = []
    for job, d in results:
        for smp in d.get("samples", []):
            if len(samples) < 4:
                samples.append({"seed": smp["seed"], "cpu": job[1], "hash": smp["hash"], "plan": smp["plan"].splitlines()[:40]})
    ev = {"property": pid, "tier": tier, "seed": vseed, "level": "exploration", "wall_s": round(wall, 2),
          "coverage": {
              "evaluations": runs,
              "distinct_nontrivial": sum(d.get("nontrivial", 0) for _, d in results),
              "rule": RULES.get(pid, RULE),
              "samples": samples or [{"note": "no run completed"}],
              "runs_per_hour": int(runs / simwall * 3600), "seeds_per_hour": int(runs / simwall * 3600),
              "build_s": round(tb, 1),
              "simulated_time": {"unit": "events and library calls (discrete time; one event per step of the schedule)", "events": sum(d.get("events", 0) for _, d in results), "operations": stat.get("operations", 0), "library_calls": stat.get("library_calls", 0), "instructions_single_stepped": stat.get("instructions_stepped", 0), "simulated_clock_ns": stat.get("simulated_clock_ns", 0)},
              "faults_injected": {k: v for k, v in sorted(stat.items()) if k.startswith("fault_")},
              "probes": {k: v for k, v in sorted(stat.items()) if not k.startswith("fault_")},
              "distinct_states": len(sigs),
              "distinct_states_measure": SIGS.get(pid, SIG),
              "cpu_configurations": sorted({"%d:%s" % (d["cpu"], d["cpu_name"]) for _, d in results if "cpu" in d}),
              "cpu_simulated": all(d.get("cpu_simulated", True) for _, d in results), "xgetbv_simulated": all(d.get("xgetbv_simulated", True) for _, d in results),
              "cpuid_calls_answered": sum(d.get("cpuid_calls", 0) for _, d in results), "xgetbv_answered": sum(d.get("xgetbv_calls", 0) for _, d in results),
              "forbidden_instruction_sites_armed": sum(d.get("isa_sites", 0) for _, d in results), "returns_checked_for_callee_saved_registers": sum(d.get("returns_checked", 0) for _, d in results),
              "replays_in_fresh_process": replays, "replay_mismatches": mismatches,
              "real_components": REAL.get(pid, REAL0), "stub_components": STUB.get(pid, STUB0),
          },
          "assumptions": ASSUME.get(pid, ASSUME0), "violations": 0}
    rc = 0
    for k in sorted(set(knownhits)):
        print("KNOWN-FINDING: property=%s %s" % (pid, k[2]))
    if viol:
        job, f = viol
        os.makedirs(os.path.join(V, "replays"), exist_ok=True)
        rp = os.path.join(V, "replays", "%s-%s.json" % (pid, f["seed"]))
        plan, tried, confirmed = f.get("plan") or "", 0, None
        if plan:
            r = exec_plan(pid, exe, job[1], plan, work, "c")
            if r["failed"]:
                plan, tried = minimise(pid, exe, job[1], plan, r["class"], work)
                r = exec_plan(pid, exe, job[1], plan, work, "c")
                confirmed = r
        rec = {"property": pid, "cpu": job[1], "seed": f["seed"], "mode": "plan" if confirmed else "seeds",
               "original": {"class": f["class"], "message": f["message"], "hash": f["hash"], "plan": (f.get("plan") or "").splitlines()},
               "job": {"first_seed": job[2], "count": f["seed"] - job[2] + 1},
               "minimised": {"plan": plan.splitlines(), "candidates_tried": tried},
               "violation": {k: confirmed[k] for k in ("class", "message", "hash")} if confirmed else {"class": f["class"], "message": f["message"], "hash": f["hash"]}}
        json.dump(rec, open(rp, "w"), indent=1)
        v = rec["violation"]
        print("property %s violated: seed %s, cpu %s: [%s] %s" % (pid, f["seed"], job[1], v["class"], v["message"]))
        for l in rec["minimised"]["plan"][:20]:
            print("    " + l)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        ev["violations"] += 1; ev["coverage"]["violation"] = {"seed": f["seed"], "class": v["class"], "message": v["message"], "replay": rp}
        rc = 1
    if mismatches and not viol:
        print("warning: %d of %d replays gave a different event log: %s" % (len(mismatches), replays, mismatches[:3]))
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    print("%s %s: %d runs, %d distinct, %d states, %.1f s (build %.1f s), replays %d/%d identical" % (pid, tier, runs, ev["coverage"]["distinct_nontrivial"], len(sigs), wall, tb, replays - len(mismatches), replays))
    shutil.rmtree(work, ignore_errors=True)
    if runs == 0 and not viol:
        raise Harness("nothing was simulated")
    return rc


def replay(path):
    rec = json.load(open(path)); pid = rec["property"]
    exe = build(pid)
    work = os.path.join(V, "build", pid, "replay"); shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    if rec["mode"] == "plan":
        r = exec_plan(pid, exe, rec["cpu"], "\n".join(rec["minimised"]["plan"]) + "\n", work)
        same = r["failed"] and r["class"] == rec["violation"]["class"] and r["hash"] == rec["violation"]["hash"]
        print("[%s] %s" % (r["class"], r["message"]) if r["failed"] else "no violation")
    else:
        _, d = run_job(pid, exe, work, (0, rec["cpu"], rec["job"]["first_seed"], rec["job"]["count"], 600))
        same = bool(d.get("dead") or d.get("failures"))
        r = {"failed": same}
    shutil.rmtree(work, ignore_errors=True)
    print("replay %s" % ("reproduces the recorded violation exactly" if same else "DIFFERS from the record" if r["failed"] else "does not fail on this tree"))
    if r["failed"]:
        print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1 if r["failed"] else 0


def gate(pid, n=400):
    exe = build(pid)
    work = os.path.join(V, "build", pid, "gate"); shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    jobs = [(i, PROPS[pid].cpus[(i // 2) % len(PROPS[pid].cpus)], 77000000 + (i // 2) * 1000, n, 600) for i in range(16)]
    a = [run_job(pid, exe, work, j)[1] for j in jobs[:2]]
    with cf.ThreadPoolExecutor(JOBS) as ex:
        rs = list(ex.map(lambda j: run_job(pid, exe, work, j)[1], jobs))
    bad = [i for i in range(0, 16, 2) if rs[i].get("all") != rs[i + 1].get("all")]
    if a[0].get("all") != rs[0].get("all"): bad.append("worker count")
    print("%s determinism: %d runs twice, mismatching groups: %s" % (pid, 8 * n, bad))
    shutil.rmtree(work, ignore_errors=True)
    return 1 if bad else 0


RULE = "One evaluation is one simulated run: a seed gives a plan (which instances exist, how their traffic is cut into calls, interfaces, placements, life-cycle operations and faults), the plan is executed under the simulator and every output is compared with an independent reference model. Distinct and non-trivial: the event log (all outputs and verdicts in order) has more than one event and its hash was not seen before in the same worker; workers use disjoint seeds."
SIG = "set of (algorithm, operation, interface, buffered-byte phase, size class, state of the instance, processor) tuples reached"
RULES, SIGS = {}, {}
REAL0 = ["all of /repo/src used by the property: headers and assembly, compiled from the working tree with g++ -O2"]
REAL = {}
STUB0 = ["processor feature reports (CPUID, XGETBV) answered by the simulator", "operator new/delete and malloc wrapped (real allocator behind)", "function-local static guards", "memory around buffers (guard pages)"]
STUB = {}
ASSUME0 = ["the reference models in sim/ref.hpp are right (they were compared with Python's hashlib/hmac and RFC vectors)", "sampling: a clean batch is evidence, not proof", "x86-64 Linux, g++"]
ASSUME = {}


def main():
    a = sys.argv[1:]
    try:
        if a and a[0] == "setup":
            for t in ("g++", "nasm", "objdump", "objcopy"):
                if not shutil.which(t):
                    raise Harness("missing " + t)
            return 0
        if len(a) == 2 and a[0] == "replay":
            return replay(a[1])
        if len(a) >= 2 and a[0] == "gate":
            return max(gate(x) for x in a[1:])
        if len(a) == 1 and a[0] in PROPS:
            return check(a[0])
    except Harness as e:
        print("harness error: %s" % e)
        return 2
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
