#!/usr/bin/env python3
"""Development tool for planted bugs (no check uses it).
  tools_seed.py make            (re)write seeded/<id>/patch.diff, demo and meta from the scripts in $SEEDGEN (default /tmp/seedgen)
  tools_seed.py verify <id>...  scratch copy: builds, tests pass, demo fails with / passes without
  tools_seed.py table            (re)write the table of DESIGN.md
  tools_seed.py catch <id>...   apply to a scratch copy, run the property's check on it
"""
import importlib.util, json, os, shutil, subprocess, sys, glob
V = os.path.dirname(os.path.abspath(__file__)); S = V + "/seeded"
DEMO = """#!/bin/bash
# Compiles demo.cpp against the tree in the current directory and runs it.
D=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
g++ -std=c++20 -O2 -w -pthread -I src -DMILO_INTERNAL_ASM=true -DMILO_INTERNAL_ABI_UNIX=true "$D/demo.cpp" _build/libmilo.a -o "$W/demo"
rc=$?; if [ $rc -eq 0 ]; then timeout 250 "$W/demo"; rc=$?; fi
rm -f "$W/demo"; rmdir "$W"; exit $rc
"""
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def make(files):
    for f in files:
        sp = importlib.util.spec_from_file_location("x", f); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
        for b in m.BUGS:
            d = S + "/" + b["id"]; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
            wt = "/tmp/seedmk"; shutil.rmtree(wt, ignore_errors=True); sh("git -C /repo worktree prune; git clone -q /repo " + wt)
            for (p, old, new, *n) in b["edits"]:
                t = open(wt + "/" + p).read(); cnt = t.count(old); want = n[0] if n else 1
                assert cnt == want, (b["id"], p, cnt, old)
                open(wt + "/" + p, "w").write(t.replace(old, new))
            r = sh("git -C %s diff" % wt); open(d + "/patch.diff", "w").write(r.stdout)
            open(d + "/demo.sh", "w").write(b.get("sh", DEMO)); os.chmod(d + "/demo.sh", 0o755)
            if "demo" in b: open(d + "/demo.cpp", "w").write(b["demo"])
            for n, t in b.get("extra", {}).items(): open(d + "/" + n, "w").write(t)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            shutil.rmtree(wt); print("made", b["id"])
def verify(ids):
    wt = "/tmp/seedwt"
    for i in ids:
        d = S + "/" + i
        shutil.rmtree(wt, ignore_errors=True); sh("cp -a /repo " + wt)
        a = sh("cd /repo && bash %s/demo.sh" % d)
        r = sh("git -C %s apply %s/patch.diff" % (wt, d))
        if r.returncode: print(i, "DOES NOT APPLY", r.stdout); continue
        cm = open("/opt/vp/common.sh").read().replace("/repo", wt)
        os.makedirs("/tmp/seedvp", exist_ok=True); open("/tmp/seedvp/common.sh", "w").write(cm)
        for f in ("build.sh", "test.sh", "results.py"):
            open("/tmp/seedvp/" + f, "w").write(open("/opt/vp/" + f).read().replace("/opt/vp", "/tmp/seedvp").replace("/repo", wt))
        # cmake caches hold the absolute source path: configure afresh
        shutil.rmtree(wt + "/_build", ignore_errors=True); shutil.rmtree(wt + "/_build_constexpr", ignore_errors=True)
        t = sh("bash /tmp/seedvp/test.sh /tmp/seedvp/out.json")
        o = json.load(open("/tmp/seedvp/out.json")); base = json.load(open("/opt/vp/BASELINE.json"))
        b = sh("cd %s && bash %s/demo.sh" % (wt, d))
        ok = len(o["failed"]) == 0 and len(o["passed"]) >= 76 and a.returncode == 0 and b.returncode != 0
        print(i, "OK" if ok else "BAD", "passed=%d failed=%s demo: clean=%d patched=%d" % (len(o["passed"]), o["failed"][:6], a.returncode, b.returncode), (a.stdout[-300:] + b.stdout[-400:]) if not ok else b.stdout.strip()[-150:], flush=True)
        shutil.rmtree(wt, ignore_errors=True)
def catch(ids):
    wt = "/tmp/catchwt"
    for i in ids:
        d = S + "/" + i; pid = json.load(open(d + "/meta.json"))["property"]
        shutil.rmtree(wt, ignore_errors=True); sh("git clone -q /repo " + wt)
        r = sh("git -C %s apply %s/patch.diff" % (wt, d)); assert r.returncode == 0, r.stdout
        c = sh("python3 %s/check.py %s" % (V, pid), env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick", SIM_REPO=wt))
        hit = c.returncode == 1 and "VIOLATION property=%s" % pid in c.stdout
        print(i, pid, "CAUGHT" if hit else "MISSED rc=%d" % c.returncode, [l for l in c.stdout.splitlines() if "violated" in l or "harness" in l.lower()][:1], c.stdout.splitlines()[-1][:200] if c.stdout else "", flush=True)
        shutil.rmtree(wt, ignore_errors=True)
def table():
    rows = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
    for i in sorted(os.listdir(S)):
        m = json.load(open(S + "/" + i + "/meta.json")); rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), m.get("caught_by", m["property"])))
    p = V + "/DESIGN.md"; s = open(p).read(); a, b = s.index("<!-- seeded -->"), s.index("<!-- /seeded -->")
    open(p, "w").write(s[:a] + "<!-- seeded -->\n" + "\n".join(rows) + "\n" + s[b:])
if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "make": make(a[1:] or sorted(glob.glob(os.environ.get("SEEDGEN", "/tmp/seedgen") + "/*.py")))
    elif a[0] == "table": table()
    else: (verify if a[0] == "verify" else catch)(a[1:] or sorted(os.listdir(S)))
