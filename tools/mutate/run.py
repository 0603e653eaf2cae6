#!/usr/bin/env python3
"""Mutation run: run.py LANE LANES OUT [file-substring...]. Applies every mutant of every source file to a
scratch copy of /repo, one at a time, and runs the quick checks (short budgets, no shrinking) that concern the
file until one reports it, unless the repository's own tests see it first. Writes one line per mutant."""
import os, subprocess, sys, shutil, glob
lane, lanes, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
want = sys.argv[4:]
base = "/tmp/mut/%d" % lane
repo, ver = base + "/repo", base + "/verif"
shutil.rmtree(base, ignore_errors=True)
os.makedirs(base)
subprocess.check_call(["cp", "-a", "/repo", repo])
subprocess.check_call(["cp", "-a", "/repo", base + "/orig"])
os.makedirs(ver)
subprocess.check_call(["cp", "-a", "/verif/harness", ver + "/harness"])
gm = ver + "/harness/go.mod"
s = open(gm).read().replace("=> /repo", "=> " + repo)
open(gm, "w").write(s)
env = dict(os.environ)
for l in subprocess.check_output(["bash", "-c", ". /opt/vp/env.sh; env -0"]).split(b"\0"):
    if b"=" in l:
        k, v = l.decode().split("=", 1); env[k] = v
env.update(GOFLAGS="-mod=mod", GOSUMDB="off", VERIF_SHRINK="1ms", VERIF_SCALE="0.25", VERIF_SEED="1", VERIF_TIER="quick", VERIF_ROOT=ver, TMPDIR=base)
DUMP = ["C24", "C14", "C04", "C15", "C12", "C23", "C10", "C08", "C17", "C01"]
def plan(f):
    if f.startswith("parse/reader"): return [("rd", ["C19"]), ("dump", ["C24", "C04"])]
    if f.startswith("armtext") or f in ("parse/parser.go", "parse/parse.go"): return [("dump", ["C05", "C06", "C18", "C02", "C03", "C17", "C01"]), ("cli", ["C22"])]
    if f.startswith("github"): return [("net", ["C21"])]
    if f.startswith("hkp"): return [("net", ["C20"])]
    if f.startswith("facade") or f == "main.go": return [("cli", ["C22", "C14", "C06", "C18", "C17"]), ("net", ["C20", "C21", "C06"])]
    if f.startswith("parse/result"): return [("dump", ["C16"])]
    if f.startswith("parse/context"): return [("dump", ["C14", "C17", "C11", "C15"]), ("cli", ["C22"])]
    if "08.go" in f or "packets.go" in f: return [("dump", DUMP + ["C13"])]
    return [("dump", DUMP)]
def sh(a, cwd, t=300):
    try:
        p = subprocess.run(a, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return 124, "timeout"
files = [f[len(repo) + 1:] for f in glob.glob(repo + "/**/*.go", recursive=True) if not f.endswith("_test.go")]
files = sorted(f for f in files if not f.startswith("ecode") and ( not want or any(w in f for w in want)))
done = set()
if os.path.exists(out):
    for l in open(out): done.add(tuple(l.split("\t")[:2]))
log = open(out, "a")
n = 0
for f in files:
    src = open(repo + "/" + f).read()
    ms = subprocess.check_output(["/tmp/mutate", "list", base + "/orig/" + f]).decode().splitlines()
    for m in ms:
        n += 1
        if n % lanes != lane: continue
        k, line, what = m.split("\t", 2)
        if what.startswith("text ") and int(k) % 4: continue # a sample of these
        if ("%s:%s" % (f, line), k) in done: continue
        new = subprocess.check_output(["/tmp/mutate", "apply", base + "/orig/" + f, k]).decode()
        open(repo + "/" + f, "w").write(new)
        res = None
        rc, o = sh(["go", "test", "./..."], repo)
        if rc: res = "nobuild" if "build failed" in o else "tests"
        for b, props in [] if res else plan(f):
            rc, o = sh(["go", "build", "-o", ver + "/" + b, "./cmd/" + b], ver + "/harness")
            if rc: res = "nobuild"; break
            if b == "cli" or b == "net":
                rc, o = sh(["go", "build", "-o", ver + "/gpgpdump", "."], repo)
                env["VERIF_GPGPDUMP"] = ver + "/gpgpdump"
            for p in props:
                env["VERIF_BUDGET_S"] = "60"
                rc, o = sh([ver + "/" + b, "run", p], ver)
                if rc == 1: res = "killed " + p; break
                if rc != 0: res = "rc%d %s" % (rc, p); break
            if res: break
        if res is None: res = "SURVIVED"
        log.write("%s:%s\t%s\t%s\t%s\n" % (f, line, k, what, res)); log.flush()
    open(repo + "/" + f, "w").write(src)
shutil.rmtree(base, ignore_errors=True)
