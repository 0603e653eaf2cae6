"""Builds /verif/seeded/<id>/ from bug specs: applies the edits in a scratch copy of
/repo, checks that it builds, passes the stable tests and that the demonstration
passes without and fails with the change, and writes patch.diff, demo.sh, meta.json."""
import json, os, shutil, subprocess, sys, struct, zlib, bz2, base64

WORK = "/tmp/seedwork"
OUT = "/verif/seeded"
BUGS = []

def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))

# ---- packet helpers
def pkt(tag, body):
    n = len(body)
    if n < 192: l = bytes([n])
    elif n < 8384: l = bytes([((n-192) >> 8)+192, (n-192) & 255])
    else: l = b"\xff" + struct.pack(">I", n)
    return bytes([0xc0 | tag]) + l + body
def opkt(tag, body): return bytes([0x80 | tag << 2 | 1]) + struct.pack(">H", len(body)) + body
def mpi(bits, fill=0x5a):
    n = (bits+7)//8
    if n == 0: return b"\0\0"
    top = 1 << ((bits-1) % 8)
    return struct.pack(">H", bits) + bytes([top]) + bytes([fill])*(n-1)
def sub(typ, body):
    n = len(body)+1
    if n < 192: l = bytes([n])
    elif n < 16320: l = bytes([((n-192) >> 8)+192, (n-192) & 255])
    else: l = b"\xff" + struct.pack(">I", n)
    return l + bytes([typ]) + body
def sigbody(hashed=b"", unhashed=b"", typ=0x13, pub=1, hash=8, ver=4, mpis=None, tail=b""):
    if mpis is None: mpis = mpi(16)
    return (bytes([ver, typ, pub, hash]) + struct.pack(">H", len(hashed)) + hashed +
            struct.pack(">H", len(unhashed)) + unhashed + b"\xab\xcd" + mpis + tail)
def sig(*a, **k): return pkt(2, sigbody(*a, **k))
def u32(n): return struct.pack(">I", n)
def keybody(created=0x5f000000, pub=1, ver=4, mat=None, days=0):
    if mat is None: mat = mpi(32)+mpi(17)
    b = bytes([ver]) + u32(created)
    if ver == 3: b += struct.pack(">H", days)
    b += bytes([pub])
    if ver == 5: b += u32(len(mat))
    return b + mat
def uid(s): return pkt(13, s.encode() if isinstance(s, str) else s)
def lit(data=b"hello", name=b"f.txt", fmt=b"b", t=0x5f000000):
    return pkt(11, fmt + bytes([len(name)]) + name + u32(t) + data)
def deflate(b):
    c = zlib.compressobj(9, zlib.DEFLATED, -15); return c.compress(b) + c.flush()
def comp(alg, inner, cut=0):
    d = {0: lambda x: x, 1: deflate, 2: zlib.compress, 3: bz2.compress}[alg](inner)
    if cut: d = d[:-cut]
    return pkt(8, bytes([alg]) + d)
def crc24(b):
    crc = 0xB704CE
    for x in b:
        crc ^= x << 16
        for _ in range(8):
            crc <<= 1
            if crc & 0x1000000: crc ^= 0x1864CFB
    return crc & 0xffffff
def armor(b, typ="PUBLIC KEY BLOCK", hdr="Version: x\n", eol="\n", crc=None, end=True):
    e = base64.b64encode(b).decode()
    lines = [e[i:i+64] for i in range(0, len(e), 64)]
    c = base64.b64encode(struct.pack(">I", crc24(b) if crc is None else crc)[1:]).decode()
    t = "-----BEGIN PGP %s-----\n%s\n%s\n=%s\n" % (typ, hdr, "\n".join(lines), c)
    if end: t += "-----END PGP %s-----\n" % typ
    return t.replace("\n", eol).encode()

# ---- demonstrations
HEAD = '''#!/bin/bash
# Run with cwd at the repository: exit 0 if it behaves as it should, 1 otherwise.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
'''
CLI = HEAD + '''go build -o "$tmp/gpgpdump" . || exit 2
bad=0
for in in "$here"/case*.in; do
  c=${in%.in}
  mapfile -t args < "$c.args"
  rm -f "$tmp/out"
  PRE timeout 100 "$tmp/gpgpdump" "${args[@]}" < "$in" > "$tmp/out" 2> "$tmp/err"
  rc=$?
  [ $rc -ne 0 ] && rc=1
  if [ "$rc" != "$(cat "$c.rc")" ] || ! cmp -s "$tmp/out" "$c.out"; then
    echo "$(basename "$c"): exit $rc (expected $(cat "$c.rc"))"; diff "$c.out" "$tmp/out" | head -5; bad=1
  fi
done
exit $bad
'''
GO = HEAD + '''echo "{\\"Replace\\": {\\"$PWD/zz_demo/main.go\\": \\"$here/main.go.txt\\"}}" > "$tmp/overlay.json"
go build FLAGS -overlay "$tmp/overlay.json" -o "$tmp/demo" ./zz_demo || exit 2
PRE timeout 200 "$tmp/demo" || exit 1
'''
def cli(*cases, pre=""):   # case = (args list, input bytes)
    return dict(kind="cli", cases=cases, pre=pre)
def go(src, flags="", pre=""):
    return dict(kind="go", src=src, flags=flags, pre=pre)

def sh(cmd, **k): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def run_tests():
    """stable tests in WORK (test.sh works on /repo, so run go test here)"""
    r = sh(". /opt/vp/env.sh; cd %s && go build ./... && go vet ./... >/dev/null 2>&1; go test ./... 2>&1 | grep -v 'no test files'" % WORK)
    return r.returncode == 0 and "FAIL" not in r.stdout and "build failed" not in r.stdout, r.stdout

def build_bug(b, force=False):
    d = os.path.join(OUT, b["id"])
    sh("git -C %s checkout -q -- ." % WORK)
    if os.path.isdir(d): shutil.rmtree(d)
    os.makedirs(d)
    dm = b["demo"]
    if dm["kind"] == "cli":
        open(d+"/demo.sh", "w").write(CLI.replace("PRE ", dm["pre"]+" " if dm["pre"] else ""))
        sh(". /opt/vp/env.sh; cd %s && go build -o /tmp/seedwork.bin ." % WORK)
        for i, (args, inp) in enumerate(dm["cases"], 1):
            open(d+"/case%d.in" % i, "wb").write(inp)
            open(d+"/case%d.args" % i, "w").write("".join(a+"\n" for a in args))
            env = dict(os.environ); env["TZ"] = "UTC"
            for kv in dm["pre"].split():
                k, v = kv.split("="); env[k] = v
            r = subprocess.run(["/tmp/seedwork.bin"]+args, input=inp, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env)
            open(d+"/case%d.out" % i, "wb").write(r.stdout)
            open(d+"/case%d.rc" % i, "w").write("%d\n" % (1 if r.returncode else 0))
    elif dm["kind"] == "sh":
        open(d+"/demo.sh", "w").write(HEAD + dm["src"])
    else:
        open(d+"/demo.sh", "w").write(GO.replace("FLAGS ", dm["flags"]+" " if dm["flags"] else "").replace("PRE ", dm["pre"]+" " if dm["pre"] else ""))
        open(d+"/main.go.txt", "w").write(dm["src"])
    os.chmod(d+"/demo.sh", 0o755)
    json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d+"/meta.json", "w"), indent=1)
    r0 = sh("cd %s && bash %s/demo.sh" % (WORK, d))
    for f, old, new in b["edits"]:
        p = os.path.join(WORK, f); s = open(p).read()
        if s.count(old) != 1:
            print("!!", b["id"], "edit matches", s.count(old), "times in", f); return False
        open(p, "w").write(s.replace(old, new))
    open(d+"/patch.diff", "w").write(sh("git -C %s diff" % WORK).stdout)
    ok, out = run_tests()
    r1 = sh("cd %s && bash %s/demo.sh" % (WORK, d))
    sh("git -C %s checkout -q -- ." % WORK)
    good = r0.returncode == 0 and r1.returncode not in (0, 2, 126, 127) and ok
    print(("ok  " if good else "BAD ")+b["id"], "clean demo", r0.returncode, "patched demo", r1.returncode, "tests", ok)
    if not good:
        print(r0.stdout[-600:], "----", r1.stdout[-800:], "----", out[-1500:] if not ok else "")
    return good

def main(sel):
    if not os.path.isdir(WORK): sh("cp -a /repo %s" % WORK)
    sh("git -C %s fetch -q /repo HEAD && git -C %s checkout -q -f FETCH_HEAD" % (WORK, WORK))
    for b in BUGS:
        if sel and not any(b["id"].startswith(s) for s in sel): continue
        build_bug(b)
