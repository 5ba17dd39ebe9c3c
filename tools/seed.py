#!/usr/bin/env python3
"""seed.py ID...: confirms planted bugs in a scratch copy and runs the check of their property.
(development tool; no check uses it)"""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/seed-scratch/repo"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="1.90.0", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only")
def sh(c, cwd, t=900):
    p = subprocess.run(c, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return p.returncode, p.stdout
if not os.path.isdir(S):
    os.makedirs(os.path.dirname(S), exist_ok=True)
    subprocess.check_call(["cp", "-a", "/repo", S])
def reset():
    sh("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", S)
mode = "all"
ids = sys.argv[1:]
if ids[0] in ("confirm", "check"):
    mode, ids = ids[0], ids[1:]
for i in ids:
    d = os.path.join(V, "seeded", i)
    meta = json.load(open(d + "/meta.json"))
    if mode in ("all", "confirm"):
        reset()
        sh("cargo build --workspace", S)
        demo = "/tmp/seed-scratch/demo"
        shutil.rmtree(demo, ignore_errors=True)
        shutil.copytree(d, demo, ignore=lambda p, n: [x for x in n if x in ("patch.diff", "meta.json")])
        r0, o0 = sh("bash %s/demo.sh" % demo, S)
        ra, oa = sh("git apply %s/patch.diff" % d, S)
        rb, ob = sh("cargo build --workspace", S)
        rt, ot = sh("cargo test --workspace --no-fail-fast", S)
        n = sum(int(x) for x in re.findall(r"(\d+) passed", ot))
        f = sum(int(x) for x in re.findall(r"(\d+) failed", ot))
        r1, o1 = sh("bash %s/demo.sh" % demo, S)
        ok = n == 60 and r0 == 0 and ra == 0 and rb == 0 and f == 0 and r1 != 0
        print(i, "OK" if ok else "BAD", "demo clean", r0, "apply", ra, "build", rb, "tests", n, f, "demo patched", r1, flush=True)
        if not ok:
            print(o0[-800:], oa, ob[-800:] if rb else "", ot[-800:] if f else "", o1[-800:])
        else:
            print("   ", o1.strip().splitlines()[-1][:200])
        reset()
        if not ok:
            continue
    if mode in ("all", "check"):
        r, o = sh("git apply %s/patch.diff" % d, "/repo")
        if r:
            print(i, "does not apply", o)
            continue
        try:
            for p in [meta["property"]] + meta.get("also", []):
                r, o = sh("python3 check.py %s --tier quick" % p, V, 1800)
                v = [l for l in o.splitlines() if "VIOLATION" in l]
                m = re.findall(r"\[ *([\d.]+)s\]", o)
                print("   ", i, p, "exit", r, "CAUGHT" if r == 1 and v else "MISSED", m[-1] if m else "", v[:1], flush=True)
                if not v:
                    print(o[-1500:])
        finally:
            sh("git checkout -- .", "/repo")
