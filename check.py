#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Decides one property: builds the harness crates against /repo's current
working tree, executes the harnesses symbolically (engine/), replays every
counterexample natively, and writes evidence/<PROPERTY>.json.
Exit 0: held on everything explored; 1: VIOLATION; 2: no answer."""
import argparse, hashlib, json, os, re, resource, shutil, subprocess, sys, tempfile, threading, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(V, "tools"))
from config import PROPS, CRATES, ASSUMPTIONS  # noqa: E402

BUILD = os.path.join(V, "build")
ENV = dict(os.environ)
ENV.update(RUSTUP_TOOLCHAIN="1.90.0", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_INCREMENTAL="0")
for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_TARGET_DIR"):
    ENV.pop(k, None)
T0 = time.time()


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def fail(msg, code=2):
    print("NO-ANSWER", msg, flush=True)
    sys.exit(code)


def tree_hash(roots):
    h = hashlib.sha256()
    for r in roots:
        if os.path.isfile(r):
            files = [r]
        else:
            files = []
            for d, ds, fs in os.walk(r):
                ds[:] = sorted(x for x in ds if x not in ("target", ".git", "build", "test-tmp"))
                files += [os.path.join(d, f) for f in sorted(fs) if f.endswith((".rs", ".toml", ".lock", ".c", ".md"))]
        for f in files:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def cargo(args, cwd, target, what):
    e = dict(ENV)
    e["CARGO_TARGET_DIR"] = target
    p = subprocess.run(["cargo"] + args, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        print(p.stdout[-6000:])
        fail("build of %s failed" % what)


def build_engine():
    t = os.path.join(BUILD, "engine")
    exe = os.path.join(t, "release", "symir")
    h = tree_hash([os.path.join(V, "engine")])
    stamp = os.path.join(t, "hash")
    if not (os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h):
        os.makedirs(t, exist_ok=True)
        if os.path.exists(exe):
            os.remove(exe)
            cargo(["clean", "--offline", "--release", "-p", "symir"], os.path.join(V, "engine"), t, "engine")
        cargo(["build", "--release", "--offline", "-q"], os.path.join(V, "engine"), t, "engine")
        open(stamp, "w").write(h)
        log("engine built")
    return exe


def build_crate(c):
    """-> (path of the LLVM IR, path of the native binary), from the current sources."""
    full, (c, _, variant) = c, c.partition("+")
    profile = variant or "release"
    src = os.path.join(V, "harness", c)
    t = os.path.join(BUILD, "h-" + full)
    h = tree_hash([REPO, src, os.path.join(V, "harness", "sym")])
    stamp = os.path.join(t, "hash")
    ll, exe = os.path.join(t, c + ".ll"), os.path.join(t, profile, c + "_h")
    if os.path.exists(stamp) and open(stamp).read() == h and os.path.exists(ll) and os.path.exists(exe):
        return ll, exe
    os.makedirs(t, exist_ok=True)
    for f in (stamp, ll, exe):
        if os.path.exists(f):
            os.remove(f)
    deps = os.path.join(t, profile, "deps")
    if os.path.isdir(deps):
        # contents decide, not time stamps: rebuild every crate that lives in a working tree
        fp = os.path.join(t, profile, ".fingerprint")
        for d in os.listdir(fp):
            if d.rsplit("-", 1)[0] in CRATES["path_packages"] + [c + "_h"]:
                shutil.rmtree(os.path.join(fp, d))
        for f in os.listdir(deps):
            if f.startswith(c + "_h-"):
                os.remove(os.path.join(deps, f))
    cargo(["rustc", "--profile", profile, "--offline", "-q", "--bin", c + "_h", "--", "--emit=llvm-ir", "-C", "save-temps"], src, t, "harness " + c)
    cand = [f for f in os.listdir(deps) if f.startswith(c + "_h-") and f.endswith(".ll")]
    cgu = [f for f in cand if "cgu" in f] or cand
    if len(cgu) != 1 or not os.path.exists(exe):
        fail("unexpected build output of %s: %s" % (c, cand))
    shutil.move(os.path.join(deps, cgu[0]), ll)
    for f in os.listdir(deps):
        if f.startswith(c + "_h-") and f.endswith((".bc", ".ll", ".o")):
            os.remove(os.path.join(deps, f))
    open(stamp, "w").write(h)
    log("harness", full, "built")
    return ll, exe


def hw_binary(exe):
    """A copy of the program that takes what counters read from the harness: `rdpmc`
    and `cpuid` become undefined instructions, which harness/sym/symrt.c answers."""
    out = exe + ".hw"
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(exe):
        return out
    d = subprocess.run(["objdump", "-h", exe], stdout=subprocess.PIPE, text=True, check=True).stdout
    secs = [(int(m[2], 16), int(m[1], 16), int(m[3], 16)) for m in re.finditer(r"^ *[0-9]+ \S+ +([0-9a-f]+) +([0-9a-f]+) +[0-9a-f]+ +([0-9a-f]+)", d, re.M)]
    b = bytearray(open(exe, "rb").read())
    p = subprocess.Popen(["objdump", "-d", "-w", exe], stdout=subprocess.PIPE, text=True, errors="replace")
    where = ""
    for l in p.stdout:
        if l.endswith(">:\n"):
            where = l
            continue
        m = re.match(r" *([0-9a-f]+):\t([0-9a-f ]+)\t(cpuid|rdpmc)\b", l)
        if not m or (m[3] == "cpuid" and "std_detect" in where):
            continue
        a = int(m[1], 16)
        off = next(a - v + o for v, n, o in secs if v and v <= a < v + n)
        old, new = {"cpuid": (b"\x0f\xa2", b"\x0f\xff"), "rdpmc": (b"\x0f\x33", b"\x0f\x0b")}[m[3]]
        if b[off:off + 2] != old:
            fail("%s: unexpected bytes at %x" % (exe, a))
        b[off:off + 2] = new
    if p.wait() != 0:
        fail("objdump failed")
    open(out, "wb").write(b)
    os.chmod(out, 0o755)
    return out


def reach_labels(crate, harness):
    """labels a harness must reach, from its source"""
    for d, _, fs in os.walk(os.path.join(V, "harness", crate.partition("+")[0], "src")):
        for f in fs:
            s = open(os.path.join(d, f)).read()
            m = re.search(r"^    fn %s\(\) \{$(.*?)^    \}$" % harness, s, re.S | re.M)
            if m:
                return set(re.findall(r'sym::reach\("([^"]+)"\)', m.group(1)))
    fail("harness %s not found in %s" % (harness, crate))


class Pool:
    def __init__(self, n):
        self.sem = threading.Semaphore(n)

    def run(self, jobs, fn):
        ts = []
        for j in jobs:
            def go(j=j):
                with self.sem:
                    fn(j)
            t = threading.Thread(target=go)
            t.start()
            ts.append(t)
        for t in ts:
            t.join()


def native(exe, harness, inputs, deep, repeat=1, timeout=60):
    """Replays recorded inputs on the real code. -> (exit code or signal name, output)"""
    d = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        work = os.path.join(d, "w")
        os.mkdir(work)
        inp = os.path.join(d, "input")
        open(inp, "w").write(inputs)
        e = {"PATH": "/usr/bin:/bin", "SYMIR_INPUT": inp, "SYMIR_HARNESS": harness, "SYMIR_REPEAT": str(repeat), "RUST_BACKTRACE": "0", "HOME": d}
        if deep:
            e["SYMIR_DEEP"] = "1"

        def limits():
            resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
            resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        try:
            p = subprocess.run([exe], cwd=work, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, preexec_fn=limits)
            return p.returncode, (p.stderr.decode("utf-8", "replace")[-3000:])
        except subprocess.TimeoutExpired:
            return "timeout", "no end within %d s" % timeout
    finally:
        shutil.rmtree(d, ignore_errors=True)


def reproduced(rc):
    return rc == 101 or (isinstance(rc, int) and rc < 0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--only", help="one harness")
    ap.add_argument("--procs", type=int, default=8)
    ap.add_argument("--all", action="store_true", help="go on after a violation")
    ap.add_argument("--budget", type=float, default=0)
    a = ap.parse_args()
    deep = a.tier == "thorough"
    prop = PROPS[a.prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    budget = a.budget or (6000.0 if deep else 780.0)
    ev_path = os.path.join(V, "evidence", a.prop + ".json")
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    if os.path.exists(ev_path):
        os.remove(ev_path)
    os.makedirs(BUILD, exist_ok=True)
    engine = build_engine()
    built = {}
    jobs = []
    for j in prop["jobs"]:
        if a.only and j["h"] != a.only:
            continue
        if j.get("tier", "quick") == "thorough" and not deep:
            continue
        if j["c"] not in built:
            built[j["c"]] = build_crate(j["c"])
            if j.get("hw"):
                built[j["c"]] = built[j["c"]][0], hw_binary(built[j["c"]][1])
        splits = [[]]
        for name, n in (j.get("split_deep") if deep and j.get("split_deep") else j.get("split", {})).items():
            splits = [s + ["%s=%d" % (name, k)] for s in splits for k in range(n)]
        for s in splits:
            jobs.append(dict(j, fix=s))
    log(len(jobs), "jobs")
    results, running = [], []
    stopping = threading.Event()
    lock = threading.Lock()
    outdir = tempfile.mkdtemp(prefix="verif-%s-" % a.prop)

    def run(j):
        left = budget - (time.time() - T0)
        secs = max(5.0, min(left, j.get("secs", budget) * (10 if deep else 1)))
        out = os.path.join(outdir, "%s-%s-%s.json" % (j["h"], j["c"], "-".join(j["fix"]).replace("=", "")))
        cmd = [engine, built[j["c"]][0], "--entry", j["h"], "--max-secs", "%.0f" % secs, "--out", out, "--prefix", REPO]
        for f in j["fix"]:
            cmd += ["--fix", f]
        if not a.all and not any(k["property"] == a.prop for k in known["findings"]):
            # once it is violated, little more is needed
            cmd += ["--stop-after", "60"]
        if deep:
            cmd += ["--deep"]
        cmd += (j.get("opts_deep") if deep and "opts_deep" in j else j.get("opts", []))
        if stopping.is_set():
            return
        try:
            p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
            with lock:
                running.append(p)
            try:
                err = p.communicate(timeout=secs + 120)[1][-1500:]
            except subprocess.TimeoutExpired:
                p.kill()
                p.communicate()
                raise
            finally:
                with lock:
                    running.remove(p)
            if stopping.is_set() and p.returncode < 0:
                return
            r = json.load(open(out)) if os.path.exists(out) else {"verdict": "error", "inconclusive": {"engine failed (%s): %s" % (p.returncode, err): 1}}
        except subprocess.TimeoutExpired:
            r = {"verdict": "error", "inconclusive": {"engine timeout": 1}}
        # some of the paths that hold, on the real code: validates the executor
        agree, differ = 0, []
        if not j.get("schedule"):
            ss = r.get("samples", [])
            for inputs in ([ss[0]] + ss[-3:] if len(ss) > 4 else ss):
                if budget - (time.time() - T0) < 20 or stopping.is_set():
                    break
                m = re.match(r"# exit (\S+)\n", inputs)
                inputs = inputs[m.end():] if m else inputs
                rc, out = native(built[j["c"]][1], j["h"], inputs, deep)
                if str(rc) == (m[1] if m else "0"):
                    agree += 1
                else:
                    differ.append((inputs, rc, out))
        with lock:
            r["agree"], r["differ"] = agree, differ
            results.append((j, r))
            log(j["h"], j["c"].partition("+")[2], " ".join(j["fix"]), r["verdict"], "paths", r.get("paths"), "checks", r.get("checks"), "queries", r.get("queries"), "%.1fs" % r.get("wall_s", 0), list(r.get("inconclusive", {}).items())[:4] or "")
            if not a.all and not stopping.is_set() and any(not is_known(j["h"], v["msg"]) for v in r.get("violations", [])):
                # the answer is known: give the others a little more time to add to it
                stopping.set()

                def end():
                    with lock:
                        for p in running:
                            p.kill()
                t = threading.Timer(20, end)
                t.daemon = True
                t.start()

    known = json.load(open(os.path.join(V, "known_findings.json")))

    def is_known(h, msg):
        for k in known["findings"]:
            if k["property"] == a.prop and k["harness"] == h and k["message"] == msg:
                return k
        return None

    # longest first, as far as it is known
    jobs.sort(key=lambda j: -j.get("cost", 1))
    Pool(a.procs).run(jobs, run)
    shutil.rmtree(outdir, ignore_errors=True)

    problems, reduced, viols, known_hit = [], [], [], set()
    rdir = os.path.join(V, "evidence", "replay")
    shutil.rmtree(os.path.join(rdir, a.prop), ignore_errors=True)

    def record(j, kind, msg, inputs, rc, out, stack):
        os.makedirs(os.path.join(rdir, a.prop), exist_ok=True)
        path = os.path.join(rdir, a.prop, "%s-%d" % (j["h"], len(viols)))
        open(path + ".input", "w").write(inputs)
        ex = built[j["c"]][1]
        with open(path + ".sh", "w") as f:
            f.write("#!/bin/sh\n# %s: %s (%s)\n# native result: %s\n# %s\ncd \"$(mktemp -d)\" && SYMIR_INPUT=%s.input SYMIR_HARNESS=%s %s %s\n" % (a.prop, msg, kind, rc, out.strip().replace("\n", "\n# "), path, j["h"], "SYMIR_DEEP=1" if deep else "", ex))
        viols.append(dict(harness=j["h"], kind=kind, msg=msg, replay=path + ".sh", native=str(rc), stack=stack[:12]))

    for j, r in results:
        exe = built[j["c"]][1]
        for v in r.get("violations", []):
            k = is_known(j["h"], v["msg"])
            if k:
                known_hit.add(k["what"])
                continue
            if len(viols) >= 5:
                continue
            rep = j.get("repeat", 1)
            rc, out = native(exe, j["h"], v["inputs"], deep, rep, 120 if rep > 1 else 60)
            if reproduced(rc) or j.get("schedule"):
                record(j, v["kind"], v["msg"], v["inputs"], rc, out, v["stack"])
            else:
                problems.append("%s: counterexample not reproduced natively (%s): %s %s" % (j["h"], rc, v["msg"], out[-200:]))
                log("inputs:\n" + v["inputs"])
        for x in r.get("inconclusive", {}):
            (reduced if j.get("wide") else problems).append("%s %s: %s" % (j["h"], " ".join(j["fix"]), x))
        # paths that could not be followed: try their inputs on the real code
        for s in r.get("suspects", []):
            if len(viols) >= 5:
                break
            rc, out = native(exe, j["h"], s["inputs"], deep, 1, 30)
            if reproduced(rc) or rc == "timeout":
                m = out.strip().splitlines()[-1] if out.strip() else str(rc)
                k = is_known(j["h"], re.sub(r"^VIOLATED[^:]*: ", "", m))
                if not k:
                    record(j, "suspect path (%s)" % s["msg"], m, s["inputs"], rc, out, [])
        for inputs, rc, out in r.get("differ", []):
            m = out.strip().splitlines()[-1] if out.strip() else str(rc)
            if is_known(j["h"], re.sub(r"^VIOLATED[^:]*: ", "", m)):
                continue
            if reproduced(rc) and reproduced(native(exe, j["h"], inputs, deep)[0]):
                if len(viols) < 5:
                    record(j, "native run of a path that was found to hold", m, inputs, rc, out, [])
            else:
                problems.append("%s: native run differs from the executor's (%s): %s" % (j["h"], rc, m))
                log("inputs:\n" + inputs[:2000])
    # vacuity
    byh = {}
    for j, r in results:
        byh.setdefault((j["c"], j["h"]), set()).update(r.get("reached", {}))
    for (c, h), got in byh.items():
        miss = {l for l in reach_labels(c, h) - got if deep or not l.startswith("deep:")}
        if any(x.startswith(h + " ") for x in reduced):
            continue
        if miss and not viols:
            problems.append("%s never reaches %s" % (h, sorted(miss)))

    agg = lambda k: sum(r.get(k, 0) for _, r in results)
    funcs = sorted({f for _, r in results for f in r.get("functions", [])})
    msgs = {}
    for _, r in results:
        for m, n in r.get("checks_by_msg", {}).items():
            msgs[m] = msgs.get(m, 0) + n
    cov = dict(
        explanation="Bounded symbolic execution of the compiled code (LLVM IR of the current tree). Every listed assertion was decided for all input values within the bounds on every feasible path; 'checks' counts assertion instances discharged (by term rewriting over the symbolic inputs, or by Z3), 'queries' the Z3 queries (branch feasibility and assertions).",
        bounds=prop["bounds_deep"] if deep and "bounds_deep" in prop else prop["bounds"],
        outside=prop.get("outside", ""),
        functions_encoded=funcs,
        paths=agg("paths"), forks=agg("forks"), basic_blocks=max([r.get("blocks", 0) for _, r in results] or [0]),
        checks=agg("checks"), checks_by_assertion=msgs,
        queries=agg("queries"), queries_sat=agg("sat"), queries_unsat=agg("unsat"), queries_unknown=agg("unknown"), integer_form_queries=agg("lia_queries"),
        solver_s=round(agg("solver_s"), 3), engine_s=round(agg("wall_s"), 1),
        solver="Z3 " + next((r["solver"] for _, r in results if "solver" in r), "?"),
        harnesses=[dict(harness=j["h"], build=j["c"], fix=j["fix"], verdict=r["verdict"], paths=r.get("paths"), checks=r.get("checks"), queries=r.get("queries"), solver_s=r.get("solver_s"), slowest_query_s=r.get("solver_max_s"), ended=r.get("ended"), reached=sorted(r.get("reached", {}))) for j, r in results],
        inconclusive=problems,
        not_decided=reduced,
        native_runs_agreeing=sum(r.get("agree", 0) for _, r in results),
        violations_found=viols,
        known_findings=sorted(known_hit),
    )
    ev = dict(property=a.prop, tier="thorough" if deep else "quick", seed=seed, level="other", coverage=cov, assumptions=ASSUMPTIONS + prop.get("assumptions", []), wall_s=round(time.time() - T0, 2), violations=len(viols))
    json.dump(ev, open(ev_path, "w"), indent=1)
    for w in sorted(known_hit):
        print("KNOWN-FINDING: property=%s %s" % (a.prop, w))
    if viols:
        for v in viols:
            print("  %s: %s [%s] native: %s" % (v["harness"], v["msg"], v["kind"], v["native"]))
        print("VIOLATION property=%s replay=%s" % (a.prop, viols[0]["replay"]), flush=True)
        sys.exit(1)
    if problems:
        for p in problems[:20]:
            print("  inconclusive:", p)
        fail("%d inconclusive" % len(problems))
    for p in reduced[:20]:
        print("  REDUCED: outside the bounds of this run:", p)
    log("holds: %d paths, %d checks, %d queries, %.1fs solver, %d functions, %d native runs agree" % (cov["paths"], cov["checks"], cov["queries"], cov["solver_s"], len(funcs), cov["native_runs_agreeing"]))


if __name__ == "__main__":
    main()
