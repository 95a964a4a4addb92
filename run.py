#!/usr/bin/env python3
"""Driver of the checks:  run.py <property> [--tier quick|thorough]   |   run.py --replay FILE

Exit codes: 0 property held on everything explored, 1 violated (line
VIOLATION property=<id> replay=<path> on stdout), 2 the check itself failed.
"""
import glob, hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
EVID = os.path.join(HERE, "evidence")
sys.path.insert(0, HERE)
from checks import CHECKS, VARIANTS  # noqa: E402


class CheckError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


def tree_hash(*dirs):
    h = hashlib.sha256()
    for d in dirs:
        fs = [d] if os.path.isfile(d) else sorted(
            os.path.join(r, f) for r, _, ff in os.walk(d) for f in ff)
        for f in fs:
            h.update(os.path.relpath(f, "/").encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    return r.returncode, r.stdout.decode("utf-8", "replace")


def build_config(opts):
    """build_config.h from the repository's template: defaults of CMakeLists.txt overridden by opts"""
    defaults = {}
    with open(os.path.join(REPO, "CMakeLists.txt")) as f:
        for m in re.finditer(r"^\s*option\(\s*(\w+)\s+\"[^\"]*\"\s+(ON|OFF)\s*\)", f.read(), re.M):
            defaults[m.group(1)] = m.group(2) == "ON"
    defaults.update(opts)
    out = []
    with open(os.path.join(REPO, "build_config.in")) as f:
        for line in f:
            m = re.match(r"\s*#cmakedefine\s+(\w+)(.*)", line)
            if m:
                on = defaults.get(m.group(1), False)
                out.append("#define %s%s\n" % (m.group(1), m.group(2).rstrip()) if on else "/* #undef %s */\n" % m.group(1))
            else:
                out.append(line)
    return "".join(out)


def compile_all(jobs):
    """jobs: list of argument lists, run in parallel"""
    def one(c):
        rc, o = sh(c)
        return rc, o, c
    with ThreadPoolExecutor(8) as ex:
        for rc, o, c in ex.map(one, jobs):
            if rc:
                raise CheckError("compilation failed: %s\n%s" % (" ".join(c), o[-6000:]))


_tree = None


def lib(variant):
    """objects and include directories of a library variant built from the working tree"""
    global _tree
    v = VARIANTS[variant]
    if _tree is None:
        _tree = tree_hash(os.path.join(REPO, "src"), os.path.join(REPO, "include"), os.path.join(REPO, "build_config.in"),
                          os.path.join(REPO, "CMakeLists.txt"))
    cfg = build_config(v.get("opts", {}))
    flags = v["flags"]
    key = sha(_tree, cfg, " ".join(flags))
    d = os.path.join(BUILD, "lib-" + key)
    if not os.path.exists(os.path.join(d, "done")):
        tmp = d + ".tmp%d" % os.getpid()
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(os.path.join(tmp, "inc", "catima"))
        with open(os.path.join(tmp, "inc", "catima", "build_config.h"), "w") as f:
            f.write(cfg)
        srcs = sorted(glob.glob(os.path.join(REPO, "src", "**", "*.cpp"), recursive=True))
        if not srcs:
            raise CheckError("no sources in " + REPO)
        jobs = []
        for i, s in enumerate(srcs):
            jobs.append(["g++", "-std=c++17", "-w"] + flags + ["-I", os.path.join(tmp, "inc"), "-I", os.path.join(REPO, "include"),
                         "-c", s, "-o", os.path.join(tmp, "%02d_%s.o" % (i, os.path.basename(s)[:-4]))])
        jobs.sort(key=lambda c: -os.path.getsize(c[-3]))
        compile_all(jobs)
        with open(os.path.join(tmp, "done"), "w") as f:
            f.write("")
        shutil.rmtree(d, ignore_errors=True)
        os.rename(tmp, d)
    os.utime(os.path.join(d, "done"))
    objs = sorted(glob.glob(os.path.join(d, "*.o")))
    return key, objs, os.path.join(d, "inc"), flags


def prune():
    """keep the build directory small: drop the least recently used entries"""
    try:
        es = [os.path.join(BUILD, e) for e in os.listdir(BUILD)]
        es = [e for e in es if os.path.basename(e).startswith(("lib-", "bin-"))]
        def age(e):
            m = os.path.join(e, "done") if os.path.isdir(e) else e
            return os.path.getmtime(m) if os.path.exists(m) else 0
        es.sort(key=age)
        for e in es[:-150]:
            shutil.rmtree(e, ignore_errors=True) if os.path.isdir(e) else os.remove(e)
    except OSError:
        pass


def harness(name, variant, defs=(), extra_src=()):
    key, objs, inc, flags = lib(variant)
    hs = tree_hash(os.path.join(HERE, "harness"), os.path.join(HERE, "data"))
    extra = [os.path.join(REPO, s) for s in extra_src]
    k = sha(key, hs, name, " ".join(defs), *[open(e, "rb").read() for e in extra])
    out = os.path.join(BUILD, "bin-%s-%s" % (name, k))
    if not os.path.exists(out):
        tmp = out + ".tmp%d" % os.getpid()
        rc = 1
        for fallback in ([], ["-DNO_INTERNALS"]):  # second try: without the parts which need names no user or test relies on
            if rc == 0:
                break
            rc, o = sh(["g++", "-std=c++17", "-w"] + flags + list(defs) + fallback +
                   ['-DBUILD_INC="%s"' % inc, '-DREPO_INC="%s"' % os.path.join(REPO, "include"),
                    "-I", inc, "-I", os.path.join(REPO, "include"), "-I", REPO, "-I", os.path.join(HERE, "harness"), "-I", os.path.join(HERE, "data"),
                    os.path.join(HERE, "harness", name + ".cpp")] + objs + ["-o", tmp])
        if rc:
            raise CheckError("harness %s does not build:\n%s" % (name, o[-6000:]))
        os.rename(tmp, out)
    os.utime(out)
    return out


def tool(src, variant):
    """executable made of one repository source file and the library"""
    key, objs, inc, flags = lib(variant)
    s = os.path.join(REPO, src)
    k = sha(key, open(s, "rb").read())
    out = os.path.join(BUILD, "bin-%s-%s" % (os.path.basename(src)[:-4], k))
    if not os.path.exists(out):
        tmp = out + ".tmp%d" % os.getpid()
        rc, o = sh(["g++", "-std=c++17", "-w"] + flags + ["-I", inc, "-I", os.path.join(REPO, "include"), s] + objs + ["-o", tmp])
        if rc:
            raise CheckError("%s does not build:\n%s" % (src, o[-6000:]))
        os.rename(tmp, out)
    os.utime(out)
    return out


ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=1",
           UBSAN_OPTIONS="halt_on_error=1:exitcode=98")


def run_one(prop, r, tier, seed, job=None):
    """run one explorer; returns its result dictionary"""
    defs = list(r.get("defs", ()))
    args = []
    if "tools" in r:
        args = ["--arg", ":".join(tool(t, r["variant"]) for t in r["tools"])]
    if "variants_arg" in r:  # companion executables of other library variants
        args = ["--arg", ":".join(harness(r["variants_arg"][0], v, defs) for v in r["variants_arg"][1])]
    b = harness(r["harness"], r["variant"], defs)
    outf = os.path.join(BUILD, "out-%s-%s-%d.json" % (prop, r["variant"], os.getpid()))
    cmd = [b, "--out", outf, "--seed", str(seed)] + args
    if tier == "thorough":
        cmd.append("--thorough")
    if job:
        cmd += ["--job", job]
    work = os.path.join(BUILD, "work-%d" % os.getpid())
    os.makedirs(work, exist_ok=True)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, cwd=work, timeout=r.get("timeout", 800))
        if p.returncode != 0:
            raise CheckError("explorer %s exited with %d: %s" % (r["harness"], p.returncode, p.stderr.decode("utf-8", "replace")[-3000:]))
        with open(outf) as f:
            res = json.loads(f.read().replace(":nan", ":0").replace(":-nan", ":0").replace(":inf", ":1e999"))
        res["stderr"] = p.stderr.decode("utf-8", "replace")[-3000:]
        return res
    except subprocess.TimeoutExpired:
        raise CheckError("explorer %s did not finish in time" % r["harness"])
    finally:
        shutil.rmtree(work, ignore_errors=True)
        if os.path.exists(outf):
            os.remove(outf)


def known():
    res = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known:\s+property=(\w+)\s+run=(\S+)\s+job=(\S+)\s+(.*)", line)
            if m:
                res.append(m.groups())
    return res


def check(prop, tier, seed):
    t0 = time.time()
    c = CHECKS[prop]
    tot = {"states": 0, "transitions": 0, "traces": 0}
    runs, samples, viol = [], [], []
    exhaustive = True
    for i, r in enumerate(c["runs"]):
        if tier == "quick" and r.get("thorough_only"):
            continue
        t1 = time.time()
        res = run_one(prop, r, tier, seed)
        tot["states"] += res["states"]
        tot["transitions"] += res["transitions"]
        tot["traces"] += res["traces"]
        exhaustive = exhaustive and not res["stopped_early"]
        samples += res["samples"]
        for v in res["violations"]:
            viol.append((i, v["job"], v["msg"]))
        runs.append({"explorer": r["harness"], "library_variant": r["variant"], "defs": list(r.get("defs", ())),
                     "jobs": res["jobs"], "states": res["states"], "transitions": res["transitions"], "traces": res["traces"],
                     "counters": res["counters"], "wall_s": round(time.time() - t1, 2)})
        if viol:
            break
    # known findings
    kn = known()
    rest, told = [], set()
    for i, job, msg in viol:
        k = [x for x in kn if x[0] == prop and x[1] in (c["runs"][i]["variant"], "*") and x[2] == job]
        if k:
            if k[0] in told:
                continue
            told.add(k[0])
            print("KNOWN-FINDING: property=%s %s" % (prop, k[0][3]))
        else:
            rest.append((i, job, msg))
    # replay before reporting: a violation has to fail again, twice, on its own
    confirmed, unstable = [], []
    byjob = {}
    for i, job, msg in rest:
        byjob.setdefault((i, job), []).append(msg)
    for (i, job), msgs in list(byjob.items())[:6]:
        again = 0
        # a job that hangs is replayed once only: each replay costs the whole CPU limit
        times = 1 if any("no result" in m for m in msgs) else 2
        for _ in range(times):
            res = run_one(prop, c["runs"][i], tier, seed, job)
            if any(v["job"] == job for v in res["violations"]):
                again += 1
        (confirmed if again == times else unstable).append((i, job, msgs, again))
        if len(confirmed) >= 3 or (confirmed and (times == 1 or time.time() - t0 > 300)):
            break
    wall = round(time.time() - t0, 2)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": tot["states"], "transitions": tot["transitions"],
                       "traces_validated_against_impl": tot["traces"],
                       "samples": samples[:10] or ["none"], "exhaustive": bool(exhaustive and not unstable),
                       "bounds": c["bounds"][tier] if isinstance(c["bounds"], dict) else c["bounds"],
                       "state_meaning": c.get("state", "distinct observed outcomes (hashed result vectors)"),
                       "runs": runs},
          "assumptions": c.get("assumptions", []), "violations": [], "wall_s": wall}
    os.makedirs(EVID, exist_ok=True)
    code = 0
    if confirmed:
        os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
        for n, (i, job, msgs, _) in enumerate(confirmed):
            path = os.path.join(EVID, "replay", "%s-%s-%d.json" % (prop, tier, n))
            with open(path, "w") as f:
                json.dump({"property": prop, "tier": tier, "seed": seed, "run": i, "job": job, "messages": msgs,
                           "how": "python3 /verif/run.py --replay " + path}, f, indent=1)
            ev["violations"].append({"job": job, "messages": msgs, "replay": path})
            print("%s: %s: %s" % (prop, job, msgs[0]))
        print("VIOLATION property=%s replay=%s" % (prop, ev["violations"][0]["replay"]))
        code = 1
    elif unstable:
        for i, job, msgs, again in unstable:
            print("not reproducible (%d times): %s: %s" % (again, job, msgs[0]))
        code = 2
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d states, %d transitions, %d traces, %.1f s -> %s" %
          (prop, tier, tot["states"], tot["transitions"], tot["traces"], wall, {0: "held", 1: "VIOLATED", 2: "error"}[code]))
    return code


def main():
    a = sys.argv[1:]
    os.makedirs(BUILD, exist_ok=True)
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        i = a.index("--tier")
        tier = a[i + 1]
        del a[i:i + 2]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        if a and a[0] == "--replay":
            d = json.load(open(a[1]))
            res = run_one(d["property"], CHECKS[d["property"]]["runs"][d["run"]], d["tier"], d["seed"], d["job"])
            vs = [v for v in res["violations"] if v["job"] == d["job"]]
            for v in vs:
                print("%s: %s" % (v["job"], v["msg"]))
            if res["stderr"]:
                print(res["stderr"])
            print("reproduced" if vs else "not reproduced")
            return 1 if vs else 0
        if len(a) != 1 or a[0] not in CHECKS:
            print(__doc__, "\nproperties:", " ".join(sorted(CHECKS)))
            return 2
        try:
            return check(a[0], tier, seed)
        finally:
            prune()
    except CheckError as e:
        print("ERROR:", e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
