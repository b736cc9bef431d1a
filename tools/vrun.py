"""Building harness binaries, running workers, confirming and shrinking failures."""
import fcntl, glob, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TARGET = os.path.join(VERIF, "target")
OUT = os.path.join(VERIF, "out")
NPROC = 8
STALL = 90  # seconds one case may take before it counts as hanging


class Refused(Exception):
    """The harness is a program which keeps to the documented interface, and the library, which itself builds, makes
    the compiler refuse it. `args`: what was built, profile, the compiler's message"""


class CheckError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


# ---- environment and building ---------------------------------------------

_env = None


def env():
    """The toolchain pinned by the repository's build scripts."""
    global _env
    if _env is None:
        e = dict(os.environ)
        p = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True)
        for kv in p.stdout.decode().split("\0"):
            if "=" in kv:
                k, v = kv.split("=", 1)
                if k in ("HOME", "PATH") or k.startswith(("RUST", "CARGO")):
                    e[k] = v
        e["CARGO_INCREMENTAL"] = "0"
        e["CARGO_TARGET_DIR"] = TARGET
        e["CARGO_NET_OFFLINE"] = "true"
        e.pop("RUSTFLAGS", None)
        e["RUST_BACKTRACE"] = "0"
        _env = e
    return _env


def tree_hash(root):
    h = hashlib.sha256()
    for d, dirs, files in sorted(os.walk(root)):
        dirs[:] = sorted(x for x in dirs if x not in ("target", ".git", "node_modules"))
        for f in sorted(files):
            p = os.path.join(d, f)
            if f.endswith((".rs", ".toml", ".lock")):
                h.update(os.path.relpath(p, root).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


class Lock:
    def __enter__(self):
        os.makedirs(TARGET, exist_ok=True)
        self.f = open(os.path.join(TARGET, ".vlock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def fresh():
    """Cargo goes by file times; go by content as well, so that a change in
    /repo is never missed."""
    h = tree_hash(REPO)
    mark = os.path.join(TARGET, ".repo_hash")
    old = open(mark).read() if os.path.exists(mark) else None
    if old != h:
        if old is not None:
            for depth in ("*", "*/*", "*/*/*", "*/*/*/*"):
                for fp in glob.glob(os.path.join(TARGET, depth, ".fingerprint")):
                    for x in os.listdir(fp):
                        if re.match(r"(ser_raw|vlib|gen|mem-)", x):
                            shutil.rmtree(os.path.join(fp, x), ignore_errors=True)
            # Layout of a newer cargo
            for depth in ("miri/*/build/*", "miri/*/*/build/*", "*/build/*", "*/*/build/*"):
                for x in glob.glob(os.path.join(TARGET, "miri-*", depth)):
                    if re.match(r"(ser_raw\w*|mem)$", os.path.basename(x)):
                        shutil.rmtree(x, ignore_errors=True)
        with open(mark, "w") as f:
            f.write(h)


def cargo(args, cwd, timeout=1500, extra_env=None):
    e = dict(env())
    if extra_env:
        e.update(extra_env)
    try:
        p = subprocess.run(["cargo"] + args, cwd=cwd, env=e, capture_output=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("build timed out")
    return p.returncode, p.stdout.decode(errors="replace") + p.stderr.decode(errors="replace")


def profile_args(profile):
    return ["--release"] if profile == "release" else []


def build(bin_, profiles, crate="harness"):
    with Lock():
        fresh()
        with ThreadPoolExecutor(len(profiles)) as ex:
            def one(p):
                # Separate target dirs so that the profiles build side by side
                return cargo(["build", "--offline", "-q", "--bin", bin_] + profile_args(p),
                             os.path.join(VERIF, crate), extra_env={"CARGO_TARGET_DIR": tdir(p)})
            for p, (rc, o) in zip(profiles, ex.map(one, profiles)):
                if rc != 0:
                    refused(bin_, p, o)
                    raise CheckError("harness does not build (%s):\n%s" % (p, o[-6000:]))
    return {p: binary(bin_, p) for p in profiles}


def refused(what, profile, o):
    """Call with the lock held"""
    errors = [l for l in o.splitlines() if re.match(r"error(\[E\d+\])?: ", l) and not re.search(r"could not compile|aborting due|could not exec|linking with|failed to run|failed to write|No space|memory", l)]
    codes = [l for l in errors if re.match(r"error\[E\d+\]", l)]
    if not codes:
        return
    rc, _ = cargo(["build", "--offline", "-q", "-p", "ser_raw", "--lib"] + profile_args(profile), os.path.join(VERIF, "harness"), extra_env={"CARGO_TARGET_DIR": tdir(profile)})
    if rc == 0:
        i = o.find(codes[0])
        raise Refused(what, profile, o[i:i + 3000])


def build_lib(profiles):
    """The library of the harness only. Call with the lock held."""
    for p in profiles:
        rc, o = cargo(["build", "--offline", "-q", "--lib"] + profile_args(p), os.path.join(VERIF, "harness"), extra_env={"CARGO_TARGET_DIR": tdir(p)})
        if rc != 0:
            refused("lib", p, o)
            raise CheckError("harness does not build (%s):\n%s" % (p, o[-6000:]))


def tdir(profile):
    return os.path.join(TARGET, profile)


def binary(bin_, profile):
    return os.path.join(tdir(profile), profile, bin_)


def build_all():
    import specs
    bins = sorted({s["bin"] for s in specs.SPECS.values() if s.get("bin")})
    for b in bins:
        t = time.time()
        build(b, ["debug", "release"])
        log("built %s in %.1fs" % (b, time.time() - t))
    import memcheck
    t = time.time()
    memcheck.build()
    memcheck.build(memcheck.ELSEWHERE)
    memcheck.build(memcheck.CONFIGS)
    memcheck.build(memcheck.LAYOUTS)
    log("built mem in %.1fs" % (time.time() - t))


# ---- running --------------------------------------------------------------

def end(p):
    """With all it started"""
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass


def run(cmd, timeout, cwd=None):
    """(code, output): code 0 pass, 10 fail, <0 signal, 'timeout'"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=cwd, env=env(), start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o.decode(errors="replace")
    except subprocess.TimeoutExpired:
        end(p)
        o, _ = p.communicate()
        return "timeout", (o or b"").decode(errors="replace")


def describe(code, out):
    if code == "timeout":
        return "does not finish"
    if code == 10:
        for l in out.splitlines():
            if l.startswith("FAIL "):
                return l[5:]
        return "failed"
    if isinstance(code, int) and code < 0:
        try:
            return "process killed by %s" % signal.Signals(-code).name
        except ValueError:
            return "process killed by signal %d" % -code
    return "process exited with code %s" % code


def is_fail(code):
    return code != 0


class Worker:
    def __init__(self, exe, prop, seed, w, n, cases, tier, d):
        self.exe, self.prop, self.seed, self.w, self.n, self.cases, self.tier, self.d = exe, prop, seed, w, n, cases, tier, d
        os.makedirs(d, exist_ok=True)
        self.p = subprocess.Popen([exe, "work", prop, str(seed), str(w), str(n), str(cases), tier, d],
                                  stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env(), start_new_session=True)
        self.last = (None, time.time())
        self.hung = False

    def status(self):
        try:
            b = open("%s/st.%d" % (self.d, self.w), "rb").read(8)
            return struct.unpack("<Q", b)[0] if len(b) == 8 else None
        except OSError:
            return None

    def poll(self):
        rc = self.p.poll()
        if rc is not None:
            return rc
        st = self.status()
        if st != self.last[0]:
            self.last = (st, time.time())
        elif time.time() - self.last[1] > STALL:
            self.hung = True
            self.kill()
            self.p.wait()
            return "timeout"
        return None

    def kill(self):
        end(self.p)

    def result(self):
        r = {"evals": 0, "nontrivial": 0, "labels": {}, "samples": [], "fail": None, "hashes": b"", "done": False}
        try:
            for l in open("%s/res.%d" % (self.d, self.w), errors="replace").read().splitlines():
                k, _, v = l.partition(" ")
                if k == "EVALS":
                    r["evals"] = int(v)
                elif k == "NONTRIVIAL":
                    r["nontrivial"] = int(v)
                elif k == "LABEL":
                    n, _, name = v.partition(" ")
                    r["labels"][name] = int(n)
                elif k == "SAMPLE":
                    r["samples"].append(v)
                elif k == "FAIL":
                    i, _, m = v.partition(" ")
                    r["fail"] = (int(i), m)
                elif k == "DONE":
                    r["done"] = True
            r["hashes"] = open("%s/h.%d" % (self.d, self.w), "rb").read()
        except OSError:
            pass
        return r


def run_workers(exes, prop, seed, cases, tier, d):
    """exes: [(profile, exe)]. Returns (results, failure) where failure is
    (profile, exe, seed, worker object, idx, code, message)."""
    per = max(1, NPROC // len(exes))
    ws = []
    for k, (profile, exe) in enumerate(exes):
        for w in range(per):
            ws.append((profile, exe, Worker(exe, prop, seed + k * 1000003, w, per, cases, tier, os.path.join(d, profile))))
    pending = list(ws)
    codes = {}
    failed = None
    while pending:
        time.sleep(0.05)
        for x in list(pending):
            rc = x[2].poll()
            if rc is None:
                continue
            pending.remove(x)
            codes[id(x)] = rc
            if rc != 0 and failed is None:
                failed = x
                for y in pending:
                    y[2].kill()
    results = [x[2].result() for x in ws]
    if failed:
        profile, exe, wk = failed
        r = wk.result()
        code = codes[id(failed)]
        if r["fail"]:
            idx, msg = r["fail"]
        else:
            idx, msg = wk.status(), describe(code, "")
            if idx is None:
                raise CheckError("worker died before its first case: %s" % msg)
        return results, (profile, exe, wk.seed, wk, idx, code, msg)
    return results, None


# ---- confirming and shrinking ---------------------------------------------

def replay_log(exe, prop, logv, tier, d, k=0, timeout=STALL):
    f = os.path.join(d, "cand.%d" % k)
    with open(f, "w") as fh:
        fh.write("\n".join(map(str, logv)))
    return run([exe, "replay", prop, f, tier], timeout)


def shrink(exe, prop, logv, tier, d, budget=45):
    """Smaller draws, and fewer of them, that still fail. Candidates run in
    fresh processes, so crashes shrink as well."""
    end = time.time() + budget
    best = list(logv)
    while best and best[-1] == 0:
        best.pop()
    ex = ThreadPoolExecutor(NPROC)
    tried = set()

    def first(cands):
        """First failing candidate, tried NPROC at a time"""
        cands = [c for c in cands if tuple(c) not in tried]
        for i in range(0, len(cands), NPROC):
            if time.time() > end:
                return None
            batch = cands[i:i + NPROC]
            for c in batch:
                tried.add(tuple(c))
            res = list(ex.map(lambda kc: replay_log(exe, prop, kc[1], tier, d, kc[0], 20)[0], enumerate(batch)))
            for c, rc in zip(batch, res):
                if is_fail(rc):
                    return c
        return None

    progress = True
    while progress and time.time() < end:
        progress = False
        # Delete runs of draws
        size = max(1, len(best) // 2)
        while size >= 1 and time.time() < end:
            c = first([best[:i] + best[i + size:] for i in range(0, max(1, len(best) - size + 1), max(1, size // 2))])
            if c is not None and len(c) < len(best):
                best = c
                progress = True
            else:
                size //= 2
        # Make draws smaller
        for repl in (lambda v: 0, lambda v: v // 2, lambda v: v - 1):
            i = 0
            while i < len(best) and time.time() < end:
                idx = [j for j in range(i, min(len(best), i + NPROC)) if best[j] > 0]
                cands = [best[:j] + [repl(best[j])] + best[j + 1:] for j in idx]
                c = first([x for x in cands if x != best])
                if c is not None:
                    best = c
                    progress = True
                else:
                    i += NPROC
    ex.shutdown()
    while best and best[-1] == 0:
        best.pop()
    return best


def save_replay(prop, data):
    os.makedirs(os.path.join(OUT, "replay"), exist_ok=True)
    t = json.dumps(data, indent=1)
    p = os.path.join(OUT, "replay", "%s-%s.json" % (prop, hashlib.sha256(t.encode()).hexdigest()[:12]))
    with open(p, "w") as f:
        f.write(t)
    return p


def confirm(prop, spec_bin, fail, tier, d, extra=None, fn=None):
    """Turn a worker's failure into a replay file. Returns (path, message)."""
    if fn:
        extra = dict(extra or {}, fn=fn)
    prop, name = fn or prop, prop
    profile, exe, seed, wk, idx, code, msg = fail
    log("case %d of seed %d (%s) failed: %s" % (idx, seed, profile, msg))
    logf = os.path.join(d, "one.log")
    base = {"property": name, "bin": spec_bin, "profile": profile, "tier": tier, "seed": seed, "case": idx}
    base.update(extra or {})
    for attempt in range(3):
        rc, out = run([exe, "one", prop, str(seed), str(idx), tier, logf], STALL)
        if is_fail(rc):
            break
    else:
        # Depends on the cases before it
        log("does not fail on its own; running the worker's history again")
        w2 = Worker(exe, prop, seed, wk.w, wk.n, idx + 1, tier, os.path.join(d, "again"))
        while w2.poll() is None:
            time.sleep(0.05)
        rc2 = w2.p.returncode
        if rc2 == 0 and code != 10:
            raise CheckError("worker died (%s) and the failure does not come back" % msg)
        base.update({"mode": "work", "worker": wk.w, "workers": wk.n, "message": msg, "reproduced": rc2 != 0})
        return save_replay(name, base), msg
    msg = describe(rc, out)
    draws = [int(x) for x in open(logf).read().split()]
    log("shrinking %d draws" % len(draws))
    rc0, _ = replay_log(exe, prop, draws, tier, d)
    # (each replay of a big one takes gigabytes)
    if is_fail(rc0) and not fn:
        small = shrink(exe, prop, draws, tier, d)
        rc, out = replay_log(exe, prop, small, tier, d)
        if is_fail(rc):
            draws, msg = small, describe(rc, out)
    case = [l[5:] for l in out.splitlines() if l.startswith("CASE ")]
    base.update({"mode": "draws", "draws": draws, "message": msg, "case_shown": case[0] if case else None})
    log("shrunk to %d draws: %s" % (len(draws), msg))
    if case:
        log("case: %s" % case[0])
    return save_replay(name, base), msg


def replay(path):
    r = json.load(open(path))
    if r.get("mode") == "build":
        try:
            if r["what"] == "mem":
                import memcheck
                memcheck.build(("asan-" + r["profile"],))
            elif re.match(r"(i686|powerpc|s390x|with|lay\d+)-", r["what"]):
                import memcheck
                memcheck.build((r["what"],))
            elif r["what"] == "lib":
                with Lock():
                    fresh()
                    build_lib([r["profile"]])
            else:
                build(r["what"], [r["profile"]])
        except Refused as e:
            log("VIOLATION property=%s replay=%s" % (r["property"], path))
            log("does not compile: " + e.args[2])
            return 1
        log("passes now")
        return 0
    if r.get("mode") in ("program", "accept", "reject"):
        import programs
        return programs.replay(r, path)
    if r.get("gen"):
        import programs
        exe = programs.rebuild(r)
    elif r["bin"] == "mem":
        import memcheck
        exe = memcheck.build((r["profile"],))[r["profile"]]
        if exe is None:
            raise CheckError("no interpreter")
    else:
        exe = build(r["bin"], [r["profile"]])[r["profile"]]
    d = os.path.join(OUT, "replaying")
    os.makedirs(d, exist_ok=True)
    if r["mode"] == "work":
        w = Worker(exe, r.get("fn", r["property"]), r["seed"], r["worker"], r["workers"], r["case"] + 1, r["tier"], d)
        while w.poll() is None:
            time.sleep(0.05)
        rc, out = w.p.returncode, "FAIL " + str(w.result()["fail"])
    else:
        rc, out = replay_log(exe, r.get("fn", r["property"]), r["draws"], r["tier"], d)
    log(out)
    if is_fail(rc):
        log("VIOLATION property=%s replay=%s" % (r["property"], path))
        log(describe(rc, out))
        return 1
    log("passes now")
    return 0


# ---- checks ---------------------------------------------------------------

def room_for_big():
    """Each of these cases fills more than 4 GiB"""
    try:
        kb = int(re.search(r"MemAvailable:\s+(\d+)", open("/proc/meminfo").read()).group(1))
    except (OSError, AttributeError):
        return False
    return kb > 11 << 20


def big_cases(prop, spec, exes, tier, seed, d, total):
    """Single pieces of data of more than 4 GiB, one process at a time. Returns a path when one fails"""
    n = spec["big"] * (1 if tier == "quick" else 10)
    order = ["release", "debug"] if seed % 2 else ["debug", "release"]
    for k, profile in enumerate(order if tier != "quick" else order[:1]):
        if not room_for_big():
            log("not enough memory for data of more than 4 GiB")
            return None
        w = Worker(exes[profile], prop + "+big", seed + k, 0, 1, n, tier, os.path.join(d, "big"))
        while True:
            rc = w.poll()
            if rc is not None:
                break
            time.sleep(0.05)
        r = w.result()
        merge(total, [r])
        total["labels"]["data of more than 4 GiB in one piece"] = total["labels"].get("data of more than 4 GiB in one piece", 0) + r["evals"]
        if rc == -signal.SIGKILL:
            log("ran out of memory; going on without data of more than 4 GiB")
            return None
        if rc != 0:
            idx, msg = r["fail"] or (w.status(), describe(rc, ""))
            if idx is None:
                raise CheckError("worker died before its first case: %s" % msg)
            return confirm(prop, spec["bin"], (profile, exes[profile], w.seed, w, idx, rc, msg), tier, d, fn=prop + "+big")[0]
    return None


def merge(total, results):
    for r in results:
        total["evals"] += r["evals"]
        total["nontrivial"] += r["nontrivial"]
        for k, v in r["labels"].items():
            total["labels"][k] = total["labels"].get(k, 0) + v
        if len(total["samples"]) < 8:
            total["samples"] += r["samples"]
        h = r["hashes"]
        total["hashes"].update(struct.unpack("<%dQ" % (len(h) // 8), h))


def new_total():
    return {"evals": 0, "nontrivial": 0, "labels": {}, "samples": [], "hashes": set()}


def write_evidence(prop, tier, seed, total, rule, wall, violations, extra=None, assumptions=None):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    cov = {
        "evaluations": total["evals"],
        "distinct_nontrivial": len(total["hashes"]),
        "rule": rule,
        "samples": total["samples"][:8] or ["(no sample)"],
        "classes": dict(sorted(total["labels"].items())),
    }
    cov.update(extra or {})
    e = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": cov,
        "assumptions": assumptions or [],
        "wall_s": round(wall, 2),
        "violations": violations,
    }
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(e, f, indent=1)
        f.write("\n")


def check(prop):
    t0 = time.time()
    try:
        return check_(prop)
    except Refused as e:
        import specs
        what, profile, msg = e.args
        path = save_replay(prop, {"property": prop, "mode": "build", "what": what, "profile": profile, "message": msg})
        tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
        write_evidence(prop, tier, int(os.environ.get("VERIF_SEED", "1")), new_total(), specs.SPECS[prop]["rule"], time.time() - t0, 1, assumptions=specs.ASSUMPTIONS)
        log("a program which keeps to the documented interface does not compile: " + msg)
        log("VIOLATION property=%s replay=%s" % (prop, path))
        return 1


def check_(prop):
    import specs
    spec = specs.SPECS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if spec.get("special") in ("mem_check", "elsewhere_check", "configs_check", "layouts_check"):
        import memcheck
        return getattr(memcheck, spec["special"])(prop, spec, tier, seed)
    if spec.get("special"):
        import programs
        return getattr(programs, spec["special"])(prop, spec, tier, seed)
    t0 = time.time()
    profiles = ["release", "debug"]
    exes = build(spec["bin"], profiles)
    log("%s: built in %.1fs" % (prop, time.time() - t0))
    d = os.path.join(OUT, "work", prop)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    total = new_total()
    path = None
    rounds = 0
    limit = spec.get("thorough_s", 600)
    if spec.get("big"):
        path = big_cases(prop, spec, exes, tier, seed, d, total)
    t1 = time.time()
    while not path:
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        results, fail = run_workers([(p, exes[p]) for p in profiles], prop, seed + rounds * 7919, spec["cases"] * (1 if tier == "quick" else 4), tier, d)
        merge(total, results)
        rounds += 1
        if fail:
            path, msg = confirm(prop, spec["bin"], fail, tier, d)
            break
        if tier == "quick" or time.time() - t1 > limit:
            break
    write_evidence(prop, tier, seed, total, spec["rule"], time.time() - t0, 1 if path else 0, assumptions=specs.ASSUMPTIONS)
    log("%s: %d cases, %d non-trivial (%d distinct), %.1fs" % (prop, total["evals"], total["nontrivial"], len(total["hashes"]), time.time() - t0))
    shutil.rmtree(d, ignore_errors=True)
    if path:
        log("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if total["evals"] == 0 or len(total["hashes"]) == 0:
        raise CheckError("nothing was explored")
    return 0
