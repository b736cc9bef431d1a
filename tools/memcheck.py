"""C24: the same generated cases under Miri (an interpreter which knows what memory may be accessed and how) and,
many more of them, under AddressSanitizer. C25: cases on platforms with other word sizes and byte orders, which Miri
can interpret too. C26: with other features and profiles. C27: with types laid out in other ways."""
import glob, os, re, shutil, subprocess, tarfile, threading, time
from concurrent.futures import ThreadPoolExecutor
import specs, vrun
from vrun import CheckError, Lock, log

MEM = os.path.join(vrun.VERIF, "mem")
MIRI = os.path.join(vrun.TARGET, "miri")
NIGHTLY = "nightly"
# Word size, byte order and alignments all vary (on i686, u64 and f64 are aligned to 4)
PLATFORMS = {"miri": None, "i686": "i686-unknown-linux-gnu", "powerpc": "powerpc-unknown-linux-gnu", "s390x": "s390x-unknown-linux-gnu"}
# What is undefined, but not how the aliasing models differ; addresses made from integers are the library's business
MIRIFLAGS = "-Zmiri-disable-isolation -Zmiri-permissive-provenance -Zmiri-tree-borrows"

WRAP = r"""#!/bin/bash
# Runs a case or more; says what the watcher said
e=$(mktemp %(dir)s/err.XXXXXX)
%(run)s 2>"$e"
rc=$?
if [ $rc != 0 ] && [ $rc != 10 ]; then
  m=$(grep -aE -m1 'error: Undefined Behavior|error: memory leaked|error: deadlock|ERROR: AddressSanitizer' "$e")
  if [ -n "$m" ]; then
    at=$(grep -aE -m40 -o '(/repo/|ser_raw[a-z_]*/src/)[^ ]*:[0-9]+' "$e" | head -1)
    echo "FAIL $m${at:+ at $at}"; rc=10
  elif grep -aqE 'unsupported operation|error: could not compile|error: abnormal' "$e"; then
    rc=%(dunno)d
  fi
  [ $rc = 10 ] || cp "$e" %(dir)s/last_error
fi
rm -f "$e"
exit $rc
"""
DUNNO = 77
HERE = ("asan-debug", "asan-release", "miri-debug", "miri-release")


def write(path, text):
    if not os.path.exists(path) or open(path).read() != text:
        with open(path, "w") as f:
            f.write(text)


def miri_env():
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUSTC", "RUSTDOC", "RUSTUP_TOOLCHAIN", "RUSTFLAGS"))}
    e["PATH"] = vrun.env()["PATH"]
    e["HOME"] = vrun.env().get("HOME", "/root")
    e["MIRIFLAGS"] = MIRIFLAGS
    e["RUSTFLAGS"] = "-Awarnings"
    e["CARGO_NET_OFFLINE"] = "true"
    return e


def prepare():
    """A copy of the crate whose dependencies come from a directory: a new enough cargo looks for crates elsewhere than
    the pinned one, and a new enough compiler needs a newer proc-macro2"""
    want = re.findall(r'name = "([^"]+)"\nversion = "([^"]+)"\nsource', open(os.path.join(MEM, "Cargo.miri.lock")).read())
    if not want:
        want = [(n, v) for n, v in re.findall(r'name = "([^"]+)"\nversion = "([^"]+)"', open(os.path.join(MEM, "Cargo.miri.lock")).read())
                if not n.startswith("ser_raw") and n != "mem"]
    vend = os.path.join(MIRI, "vendor")
    for n, v in want:
        d = os.path.join(vend, "%s-%s" % (n, v))
        if os.path.exists(d + "/.cargo-checksum.json"):
            continue
        c = glob.glob(os.path.join(miri_env()["HOME"], ".cargo/registry/cache/*/%s-%s.crate" % (n, v)))
        if not c:
            raise CheckError("no %s-%s" % (n, v))
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(vend, exist_ok=True)
        with tarfile.open(c[0]) as t:
            t.extractall(vend)
        write(d + "/.cargo-checksum.json", '{"files":{}}')
    # Those of the standard library, should it be built anew
    home = subprocess.run(["rustc", "+" + NIGHTLY, "--print", "sysroot"], cwd="/", env=miri_env(), capture_output=True).stdout.decode().strip()
    for c in glob.glob(os.path.join(home, "lib/rustlib/src/rust/library/vendor/*")):
        to = os.path.join(vend, os.path.basename(c))
        if not os.path.lexists(to):
            os.symlink(c, to)
    os.makedirs(os.path.join(MIRI, ".cargo"), exist_ok=True)
    write(os.path.join(MIRI, ".cargo/config.toml"), '[source.crates-io]\nreplace-with = "v"\n[source.v]\ndirectory = "%s"\n' % vend)
    write(os.path.join(MIRI, "Cargo.toml"), open(os.path.join(MEM, "Cargo.miri.toml")).read())
    write(os.path.join(MIRI, "Cargo.lock"), open(os.path.join(MEM, "Cargo.miri.lock")).read())
    os.makedirs(os.path.join(MIRI, "src"), exist_ok=True)
    for f in os.listdir(os.path.join(MEM, "src")):
        t = open(os.path.join(MEM, "src", f)).read()
        write(os.path.join(MIRI, "src", f), t.replace("../../harness/src/engine.rs", os.path.join(vrun.VERIF, "harness/src/engine.rs")))


def script(name, run):
    p = os.path.join(vrun.TARGET, "run-" + name)
    os.makedirs(os.path.join(vrun.TARGET, "err"), exist_ok=True)
    write(p, WRAP % {"dir": os.path.join(vrun.TARGET, "err"), "run": run, "dunno": DUNNO})
    os.chmod(p, 0o755)
    return p


SYSROOTS = {}
ONE = {t: threading.Lock() for t in PLATFORMS.values() if t}


def sysroot(target):
    with ONE[target]:
        if target not in SYSROOTS:
            SYSROOTS[target] = build_sysroot(target)
        return SYSROOTS[target]


def build_sysroot(target):
    """Standard library for another platform"""
    cache = os.path.join(vrun.TARGET, "sysroot", target)
    e = miri_env()
    e["XDG_CACHE_HOME"] = cache
    # (not from a directory with a cargo configuration of ours)
    try:
        p = subprocess.run(["cargo", "+" + NIGHTLY, "miri", "setup", "--target", target], cwd="/", env=e, capture_output=True, timeout=600)
    except subprocess.TimeoutExpired:
        return None, "timed out"
    if p.returncode != 0:
        return None, p.stderr.decode(errors="replace")[-1500:]
    return os.path.join(cache, "miri"), ""


def build_miri(tool, profile):
    """None, if the interpreter cannot be used"""
    target = PLATFORMS[tool]
    name = "%s-%s" % (tool, profile)
    rel = " --release" if profile == "release" else ""
    td = os.path.join(vrun.TARGET, name if not target else "miri-" + name)
    e = miri_env()
    keys = ["PATH", "HOME", "MIRIFLAGS", "RUSTFLAGS", "CARGO_NET_OFFLINE"]
    if target:
        e["MIRI_SYSROOT"], why = sysroot(target)
        if not e["MIRI_SYSROOT"]:
            return None, why
        keys.append("MIRI_SYSROOT")
        rel += " --target " + target
    keep = " ".join("%s='%s'" % (k, e[k]) for k in keys)
    exe = script(name, "cd %s && env -i %s CARGO_TARGET_DIR=%s cargo +%s miri run --offline -q%s -- \"$@\"" % (MIRI, keep, td, NIGHTLY, rel))
    last = os.path.join(vrun.TARGET, "err/last_error")
    try:
        p = subprocess.run([exe, "list"], capture_output=True, timeout=600)
    except subprocess.TimeoutExpired:
        return None, "timed out"
    if p.returncode != 0 or b"C24" not in p.stdout:
        try:
            why = open(last, errors="replace").read()
        except OSError:
            why = p.stdout.decode(errors="replace")[-500:]
        if target and re.search(r"error: could not compile `(ser_raw|mem)", why):
            # The library's doing, if it does compile for this platform with the same tools
            host, _ = build_miri("miri", profile)
            if host:
                raise vrun.Refused(name, profile, "for %s:\n%s" % (target, why[:3000]))
        return None, why[-1500:]
    return exe, ""


def build_asan(profile):
    td = os.path.join(vrun.TARGET, "asan-" + profile)
    rc, o = vrun.cargo(["build", "--offline", "-q", "--target", "x86_64-unknown-linux-gnu"] + vrun.profile_args(profile), MEM,
                       extra_env={"CARGO_TARGET_DIR": td, "RUSTFLAGS": "-Zsanitizer=address --cap-lints=allow"})
    if rc != 0:
        vrun.refused("mem", profile, o)
        raise CheckError("does not build (%s):\n%s" % (profile, o[-4000:]))
    return script("asan-" + profile, "ASAN_OPTIONS=detect_leaks=0:allocator_may_return_null=1 %s/x86_64-unknown-linux-gnu/%s/mem \"$@\"" % (td, profile))


FEATURES = {"none": [], "derive": ["derive"], "bigint": ["num_bigint"], "all": ["derive", "num_bigint"]}
CONFIGS = ("with-none-o3", "with-none-dev", "with-derive-os", "with-derive-o3", "with-bigint-o3", "with-bigint-dev", "with-all-o3", "with-all-os")
CONFIGS_TOO = ("with-none-os", "with-derive-dev", "with-bigint-os", "with-all-dev")


def build_with(name):
    """For one combination of features and profile"""
    _, features, profile = name.split("-")
    td = os.path.join(vrun.TARGET, "mem-" + name)
    cmd = ["build", "--offline", "-q", "--profile", profile, "--no-default-features"]
    if FEATURES[features]:
        cmd += ["--features", ",".join(FEATURES[features])]
    rc, o = vrun.cargo(cmd, MEM, extra_env={"CARGO_TARGET_DIR": td})
    if rc != 0:
        # The library's doing, if it does compile with the features its own tests are run with
        if re.search(r"error(\[E\d+\])?: ", o) and re.search(r"could not compile `(ser_raw\w*|mem)`", o) and features != "all":
            rc2, _ = vrun.cargo(["build", "--offline", "-q", "--profile", profile], MEM, extra_env={"CARGO_TARGET_DIR": td})
            if rc2 == 0:
                i = o.find("error")
                raise vrun.Refused(name, profile, "with features %s:\n%s" % (FEATURES[features], o[i:i + 3000]))
        if features == "all":
            vrun.refused("mem", "debug" if profile == "dev" else "release", o)
        raise CheckError("does not build (%s):\n%s" % (name, o[-4000:]))
    return os.path.join(td, {"dev": "debug"}.get(profile, profile), "mem")


# (each number is a seed for the order of fields; these four also are four orders of what makes up a vector)
LAYOUTS = ("lay1-debug", "lay4-release", "lay6-release", "lay9-release")
LAYOUTS_TOO = ("lay1-release", "lay2-release", "lay6-debug", "lay11-release")


def build_lay(name):
    """For memory laid out by chance: the compiler orders the fields of types differently, those of the standard
    library (which is built anew) and its dependencies' too"""
    tool, profile = name.split("-")
    td = os.path.join(vrun.TARGET, "miri-" + name)
    e = miri_env()
    e["CARGO_TARGET_DIR"] = td
    e["RUSTFLAGS"] = "-Awarnings -Zrandomize-layout -Zlayout-seed=" + tool[3:]
    try:
        p = subprocess.run(["cargo", "+" + NIGHTLY, "build", "--offline", "-q", "-Zbuild-std", "--target", "x86_64-unknown-linux-gnu"] + vrun.profile_args(profile),
                           cwd=MIRI, env=e, capture_output=True, timeout=700)
    except subprocess.TimeoutExpired:
        return None, "timed out"
    if p.returncode != 0:
        why = p.stderr.decode(errors="replace")
        if re.search(r"error: could not compile `(ser_raw|mem)", why):
            # The library's doing, if it does compile with the same tools where layouts are the usual
            host, _ = build_miri("miri", profile)
            if host:
                raise vrun.Refused(name, profile, "with types laid out otherwise:\n%s" % why[:3000])
        return None, why[-1500:]
    return os.path.join(td, "x86_64-unknown-linux-gnu", profile, "mem"), ""


def build(which=HERE):
    """name -> runnable (None if it cannot be had)"""
    with Lock():
        vrun.fresh()
        try:
            if not all(n.startswith(("asan", "with")) for n in which):
                prepare()
            miri = True
        except (CheckError, OSError, tarfile.TarError) as e:
            log("no interpreter: %s" % e)
            miri = False

        def one(name):
            if name.startswith("with-"):
                return build_with(name)
            tool, profile = name.split("-")
            if tool == "asan":
                return build_asan(profile)
            if not miri:
                return None
            exe, why = (build_lay(name) if tool.startswith("lay") else build_miri(tool, profile))
            if exe is None:
                log("no interpreter (%s): %s" % (name, why))
            return exe
        with ThreadPoolExecutor(len(which)) as ex:
            return dict(zip(which, ex.map(one, which)))


ELSEWHERE = ("i686-debug", "i686-release", "powerpc-release", "s390x-debug")
ELSEWHERE_TOO = ("powerpc-debug", "s390x-release")


def elsewhere_check(prop, spec, tier, seed):
    """C25"""
    t0 = time.time()
    exes = build(ELSEWHERE if tier == "quick" else ELSEWHERE + ELSEWHERE_TOO)
    if not all(exes.values()):
        # (built here only where others cannot be)
        exes.update(build(("asan-debug", "asan-release")))
    log("%s: built in %.1fs" % (prop, time.time() - t0))
    d = os.path.join(vrun.OUT, "work", prop)
    total = vrun.new_total()
    per = {}
    path = None
    rounds = 0
    t1 = time.time()
    while True:
        names = [n for n in exes if exes[n]]
        if not names:
            break
        if rounds and rounds % 2 and tier != "quick":
            names = names[::-1]
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        results, fail = vrun.run_workers([(n, exes[n]) for n in names], prop, seed + rounds * 7919, spec["miri"], tier, d)
        if fail and fail[5] == DUNNO:
            log("the interpreter does not know something the code does; going on without it")
            for n in names:
                if not n.startswith("asan"):
                    exes[n] = None
            if not any(exes.values()):
                exes.update(build(("asan-debug", "asan-release")))
            continue
        vrun.merge(total, results)
        each = len(results) // len(names)
        for i, n in enumerate(names):
            per[n] = per.get(n, 0) + sum(r["evals"] for r in results[i * each:(i + 1) * each])
        rounds += 1
        if fail:
            path, msg = vrun.confirm(prop, "mem", fail, tier, d)
            break
        if tier == "quick" or time.time() - t1 > 600:
            break
    vrun.write_evidence(prop, tier, seed, total, spec["rule"], time.time() - t0, 1 if path else 0,
                        extra={"cases_per_platform": per}, assumptions=specs.ASSUMPTIONS)
    log("%s: %d cases (%s), %d non-trivial (%d distinct), %.1fs" % (prop, total["evals"], per, total["nontrivial"], len(total["hashes"]), time.time() - t0))
    shutil.rmtree(d, ignore_errors=True)
    if path:
        log("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if total["evals"] == 0:
        raise CheckError("nothing was explored")
    return 0


def configs_check(prop, spec, tier, seed):
    """C26"""
    return several(prop, spec, tier, seed, CONFIGS if tier == "quick" else CONFIGS + CONFIGS_TOO)


def layouts_check(prop, spec, tier, seed):
    """C27"""
    return several(prop, spec, tier, seed, LAYOUTS if tier == "quick" else LAYOUTS + LAYOUTS_TOO)


def several(prop, spec, tier, seed, names):
    t0 = time.time()
    exes = {n: e for n, e in build(names).items() if e}
    if not exes:
        # (as usual only, where nothing else can be had)
        exes = build(("asan-debug", "asan-release"))
    names = list(exes)
    shown = {n: re.sub(r"^with-", "", n) for n in names}
    for n in names:
        if n.startswith("lay"):
            p = subprocess.run([exes[n], "layout"], capture_output=True)
            shown[n] = "%s (%s)" % (n, p.stdout.decode(errors="replace").strip())
    log("%s: built in %.1fs" % (prop, time.time() - t0))
    d = os.path.join(vrun.OUT, "work", prop)
    total = vrun.new_total()
    per = {}
    path = None
    rounds = 0
    t1 = time.time()
    while not path:
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        results, fail = vrun.run_workers([(n, exes[n]) for n in names], prop, seed + rounds * 7919, spec["cases"], tier, d)
        vrun.merge(total, results)
        each = len(results) // len(names)
        for i, n in enumerate(names):
            per[shown[n]] = per.get(shown[n], 0) + sum(r["evals"] for r in results[i * each:(i + 1) * each])
        rounds += 1
        if fail:
            path, msg = vrun.confirm(prop, "mem", fail, tier, d)
        if tier == "quick" or time.time() - t1 > 600:
            break
    vrun.write_evidence(prop, tier, seed, total, spec["rule"], time.time() - t0, 1 if path else 0,
                        extra={"cases_per_configuration": per}, assumptions=specs.ASSUMPTIONS)
    log("%s: %d cases, %d non-trivial (%d distinct), %.1fs" % (prop, total["evals"], total["nontrivial"], len(total["hashes"]), time.time() - t0))
    shutil.rmtree(d, ignore_errors=True)
    if path:
        log("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0


def mem_check(prop, spec, tier, seed):
    t0 = time.time()
    exes = build()
    log("%s: built in %.1fs" % (prop, time.time() - t0))
    d = os.path.join(vrun.OUT, "work", prop)
    total = vrun.new_total()
    per = {}
    path = None
    rounds = 0
    t1 = time.time()
    while True:
        for tool, cases in (("asan", spec["cases"]), ("miri", spec["miri"])):
            names = [n for n in exes if n.startswith(tool) and exes[n]]
            if not names:
                continue
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            results, fail = vrun.run_workers([(n, exes[n]) for n in names], prop, seed + rounds * 7919 + (5 if tool == "miri" else 0),
                                             cases * (1 if tier == "quick" else 4) // 2 * (2 // len(names)), tier, d)
            if fail and fail[5] == DUNNO:
                log("the interpreter does not know something the code does; going on without it")
                for n in names:
                    exes[n] = None
                fail = None
            before = total["evals"]
            vrun.merge(total, results)
            per[tool] = per.get(tool, 0) + total["evals"] - before
            if fail:
                path, msg = vrun.confirm(prop, "mem", fail, tier, d)
                break
        rounds += 1
        if path or tier == "quick" or time.time() - t1 > 600:
            break
    vrun.write_evidence(prop, tier, seed, total, spec["rule"], time.time() - t0, 1 if path else 0,
                        extra={"cases_under_address_sanitizer": per.get("asan", 0), "cases_interpreted": per.get("miri", 0)}, assumptions=specs.ASSUMPTIONS)
    log("%s: %d cases (%s), %d non-trivial (%d distinct), %.1fs" % (prop, total["evals"], per, total["nontrivial"], len(total["hashes"]), time.time() - t0))
    shutil.rmtree(d, ignore_errors=True)
    if path:
        log("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if total["evals"] == 0:
        raise CheckError("nothing was explored")
    return 0
