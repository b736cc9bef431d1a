"""Checks whose inputs are whole programs: C12, C15 (types), C13 (serializers),
C16 (configurations which must or must not compile), C23 (definitions which must or must not)."""
import copy, hashlib, json, os, re, shutil, sys, time
from concurrent.futures import ThreadPoolExecutor

import vrun
import sergen
import typegen
from vrun import CheckError, OUT, VERIF, Lock, cargo, fresh, log, profile_args, tdir

CARGO = """[package]
name = "%s"
version = "0.1.0"
edition = "2021"

[workspace]

[dependencies]
vlib = { path = "%s/harness" }
ser_raw = { path = "/repo/ser_raw", features = ["num_bigint"] }
num-bigint = "=0.4.3"

[profile.dev]
opt-level = 1
debug = 0
incremental = false
codegen-units = 16

[profile.release]
opt-level = 1
debug = 0
incremental = false
codegen-units = 16
"""


class Crate:
    """A crate of generated programs, one per binary"""

    def __init__(self, name):
        assert name.startswith("gen")
        self.name = name
        self.dir = os.path.join(OUT, "gen", name)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(os.path.join(self.dir, "src", "bin"))
        with open(os.path.join(self.dir, "Cargo.toml"), "w") as f:
            f.write(CARGO % (name, VERIF))
        shutil.copy(os.path.join(VERIF, "harness", "Cargo.lock"), self.dir)

    def write(self, bin_, source):
        with open(os.path.join(self.dir, "src", "bin", bin_ + ".rs"), "w") as f:
            f.write(source)

    def build(self, bins, profile, timeout=900):
        """Compiler output if it fails, None if it works. Call with the lock held."""
        a = ["build", "--offline", "-q"] + profile_args(profile)
        for b in bins:
            a += ["--bin", b]
        rc, o = cargo(a, self.dir, timeout, {"CARGO_TARGET_DIR": tdir(profile)})
        return None if rc == 0 else o

    def exe(self, bin_, profile):
        return os.path.join(tdir(profile), profile, bin_)

    def remove(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def build_both(crate, bins):
    """{profile: compiler output or None}"""
    with ThreadPoolExecutor(2) as ex:
        ps = ["release", "debug"]
        return dict(zip(ps, ex.map(lambda p: crate.build(bins, p), ps)))


def first_error(o):
    """First error and a few lines after it"""
    ls = o.splitlines()
    for i, l in enumerate(ls):
        if l.startswith("error"):
            return "\n".join(ls[i:i + 14])
    return "\n".join(ls[:14])


def one_line(o):
    for l in o.splitlines():
        if l.startswith("error"):
            return l
    return (o.splitlines() or ["compiler failed"])[0]


def error_lines(o, bin_):
    return [int(x) for x in re.findall(r"src/bin/%s\.rs:(\d+):" % re.escape(bin_), o)]


# ---- C12, C15: types --------------------------------------------------------

def deps(types, ids):
    """`ids` and all they refer to, in order"""
    by = {t["id"]: t for t in types}
    need = set()

    def see(ty):
        if ty[0] == "ref":
            add(ty[1])
        for x in ty[1:]:
            if isinstance(x, list):
                if x and isinstance(x[0], str) and x[0] in typegen.TAGS:
                    see(x)
                else:
                    for y in x:
                        if isinstance(y, list):
                            see(y)

    def add(i):
        if i in need:
            return
        need.add(i)
        t = by[i]
        for f in (t["fields"] if t["kind"] != "enum" else [f for v in t["variants"] for f in v["fields"]]):
            see(f["ty"])

    for i in ids:
        add(i)
    return [t for t in types if t["id"] in need]


def smaller(types, root):
    """Ways to take something off the program"""
    t = next(x for x in types if x["id"] == root)
    others = [x for x in types if x["id"] != root]

    def out(t2):
        return deps(others + [t2], [root])
    for i in range(len(t["attrs"])):
        t2 = copy.deepcopy(t)
        del t2["attrs"][i]
        yield out(t2)
    if t["ctx"] != "plain":
        t2 = copy.deepcopy(t)
        t2["ctx"] = "plain"
        yield out(t2)
    if t["style"] != "abs":
        t2 = copy.deepcopy(t)
        t2["style"] = "abs"
        yield out(t2)
    if t["bound"]:
        t2 = copy.deepcopy(t)
        t2["bound"] = None
        yield out(t2)
    if len(t["inst"]) > 1:
        t2 = copy.deepcopy(t)
        t2["inst"] = t2["inst"][:1]
        yield out(t2)

    def fields_less(fs):
        for i in range(len(fs)):
            g = copy.deepcopy(fs)
            del g[i]
            for k, f in enumerate(g):
                if f["name"].isdigit():
                    f["name"] = str(k)
            yield g
        for i in range(len(fs)):
            if fs[i]["ty"] != ["prim", "u8"] and not fs[i].get("cfgd") and not fs[i]["with"]:
                g = copy.deepcopy(fs)
                g[i]["ty"], g[i]["rec"] = ["prim", "u8"], False
                yield g
            if fs[i]["ty"] not in (["prim", "u8"], ["Box", ["prim", "u8"]]) and not fs[i].get("cfgd") and not fs[i]["with"]:
                g = copy.deepcopy(fs)
                g[i]["ty"], g[i]["rec"] = ["Box", ["prim", "u8"]], False
                yield g
            if fs[i]["with"]:
                g = copy.deepcopy(fs)
                g[i]["with"] = None
                yield g
    if t["kind"] == "enum":
        for i in range(len(t["variants"])):
            if len(t["variants"]) > 1:
                t2 = copy.deepcopy(t)
                del t2["variants"][i]
                yield out(t2)
        for i, v in enumerate(t["variants"]):
            for g in fields_less(v["fields"]):
                t2 = copy.deepcopy(t)
                t2["variants"][i]["fields"] = g
                yield out(t2)
    else:
        for g in fields_less(t["fields"]):
            t2 = copy.deepcopy(t)
            t2["fields"] = g
            yield out(t2)


def valid(types):
    """Recursive types must have a way to end"""
    for t in types:
        if t["kind"] == "enum":
            vs = [v for v in t["variants"] if not v.get("cfgd") and not v.get("never")]
            if vs and all(any(f["rec"] for f in v["fields"]) for v in vs):
                return False
            if not vs and t["generics"]:
                return False
    return True


def sized(types):
    return sum(1 + len(json.dumps(t)) for t in types)


def reduce_program(b, types, root, fails, budget):
    """Greedy reduction, NPROC candidates at a time. `fails(list of programs)`
    tells which fail."""
    end = time.time() + budget
    best = types
    again = True
    while again and time.time() < end:
        again = False
        cands = b.candidates(best, root)
        n = 6
        for i in range(0, len(cands), n):
            if time.time() > end:
                break
            batch = cands[i:i + n]
            for c, bad in zip(batch, fails(batch)):
                if bad:
                    best = c
                    again = True
                    break
            if again:
                break
    return best


class Types:
    """The programs of one batch"""

    def __init__(self, prop, seeds, ntypes):
        self.prop = prop
        self.proxies = prop == "C15"
        self.crate = Crate("gen_" + prop.lower())
        self.progs = []
        for k, seed in enumerate(seeds):
            g = typegen.Gen("%s-%s" % (prop, seed), self.proxies)
            for _ in range(ntypes):
                g.new()
            self.progs.append(("gen_%s_%d" % (prop.lower(), k), seed, g.types))

    def emit(self, bin_, types, control=False):
        s, lines = typegen.Emit(types, self.proxies, control).source(self.prop)
        self.crate.write(bin_, s)
        return s, lines

    deps = staticmethod(deps)
    kinds = staticmethod(lambda types: kinds(types))

    @staticmethod
    def candidates(types, root):
        return [c for c in smaller(types, root) if sized(c) < sized(types) and valid(c)]


class Serializers:
    """The same for C13"""

    def __init__(self, prop, seeds, n):
        self.prop = prop
        self.crate = Crate("gen_" + prop.lower())
        self.progs = []
        for k, seed in enumerate(seeds):
            g = sergen.Gen(seed)
            for _ in range(n):
                g.new()
            self.progs.append(("gen_%s_%d" % (prop.lower(), k), seed, g.defs))

    def emit(self, bin_, defs, control=False):
        s, lines = sergen.source(defs, self.prop, control)
        self.crate.write(bin_, s)
        return s, lines

    kinds = staticmethod(sergen.kinds)

    @staticmethod
    def deps(defs, ids):
        return [d for d in defs if d["id"] in ids]

    @staticmethod
    def candidates(defs, root):
        return [c for c in sergen.smaller(defs, root) if sergen.size(c) < sergen.size(defs)]


def without_ill_formed(b, bin_, types, lines, profile, o):
    """Leave out definitions which are no good whoever implements the traits. The generator should not produce
    any, and they say nothing about the library. Returns the definitions left and what the compiler says of them."""
    for _ in range(6):
        clines = b.emit(bin_ + "c", types, control=True)[1]
        oc = b.crate.build([bin_ + "c"], profile)
        if oc is None:
            return types, o
        bad = {i for n in error_lines(oc, bin_ + "c") for i, (lo, hi) in clines.items() if lo <= n <= hi}
        left = [t for t in types if not bad & {x["id"] for x in b.deps(types, [t["id"]])}]
        log("left out %d ill-formed definitions of %d: %s" % (len(types) - len(left), len(types), one_line(oc)))
        if not bad or not left or len(left) == len(types):
            break
        types = left
        lines[bin_] = b.emit(bin_, types)[1]
        o = b.crate.build([bin_], profile)
        if o is None:
            return types, None
    raise CheckError("generated program does not compile even with hand-written implementations:\n" + first_error(oc))


def types_compile_failure(b, bin_, types, lines, profile, o):
    """The derive did not accept the program, or did it?"""
    prop = b.prop
    cbin = bin_ + "c"
    b.emit(cbin, types, control=True)
    oc = b.crate.build([cbin], profile)
    if oc is not None:
        raise CheckError("generated program does not compile even with hand-written implementations:\n" + first_error(oc))
    bad = []
    for n in error_lines(o, bin_):
        for i, (lo, hi) in lines.items():
            if lo <= n <= hi and i not in bad:
                bad.append(i)
    best, msg = types, one_line(o)
    for root in bad[:4]:
        cand = b.deps(types, [root])

        def fails(progs):
            names = []
            for k, p in enumerate(progs):
                names += ["gen_r%d" % k, "gen_r%dc" % k]
                b.emit("gen_r%d" % k, p)
                b.emit("gen_r%dc" % k, p, control=True)
            b.crate.build(names, profile)
            with ThreadPoolExecutor(8) as ex:
                ok = dict(zip(names, ex.map(lambda n: b.crate.build([n], profile) is None, names)))
            return [not ok["gen_r%d" % k] and ok["gen_r%dc" % k] for k in range(len(progs))]
        if fails([cand])[0]:
            best = reduce_program(b, cand, root, fails, 60)
            break
    src, _ = b.emit("gen_r0", best)
    msg = one_line(b.crate.build(["gen_r0"], profile) or o)
    csrc, _ = b.emit("gen_r0c", best, control=True)
    return vrun.save_replay(prop, {"property": prop, "mode": "program", "profile": profile, "message": msg, "source": src, "control": csrc}), msg


def types_run_failure(b, bin_, types, fail, tier, d):
    """Reduce the program, then the draws"""
    prop = b.prop
    profile, exe, seed, wk, idx, code, msg = fail
    lg = os.path.join(d, "one.log")
    vrun.run([exe, "one", prop, str(seed), str(idx), tier, lg], vrun.STALL)
    rc, out = vrun.run([exe, "replay", prop, lg, tier], vrun.STALL)
    m = re.search(r"::m(\d+)::", " ".join(l for l in out.splitlines() if l.startswith("CASE")) or out)
    src, _ = b.emit(bin_, types)
    gen = {"bin": bin_, "source": src}
    if m:
        root = int(m.group(1))
        cand = b.deps(types, [root])

        def fails(progs, keep=None):
            names = []
            for k, p in enumerate(progs):
                names.append("gen_r%d" % k)
                b.emit(names[-1], p)
            b.crate.build(names, profile)

            def one(n):
                if b.crate.build([n], profile) is not None:
                    return None
                dd = os.path.join(d, "red_" + n)
                shutil.rmtree(dd, ignore_errors=True)
                os.makedirs(dd)
                w = vrun.Worker(b.crate.exe(n, profile), prop, 1, 0, 1, 20000, tier, dd)
                while w.poll() is None:
                    time.sleep(0.02)
                r = w.result()
                if w.p.returncode == 0:
                    return None
                return (w, r["fail"][0] if r["fail"] else w.status())
            with ThreadPoolExecutor(8) as ex:
                return list(ex.map(one, names))
        best = None
        try:
            if fails([cand])[0]:
                best = reduce_program(b, cand, root, fails, 60)
        except Exception as e:  # The failure stands, reduced or not
            log("reduction stopped: %r" % e)
        if best is not None:
            f = fails([best])[0]
            if f and f[1] is not None:
                src, _ = b.emit("gen_r0", best)
                gen = {"bin": "gen_r0", "source": src}
                w = f[0]
                fail = (profile, b.crate.exe("gen_r0", profile), 1, w, f[1], w.p.returncode, msg)
    return vrun.confirm(prop, gen["bin"], fail, tier, d, {"gen": gen})


def kinds(types):
    n = {}
    for t in types:
        for k in ([t["kind"], "context: " + t["ctx"]] + (["generic"] if t["generics"] else []) + (["explicit discriminants"] if any(v["disc"] is not None for v in t.get("variants", [])) else [])
                  + (["repr"] if any("repr" in a for a in t["attrs"]) else [])):
            n[k] = n.get(k, 0) + 1
        fs = t["fields"] if t["kind"] != "enum" else [f for v in t["variants"] for f in v["fields"]]
        n["fields"] = n.get("fields", 0) + len(fs)
        n["variants"] = n.get("variants", 0) + len(t.get("variants", []))
        n["raw identifiers"] = n.get("raw identifiers", 0) + sum(f["name"].startswith("r#") for f in fs)
        n["tagged fields"] = n.get("tagged fields", 0) + sum(bool(f["with"]) for f in fs)
        n["recursive fields"] = n.get("recursive fields", 0) + sum(bool(f["rec"]) for f in fs)
    return n


def types_check(prop, spec, tier, seed):
    t0 = time.time()
    limit = spec.get("thorough_s", 600)
    total = vrun.new_total()
    path = None
    programs, ntypes, kc = 0, 0, {}
    d = os.path.join(OUT, "work", prop)
    rounds = 0
    while True:
        base = seed * 1000 + rounds * 10
        b = (Serializers if prop == "C13" else Types)(prop, [base + k for k in range(spec["programs"])], spec["types"])
        with Lock():
            fresh()
            vrun.build_lib(["release", "debug"])
            lines = {}
            for bin_, s, types in b.progs:
                lines[bin_] = b.emit(bin_, types)[1]
            t1 = time.time()
            res = build_both(b.crate, [x[0] for x in b.progs])
            for profile, o in res.items():
                if o is None:
                    continue
                for k, (bin_, s, types) in enumerate(b.progs):
                    o1 = b.crate.build([bin_], profile)
                    if o1 is not None:
                        types, o1 = without_ill_formed(b, bin_, types, lines, profile, o1)
                        b.progs[k] = (bin_, s, types)
                    if o1 is not None:
                        log("program of seed %s does not compile (%s):\n%s" % (s, profile, first_error(o1)))
                        path, msg = types_compile_failure(b, bin_, types, lines[bin_], profile, o1)
                        break
                if path:
                    break
            if not path and any(o is not None for o in res.values()):
                for profile, o in build_both(b.crate, [x[0] for x in b.progs]).items():
                    if o is not None:
                        raise CheckError("build failed:\n" + o[-3000:])
            # Use the binaries while nobody else can rebuild them
            for bin_, s, types in b.progs:
                if path:
                    break
                programs += 1
                ntypes += len(types)
                for k, v in b.kinds(types).items():
                    kc[k] = kc.get(k, 0) + v
                shutil.rmtree(d, ignore_errors=True)
                os.makedirs(d)
                results, fail = vrun.run_workers([(p, b.crate.exe(bin_, p)) for p in res], prop, seed + 31 * int(s), spec["cases"], tier, d)
                vrun.merge(total, results)
                if fail:
                    path, msg = types_run_failure(b, bin_, types, fail, tier, d)
        b.crate.remove()
        rounds += 1
        if path or tier == "quick" or time.time() - t0 > limit:
            break
    shutil.rmtree(d, ignore_errors=True)
    total["samples"].sort(key=len)
    vrun.write_evidence(prop, tier, seed, total, spec["rule"], time.time() - t0, 1 if path else 0,
                        {"programs": programs, "definitions": ntypes, "features of definitions": dict(sorted(kc.items()))}, specs_assumptions())
    log("%s: %d programs, %d definitions, %d values, %d distinct non-trivial, %.1fs" % (prop, programs, ntypes, total["evals"], len(total["hashes"]), time.time() - t0))
    if path:
        log("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if total["evals"] == 0 or not total["hashes"]:
        raise CheckError("nothing was explored")
    return 0


def specs_assumptions():
    import specs
    return specs.ASSUMPTIONS


# ---- C16: programs which must (not) compile ---------------------------------

RUSTC_MODES = {"debug": ["-C", "opt-level=0", "-C", "debug-assertions=on"], "release": ["-C", "opt-level=2", "-C", "debug-assertions=off"]}


def rlibs():
    """Path of the library as built by each profile. Call with the lock held."""
    out = {}
    for p in ("debug", "release"):
        rc, o = cargo(["build", "--offline", "--lib", "--message-format=json"] + profile_args(p), os.path.join(VERIF, "harness"), extra_env={"CARGO_TARGET_DIR": tdir(p)})
        if rc != 0:
            raise CheckError("library does not build:\n" + "\n".join(l for l in o.splitlines() if not l.startswith("{"))[-3000:])
        for l in o.splitlines():
            if l.startswith("{") and '"compiler-artifact"' in l:
                j = json.loads(l)
                if j["target"]["name"] == "ser_raw":
                    out[p] = [f for f in j["filenames"] if f.endswith(".rlib")][0]
    return out


def rustc(rlib, profile, src, out, run):
    """(compiles, output)"""
    import subprocess
    deps_dir = os.path.dirname(rlib)
    a = [vrun.env()["RUSTC"], "--edition", "2021", "--crate-name", "p", "-L", "dependency=" + deps_dir, "--extern", "ser_raw=" + rlib, "-o", out, src]
    if not run:
        a.append("--emit=obj")
    try:
        p = subprocess.run(a + RUSTC_MODES[profile], env=vrun.env(), capture_output=True, timeout=300)
    except subprocess.TimeoutExpired:
        raise CheckError("compiler does not finish")
    e = p.stderr.decode(errors="replace")
    if p.returncode not in (0, 1):
        raise CheckError("compiler failed (%d):\n%s" % (p.returncode, e[-2000:]))
    return p.returncode == 0, e


def maker(prop):
    """Generator of the programs of a property"""
    import misuse, rejects
    return misuse if prop == "C23" else rejects


def try_legal(prop, rl, profile, cases, d, tag):
    """None, or what went wrong"""
    rejects = maker(prop)
    src, exe = os.path.join(d, tag + ".rs"), os.path.join(d, tag + ".exe")
    with open(src, "w") as f:
        f.write(rejects.program(cases))
    ok, e = rustc(rl[profile], profile, src, exe, True)
    if not ok:
        return "does not compile: " + one_line(e)
    code, out = vrun.run([exe], 60, d)
    os.remove(exe)
    if code != 0 or "done" not in out:
        return "does not run: " + vrun.describe(code, out)
    return None


def try_illegal(prop, rl, profile, case, d, tag):
    """(rejected, by const evaluation)"""
    rejects = maker(prop)
    src, obj = os.path.join(d, tag + ".rs"), os.path.join(d, tag + ".o")
    with open(src, "w") as f:
        f.write(rejects.program([case]))
    ok, e = rustc(rl[profile], profile, src, obj, False)
    return not ok, "E0080" in e


def rejects_check(prop, spec, tier, seed):
    import random
    rejects = maker(prop)
    t0 = time.time()
    d = os.path.join(OUT, "work", prop)
    total = vrun.new_total()
    path = None
    rounds = other = 0
    limit = spec.get("thorough_s", 600)

    def count(c, ok):
        total["evals"] += 1
        total["nontrivial"] += 1
        total["hashes"].add(hash(c["text"]))
        for l in (c["label"], "by: " + c["maker"]):
            total["labels"][l] = total["labels"].get(l, 0) + 1
        if len(total["samples"]) < 8 and total["evals"] % 37 == 1:
            total["samples"].append(("accepted: " if ok else "rejected: ") + c["what"] + " | " + c["text"])

    def found(profile, case, ok, msg):
        log("%s (%s): %s" % (msg, profile, case["what"]))
        log("    " + case["text"])
        return vrun.save_replay(prop, {"property": prop, "mode": "accept" if ok else "reject", "profile": profile, "message": msg, "what": case["what"], "text": case["text"], "source": rejects.program([case])})
    with Lock():
        fresh()
        rl = rlibs()
        while not path:
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            r = random.Random("%s-%s" % (seed, rounds))
            batches = [[rejects.case(r, True) for _ in range(spec["legal"])] for _ in range(spec["batches"])]
            jobs = [(p, k) for p in ("debug", "release") for k in range(len(batches))]
            with ThreadPoolExecutor(8) as ex:
                bad = list(ex.map(lambda j: try_legal(prop, rl, j[0], batches[j[1]], d, "l_%s_%d" % j), jobs))
                for (p, k), msg in zip(jobs, bad):
                    if msg and not path:
                        cs = batches[k]
                        each = list(ex.map(lambda i: try_legal(prop, rl, p, [cs[i]], d, "e_%d" % i), range(len(cs))))
                        for c, m in zip(cs, each):
                            if m and (not path or len(c["text"]) < best):
                                best = len(c["text"])
                                path = found(p, c, True, "legal program " + m)
                        if not path:
                            raise CheckError("legal programs fail together but not alone: " + msg)
                for (p, k) in jobs:
                    for c in batches[k]:
                        count(c, True)
                if path:
                    break
                cs = [rejects.case(r, False) for _ in range(spec["illegal"])]
                res = list(ex.map(lambda i: try_illegal(prop, rl, ("debug", "release")[i % 2], cs[i], d, "i_%d" % i), range(len(cs))))
                best = None
                for i, (c, (rej, const)) in enumerate(zip(cs, res)):
                    count(c, False)
                    other += rej and not const
                    if not rej and (best is None or len(c["text"]) < len(cs[best]["text"])):
                        best = i
                if best is not None:
                    path = found(("debug", "release")[best % 2], cs[best], False, "illegal program compiles")
            rounds += 1
            if tier == "quick" or time.time() - t0 > limit:
                break
    shutil.rmtree(d, ignore_errors=True)
    vrun.write_evidence(prop, tier, seed, total, spec["rule"], time.time() - t0, 1 if path else 0, {"rejected otherwise than by evaluating a constant": other} if prop == "C16" else {}, specs_assumptions())
    log("%s: %d programs, %d distinct, %.1fs" % (prop, total["evals"], len(total["hashes"]), time.time() - t0))
    if path:
        log("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0


# ---- replays ----------------------------------------------------------------

def rebuild(r):
    """Binary of a replay which comes with its own program"""
    c = Crate("gen_replay")
    c.write(r["gen"]["bin"], r["gen"]["source"])
    with Lock():
        fresh()
        o = c.build([r["gen"]["bin"]], r["profile"])
    if o is not None:
        raise CheckError("program of the replay does not compile:\n" + first_error(o))
    return c.exe(r["gen"]["bin"], r["profile"])


def replay(r, path):
    if r["mode"] == "program":
        c = Crate("gen_replay")
        c.write("gen_x", r["source"])
        c.write("gen_xc", r["control"])
        with Lock():
            fresh()
            o = c.build(["gen_x"], r["profile"])
            oc = c.build(["gen_xc"], r["profile"])
        if oc is not None:
            raise CheckError("control does not compile:\n" + first_error(oc))
        if o is None:
            log("passes now")
            return 0
        log(first_error(o))
        log("VIOLATION property=%s replay=%s" % (r["property"], path))
        return 1
    if r["mode"] in ("accept", "reject"):
        d = os.path.join(OUT, "replaying")
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        with Lock():
            fresh()
            rl = rlibs()
            if r["mode"] == "accept":
                msg = try_legal(r["property"], rl, r["profile"], [r], d, "p")
            else:
                msg = None if try_illegal(r["property"], rl, r["profile"], r, d, "p")[0] else "illegal program compiles"
        if msg is None:
            log("passes now")
            return 0
        log(msg)
        log("VIOLATION property=%s replay=%s" % (r["property"], path))
        return 1
    raise CheckError("unknown replay")
