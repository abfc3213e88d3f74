#!/usr/bin/env python3
"""Builds the machinery, runs the checks of one property and writes its evidence.

  check.py setup              builds the engine and the symbolic standard library
  check.py run C04            decides C04 on /repo's current tree (VERIF_TIER, VERIF_SEED)
  check.py try HARNESS [OPT]  one harness, results on stdout (for development)
"""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
B = os.path.join(V, "build")
REPO = "/repo"
TARGET = "riscv64gc-unknown-linux-gnu"
NIGHTLY = "nightly-x86_64-unknown-linux-gnu"
STABLE = "stable-x86_64-unknown-linux-gnu"
KSYM = os.path.join(B, "engine/release/ksym")
REPLAY = os.path.join(B, "native/debug/replay")

sys.path.insert(0, V)


class Bad(Exception):
    """The check itself failed: neither held nor violated."""


def env(extra=()):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO", "RUST"))}
    e["HOME"] = os.environ.get("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:" + os.environ.get("PATH", "/usr/bin:/bin")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e.update(dict(extra))
    return e


def sh(cmd, cwd=None, extra=(), timeout=1700, what=None):
    r = subprocess.run(cmd, cwd=cwd, env=env(extra), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       timeout=timeout)
    if r.returncode != 0:
        raise Bad("%s failed:\n%s\n%s" % (what or cmd[0], r.stdout.decode(errors="replace")[-3000:],
                                          r.stderr.decode(errors="replace")[-6000:]))
    return r.stdout.decode(errors="replace")


def tree_hash(roots, exts=None):
    h = hashlib.sha256()
    for r in roots:
        if os.path.isfile(r):
            fs = [r]
        else:
            fs = sorted(os.path.join(d, f) for d, ds, fl in os.walk(r) for f in fl
                        if "/target/" not in d + "/" and "/.git/" not in d + "/")
        for f in fs:
            if exts and not f.endswith(exts):
                continue
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()


def stamp(name, value=None):
    p = os.path.join(B, "stamp." + name)
    if value is None:
        try:
            return open(p).read()
        except OSError:
            return ""
    with open(p, "w") as f:
        f.write(value)


def setup():
    os.makedirs(B, exist_ok=True)
    h = tree_hash([os.path.join(V, "engine")], (".rs", ".toml", ".lock"))
    if stamp("engine") != h or not os.path.exists(KSYM):
        sh(["cargo", "build", "--release", "--offline", "--target-dir", os.path.join(B, "engine")],
           cwd=os.path.join(V, "engine"), extra={"RUSTUP_TOOLCHAIN": STABLE}.items(), what="engine build")
        stamp("engine", h)
    h = tree_hash([os.path.join(V, "stubs")], (".py",))
    if stamp("stubs") != h or not os.path.exists(os.path.join(B, "rustlib/library/Cargo.toml")):
        import importlib
        sys.path.insert(0, os.path.join(V, "stubs"))
        sysroot = sh(["rustc", "+" + NIGHTLY, "--print", "sysroot"]).strip()
        importlib.import_module("std_hash").main(
            os.path.join(sysroot, "lib/rustlib/src/rust/library"), os.path.join(B, "rustlib/library"))
        phf = glob.glob(os.path.join(env()["HOME"], ".cargo/registry/src/*/phf-0.13.1"))
        if not phf:
            # extracted by any build that uses it
            sh(["cargo", "fetch", "--offline"], cwd=os.path.join(V, "harness"),
               extra={"RUSTUP_TOOLCHAIN": STABLE}.items())
            phf = glob.glob(os.path.join(env()["HOME"], ".cargo/registry/src/*/phf-0.13.1"))
        if not phf:
            raise Bad("the sources of phf 0.13.1 are not in the cargo registry")
        importlib.import_module("phf_scan").main(phf[0], os.path.join(B, "phf"))
        for d in glob.glob(os.path.join(B, "sym*")):
            shutil.rmtree(d, ignore_errors=True)
        stamp("stubs", h)


# not needed to run koopa: only for backtraces, or empty
SKIP = ("proc_macro", "gimli", "addr2line", "object", "miniz_oxide", "rustc_demangle", "panic_unwind",
        "adler2", "cfg_if", "build_script_build")


def build_sym(feature=None):
    """IR of /repo's crates, of the harnesses and of the standard library. Returns the list of .ll files."""
    args = ["cargo", "build", "--offline", "--release", "--lib", "-Zbuild-std=core,alloc,std,panic_abort",
            "--target", TARGET, "--target-dir", os.path.join(B, "sym" + (feature or "")),
            *(["--features", feature] if feature else []), "--config", 'patch.crates-io.phf.path="%s/phf"' % B, "--message-format=json"]
    ex = {"RUSTUP_TOOLCHAIN": NIGHTLY,
          "__CARGO_TESTS_ONLY_SRC_ROOT": os.path.join(B, "rustlib/library"),
          "RUSTFLAGS": "--emit=llvm-ir -Cno-vectorize-loops -Cno-vectorize-slp"}
    r = subprocess.run(args, cwd=os.path.join(V, "harness"), env=env(ex.items()), stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, timeout=1700)
    lls = []
    errs = []
    for l in r.stdout.decode(errors="replace").splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
            errs.append(m["message"].get("rendered") or "")
        if m.get("reason") == "compiler-artifact" and TARGET in (m.get("filenames") or [""])[0]:
            n = m["target"]["name"].replace("-", "_")
            if n in SKIP:
                continue
            d = os.path.dirname(m["filenames"][0])
            g = glob.glob(os.path.join(d, "*.ll"))
            if not g:
                d2 = os.path.join(os.path.dirname(d), "deps")
                g = [x for x in glob.glob(os.path.join(d2, "*.ll"))]
            lls += g
    if r.returncode != 0:
        raise Bad("symbolic build failed\n" + "\n".join(errs)[-6000:] + r.stderr.decode(errors="replace")[-3000:])
    lls = sorted(set(lls))
    names = [os.path.basename(x).rsplit("-", 1)[0] for x in lls]
    for n in ("koopa", "libkoopa_shim", "kharness", "std", "core", "alloc"):
        if names.count(n) != 1:
            raise Bad("expected one module %s, got %s" % (n, names))
    return lls


def build_c():
    """The C side of the interface, as koopa.h has it: IR for the engine, an object for the replay."""
    c = os.path.join(V, "cshim/cshim.c")
    inc = "-I" + os.path.join(REPO, "libkoopa/include")
    sh(["clang", "--target=riscv64-unknown-linux-gnu", "-march=rv64gc", "-mabi=lp64d", inc, "-ffreestanding", "-O1",
        "-fno-vectorize", "-fno-slp-vectorize", "-w", "-S", "-emit-llvm", "-o", os.path.join(B, "cshim.ll"), c],
       what="C build")
    sh(["clang", inc, "-ffreestanding", "-O1", "-g", "-fPIC", "-w", "-c", "-o", os.path.join(B, "cshim.o.new"), c],
       what="C build")
    new, old = os.path.join(B, "cshim.o.new"), os.path.join(B, "cshim.o")
    if not os.path.exists(old) or open(new, "rb").read() != open(old, "rb").read():
        os.replace(new, old)
    return os.path.join(B, "cshim.ll")


def build_native(feature=None):
    sh(["cargo", "build", "--offline", "--features", "native," + feature if feature else "native", "--bin", "replay",
        "--target-dir", os.path.join(B, "native" + (feature or ""))],
       cwd=os.path.join(V, "harness"), extra={"RUSTUP_TOOLCHAIN": STABLE}.items(), what="native build")


def build(feature=None):
    """Rebuilds whatever depends on /repo's tree. Decides by content, not by time stamps."""
    global REPLAY
    x = feature or ""
    REPLAY = os.path.join(B, "native" + x, "debug/replay")
    src = [os.path.join(REPO, p) for p in ("koopa/src", "koopa/Cargo.toml", "libkoopa/src", "libkoopa/include",
                                           "libkoopa/Cargo.toml", "Cargo.toml", "Cargo.lock")]
    h = tree_hash([p for p in src if os.path.exists(p)] + [os.path.join(V, p) for p in ("harness", "lkshim", "nologlib", "stubs", "cshim")],
                  (".rs", ".toml", ".lock", ".h", ".c", ".py"))
    mods = os.path.join(B, "mods%s.txt" % x)
    if stamp("build" + x) == h and os.path.exists(mods) and os.path.exists(REPLAY) and \
            all(os.path.exists(p) for p in open(mods).read().split()):
        return mods
    stamp("build" + x, "")
    if stamp("src" + x) != h:
        # cargo goes by time stamps: make sure that it sees what changed
        for d in (os.path.join(B, "sym" + x, TARGET, "release"), os.path.join(B, "native" + x, "debug")):
            for p in ("koopa", "koopa_nolog", "libkoopa_shim", "kharness"):
                for f in glob.glob(os.path.join(d, ".fingerprint", p + "-*")) + \
                        glob.glob(os.path.join(d, "build", p)):
                    shutil.rmtree(f, ignore_errors=True)
    c = build_c()
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(2) as ex:
        a = ex.submit(build_sym, feature)
        b = ex.submit(build_native, feature)
        lls = a.result() + [c]
        b.result()
    with open(mods, "w") as f:
        f.write("\n".join(lls) + "\n")
    stamp("src" + x, h)
    stamp("build" + x, h)
    return mods


class Res:
    def __init__(self):
        self.n, self.x, self.v, self.e, self.s, self.r, self.f, self.q = {}, {}, [], {}, [], {}, set(), []
        self.solver = ""


def parse_result(p):
    r = Res()
    for l in open(p, errors="replace"):
        a = l.rstrip("\n").split("\t")
        k = a[0]
        if k == "n":
            r.n[a[1]] = r.n.get(a[1], 0) + int(a[2])
        elif k == "x":
            r.x[a[1]] = max(r.x.get(a[1], 0), int(a[2]))
        elif k == "v":
            r.v.append(dict(kind=a[1], msg=a[2], inputs=a[3], trace=a[4]))
        elif k == "e":
            r.e[a[2]] = r.e.get(a[2], 0) + int(a[1])
        elif k == "s":
            r.s.append((a[1], a[2], a[3] if len(a) > 3 else ""))
        elif k == "r":
            r.r[int(a[1])] = r.r.get(int(a[1]), 0) + int(a[2])
        elif k == "f":
            r.f.add(a[1])
        elif k == "q":
            r.q.append((a[1], a[2]))
        elif k == "i":
            r.solver = a[2]
    return r


def run_engine(h, mods, seed, opts, out):
    cmd = [KSYM, "--entry", "h_" + h, "--modules", mods, "--out", out, "--seed", str(seed)]
    o = {"jobs": 8, "timeout": 300, "samples": 12}
    o.update(opts)
    for k, v in o.items():
        if v is True:
            cmd.append("--" + k.replace("_", "-"))
        else:
            cmd += ["--" + k.replace("_", "-"), str(v)]
    if os.path.exists(out):
        os.remove(out)
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=o["timeout"] + 200)
    if r.returncode != 0 or not os.path.exists(out):
        raise Bad("engine failed on %s (%d): %s" % (h, r.returncode, r.stdout.decode(errors="replace")[-2000:]))
    return parse_result(out), r.stdout.decode(errors="replace")


def native(h, inputs, valgrind=False, timeout=60, threads=False):
    # with threads, the native run cannot follow the schedule: it tries for a while
    ex = {"KSYM_SECS": "20", "KSYM_HAMMER": "100"} if threads else {}
    cmd = [REPLAY, h, inputs]
    if valgrind:
        cmd = ["valgrind", "-q", "--error-exitcode=99", "--track-origins=no"] + cmd
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                           env=env(ex.items()))
    except subprocess.TimeoutExpired:
        return "timeout", "", "", 124
    m = re.search(r"^OUTCOME (\S+) (\d+) ?(.*)$", r.stdout.decode(errors="replace"), re.M)
    if m:
        return m.group(1), m.group(2), m.group(3), r.returncode
    return "died", "", "exit status %d" % r.returncode, r.returncode


def confirms(v, h):
    """Does the real code, run natively on the solver's values, fail as well?"""
    for _ in range(6):
        o, d, msg, rc = native(h, v["inputs"], valgrind=(v["kind"] == "memory"),
                               timeout=300 if v["kind"] == "memory" else 15 if v["kind"] == "hang" and not h.startswith("threads") else 60,
                               threads=h.startswith("threads"))
        # hash tables are ordered by chance in a native run: what depends on it may need another one
        if o != "ok" or v["kind"] not in ("check", "panic"):
            break
    if v["kind"] == "memory":
        return rc not in (0, 20, 21), "%s %s (exit %d)" % (o, msg, rc)
    if v["kind"] in ("hang", "deadlock") or o == "timeout":
        return o == "timeout", o
    # panics with different text (file paths) or a failing check both count; what matters is that it fails
    return o in ("panic", "check", "nopanic", "died"), "%s %s" % (o, msg)


def cross_check(qs, limit):
    """Second opinion on some of the queries from an independent solver."""
    n = 0
    bad = []
    for sat, q in qs[:limit]:
        q = q.replace("\\n", "\n").replace("\\\\", "\\")
        try:
            r = subprocess.run(["cvc5", "--lang=smt2", "--tlimit=20000", "-"], input=q.encode(),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=40)
        except subprocess.TimeoutExpired:
            continue
        o = r.stdout.decode(errors="replace").strip().splitlines()
        if not o or o[0] not in ("sat", "unsat"):
            continue
        n += 1
        if (o[0] == "sat") != (sat == "1"):
            bad.append(q)
    return n, bad


def known_findings():
    p = os.path.join(V, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def demangle(names):
    def d(n):
        out = []
        # v0 mangling: the identifiers are enough to recognise a function
        i = 0
        for m in re.finditer(r"(?:s[0-9A-Za-z]*_)?(\d+)(_?)", n):
            if m.start() < i:
                continue
            k = int(m.group(1))
            s = n[m.end():m.end() + k]
            if k and len(s) == k and re.match(r"^[A-Za-z_]\w*$", s):
                out.append(s)
                i = m.end() + k
        return "::".join(out)
    return sorted({d(n) for n in names} - {""})


def run(prop, tier, seed):
    import props
    t0 = time.time()
    P = props.PROPS[prop]
    setup()
    mods = build(P.get("feature"))
    outdir = os.path.join(B, "out")
    os.makedirs(outdir, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence/replays"), exist_ok=True)
    findings = [k for k in known_findings() if k["property"] == prop and k.get("status") != "fixed"]
    tot, maxs, fns, samples, per, viols, problems = {}, {}, set(), [], [], [], []
    seen_known = set()
    replayed = 0
    queries = []
    solver = ""
    for h in P["harnesses"]:
        o = dict(h.get("opts", {}))
        o.update(h.get(tier, {}))
        if o.pop("skip", False):
            continue
        name = h["name"] if tier == "quick" or not h.get("deep") else h["deep"]
        o.setdefault("timeout", 420 if tier == "quick" else 3000)
        o.setdefault("dump", 400)
        t1 = time.time()
        extra = h.get("extra") and tier == "quick"
        if extra:
            # deeper than it has to be: only as far as there is time
            o["timeout"] = min(o["timeout"], int(640 - (t1 - t0)))
            if o["timeout"] < 30:
                per.append(dict(harness=name, what=h["what"], skipped="no time left"))
                continue
        r, log = run_engine(name, mods, seed, o, os.path.join(outdir, prop + "-" + name))
        solver = r.solver
        for k, v in r.n.items():
            tot[k] = tot.get(k, 0) + v
        for k, v in r.x.items():
            maxs[k] = max(maxs.get(k, 0), v)
        fns |= r.f
        queries += r.q[:6]
        e = dict(harness=name, what=h["what"], paths=r.n["paths"], panics_expected=r.n["panics_ok"],
                 infeasible=r.n["infeasible"], instructions=r.n["steps"], checks=r.n["checks"],
                 checks_on_symbolic=r.n["sym_checks"], solver_queries=r.n["queries"],
                 assertion_queries=r.n["assert_queries"], solver_s=round(r.n["solver_us"] / 1e6, 3),
                 symbolic_inputs_max=r.x["max_inputs"], reached={str(k): v for k, v in sorted(r.r.items())},
                 wall_s=round(time.time() - t1, 2))
        per.append(e)
        confirmed = 0
        tried = 0
        for v in r.v:
            if tried >= 12 or confirmed >= 3:
                break
            tried += 1
            ok, how = confirms(v, name)
            if not ok:
                problems.append("counterexample of %s does not reproduce: %s | %s | native: %s" %
                                (name, v["msg"], v["inputs"], how))
                continue
            k = next((k for k in findings if k["harness"] == name and re.search(k["match"], v["msg"] + " | " + how)
                      and re.search(k.get("inputs", ""), v["inputs"])), None)
            if k:
                seen_known.add(k["id"])
                continue
            confirmed += 1
            f = os.path.join(V, "evidence/replays/%s-%s-%d.json" % (prop, name, confirmed))
            with open(f, "w") as fh:
                json.dump(dict(property=prop, harness=name, kind=v["kind"], message=v["msg"], inputs=v["inputs"],
                               native=how, trace=v["trace"].split(" < ")[:12],
                               command="python3 /verif/check.py replay %s '%s'" % (name, v["inputs"])), fh, indent=1)
            viols.append((f, v["msg"], how))
        if r.v and confirmed:
            continue  # a confirmed violation decides; whatever was left unexplored does not matter
        if r.e:
            problems.append("engine could not follow %s: %s" % (name, list(r.e.items())[:4]))
        if extra and (r.n["incomplete"] or r.n["left"]):
            e["not_explored_completely"] = True
        elif r.n["incomplete"] or r.n["left"]:
            problems.append("%s was not explored completely within its time" % name)
        if r.n["unknown"]:
            problems.append("%s: the solver gave up on %d queries" % (name, r.n["unknown"]))
        for x in h.get("reach", []):
            if not r.r.get(x):
                problems.append("%s never reached marker %d: vacuous" % (name, x))
        if not r.n["paths"] or not r.n["checks"] + r.n["panics_ok"]:
            problems.append("%s checked nothing" % name)
        step = max(1, len(r.s) // 24)
        for outcome, dg, ins in r.s[::step]:
            no, nd, nm, rc = native(name, ins)
            replayed += 1
            want = {"panic": "panic-ok"}.get(outcome, outcome)
            if no in ("died", "panic", "check", "nopanic") and no != want:
                # the native run of an explored path fails (a stack that runs out, say, which the
                # engine does not model where the compiler turned a recursion into a loop)
                confirmed += 1
                if confirmed <= 3:
                    f = os.path.join(V, "evidence/replays/%s-%s-%d.json" % (prop, name, confirmed))
                    with open(f, "w") as fh:
                        json.dump(dict(property=prop, harness=name, kind="native", message="fails when run natively",
                                       inputs=ins, native="%s %s" % (no, nm),
                                       command="python3 /verif/check.py replay %s '%s'" % (name, ins)), fh, indent=1)
                    viols.append((f, "%s fails when it is run natively on %s" % (name, ins), "%s %s" % (no, nm)))
            elif no != want or (h.get("digest", True) and outcome == "ok" and nd != dg):
                problems.append("%s: the engine and the native code differ on %s: %s %s / %s %s %s" %
                                (name, ins, outcome, dg, no, nd, nm))
            elif len(samples) < 12:
                samples.append(dict(harness=name, inputs=ins, outcome=outcome, digest=dg))
    nx, badq = cross_check(queries, 24 if tier == "quick" else 200)
    if badq:
        problems.append("cvc5 disagrees with z3 on %d queries" % len(badq))
    kf = []
    for k in findings:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        kf.append(k["id"])
    mine = [f for f in fns if "5koopa" in f or "8libkoopa" in f or "13libkoopa_shim" in f or f.startswith("koopa_")]
    cov = dict(states=tot.get("paths", 0) + tot.get("panics_ok", 0) + tot.get("infeasible", 0) + tot.get("forks", 0),
               transitions=tot.get("steps", 0), traces_validated_against_impl=replayed, samples=samples,
               paths_completed=tot.get("paths", 0), paths_ended_by_required_panic=tot.get("panics_ok", 0),
               assertions_checked=tot.get("checks", 0), assertions_on_symbolic_values=tot.get("sym_checks", 0),
               solver_queries=tot.get("queries", 0), queries_sat=tot.get("sat", 0), queries_unsat=tot.get("unsat", 0),
               queries_answered_from_byte_tables=tot.get("byte_domain", 0),
               byte_tables_confirmed_by_z3=tot.get("byte_confirmed", 0),
               queries_from_cache=tot.get("cache_hits", 0), solver_unknown=tot.get("unknown", 0),
               solver_time_s=round(tot.get("solver_us", 0) / 1e6, 3),
               slowest_query_s=round(maxs.get("max_query_us", 0) / 1e6, 3),
               solver="z3 " + solver, queries_cross_checked_with_cvc5=nx,
               functions_encoded=len(fns), functions_encoded_of_koopa=demangle(mine),
               bounds=P["bounds"], outside=P.get("outside", ""), harnesses=per, known_findings=kf,
               problems=problems)
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov,
              wall_s=round(time.time() - t0, 2))
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for p in problems:
        print("PROBLEM: " + p)
    for e in per:
        print("%-20s paths %-7d panics %-6d checks %-8d sym %-7d queries %-6d %6.1fs reach %s" % (
            e["harness"], e["paths"], e["panics_expected"], e["checks"], e["checks_on_symbolic"],
            e["solver_queries"], e["wall_s"], e["reached"]))
    if viols:
        for f, m, how in viols:
            print("  %s" % m)
            print("    native: %s" % how)
            print("VIOLATION property=%s replay=%s" % (prop, f))
        return 1
    if problems:
        return 2
    print("%s holds within its bounds (%.1fs)" % (prop, time.time() - t0))
    return 0


def feature_of(harness):
    import props
    return next((p.get("feature") for p in props.PROPS.values() for h in p["harnesses"]
                 if harness in (h["name"], h.get("deep"))), "nolog" if harness.startswith("quiet_") else None)


def main():
    os.makedirs(B, exist_ok=True)
    lock = open(os.path.join(B, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    cmd = sys.argv[1]
    try:
        if cmd == "setup":
            setup()
            build()
            try:
                build("nolog")
            except Bad:
                pass  # only the check that needs it has to answer for it
            return 0
        if cmd == "run":
            tier = os.environ.get("VERIF_TIER", "quick")
            seed = int(os.environ.get("VERIF_SEED", "1") or 1)
            return run(sys.argv[2], tier if tier in ("quick", "thorough") else "quick", seed)
        if cmd == "replay":
            setup()
            build(feature_of(sys.argv[2]))
            print(native(sys.argv[2], sys.argv[3], threads=sys.argv[2].startswith("threads")))
            return 0
        if cmd == "try":
            setup()
            mods = build(feature_of(sys.argv[2]))
            o = dict(a.split("=") if "=" in a else (a, True) for a in sys.argv[3:])
            o = {k: int(v) if v is not True else v for k, v in o.items()}
            r, log = run_engine(sys.argv[2], mods, 1, o, os.path.join(B, "try.out"))
            print(log[-6000:])
            print({k: v for k, v in r.n.items() if v}, r.x, "reach", r.r)
            for m, n in list(r.e.items())[:10]:
                print("ERROR", n, m[:1500])
            print(len(r.v), "violations")
            for v in r.v[:8]:
                print("VIOL", v["kind"], v["msg"][:400], v["inputs"])
                print("     trace", v["trace"][:700])
                print("     native", confirms(v, sys.argv[2]))
            bad = 0
            for outcome, dg, ins in r.s:
                no, nd, nm, rc = native(sys.argv[2], ins)
                if no != {"panic": "panic-ok"}.get(outcome, outcome) or (outcome == "ok" and nd != dg):
                    bad += 1
                    print("MISMATCH", outcome, dg, ins, "native", no, nd, nm)
            print("samples", len(r.s), "mismatches", bad)
            return 0
    except Bad as e:
        print("ERROR: %s" % e)
        return 2
    except subprocess.TimeoutExpired as e:
        print("ERROR: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
