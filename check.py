#!/usr/bin/env python3
"""Runs the monitors for one property and reports the verdict.

  check.py C03            decide a property (tier from VERIF_TIER, seed from VERIF_SEED)
  check.py --replay FILE  run the witness of a reported violation again
  check.py --setup        check that everything needed to build the monitors is here

Exit 0: held on everything observed.  Exit 1: violated, with a VIOLATION line.
Exit 2: no verdict (build failure, lost worker, nothing observed).
"""
import glob, hashlib, json, os, queue, re, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
TARGET = os.path.join(HERE, "target")
REPLAYS = os.path.join(HERE, "replays")
EVIDENCE = os.path.join(HERE, "evidence")
REPO = "/repo"
TRIPLE = "x86_64-unknown-linux-gnu"
WORKERS = min(8, os.cpu_count() or 8)

from plan import FLAVOURS, PLAN, RULE, ASSUME  # noqa: E402


class Inconclusive(Exception):
    pass


def env_for(flavour):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("CARGO_PROFILE", "CARGO_BUILD", "CARGO_TARGET")) or k in (
            "RUSTFLAGS", "RUSTDOCFLAGS", "RUSTC_WRAPPER", "RUSTUP_TOOLCHAIN", "CARGO_ENCODED_RUSTFLAGS", "MIRIFLAGS", "RUST_LOG",
        ):
            del e[k]
    e["HOME"] = e.get("HOME") or "/root"
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_TARGET_DIR"] = os.path.join(TARGET, flavour.get("dir", flavour["name"]))
    e.update(flavour.get("env", {}))
    return e


def cargo(flavour, verb):
    cmd = ["cargo"]
    cmd.append("+nightly" if flavour.get("nightly") else "+stable")
    if flavour.get("miri"):
        cmd.append("miri")
    cmd += [verb, "--offline", "--locked", "--quiet"]
    if flavour.get("release"):
        cmd.append("--release")
    if flavour.get("buildstd"):
        cmd += ["-Zbuild-std=std,panic_unwind"]
    if flavour.get("triple"):
        cmd += ["--target", TRIPLE if flavour["triple"] is True else flavour["triple"]]
    if flavour["features"]:
        cmd += ["--features", ",".join(flavour["features"])]
    return cmd


def binary(flavour):
    p = [TARGET, flavour.get("dir", flavour["name"])]
    if flavour.get("triple"):
        p.append(TRIPLE)
    p += ["release" if flavour.get("release") else "debug", "mon"]
    return os.path.join(*p)


def sh(cmd, env, cwd, timeout, stdout=None):
    """subprocess.run, but the whole process group dies on a timeout."""
    p = subprocess.Popen(cmd, env=env, cwd=cwd, stdin=subprocess.DEVNULL,
                         stdout=stdout or subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.communicate()
        raise
    return p.returncode, out, err


def repo_sum():
    """Sum of the sources under test, by content."""
    h = hashlib.sha256()
    for root, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(root, f)
            h.update(p.encode() + b"\0")
            with open(p, "rb") as fh:
                h.update(fh.read())
    with open(os.path.join(REPO, "Cargo.toml"), "rb") as fh:
        h.update(fh.read())
    return h.hexdigest()


class fresh:
    """Makes cargo rebuild the crate under test whenever its content differs from the last build's:
    cargo goes by modification times, which may go backwards when a change is undone."""

    def __init__(self, dirname):
        self.dir = os.path.join(TARGET, dirname)
        self.stamp = os.path.join(self.dir, "repo.sum")

    def __enter__(self):
        self.now = repo_sum()
        try:
            with open(self.stamp) as fh:
                same = fh.read() == self.now
        except OSError:
            same = False
        if not same:
            # (the two layouts of cargo's build directory)
            for pat in (".fingerprint/arraystring-*", "build/arraystring"):
                for f in glob.glob(os.path.join(self.dir, "**", pat), recursive=True):
                    shutil.rmtree(f, ignore_errors=True)
            if os.path.exists(self.stamp):
                os.remove(self.stamp)

    def __exit__(self, kind, *_):
        if kind is None and os.path.isdir(self.dir):
            with open(self.stamp, "w") as fh:
                fh.write(self.now)


def build(flavour):
    with fresh(flavour.get("dir", flavour["name"])):
        return build_with_cargo(flavour)


def build_with_cargo(flavour):
    t = time.time()
    if flavour.get("miri"):
        # builds, and runs an empty workload
        cmd = cargo(flavour, "run") + ["--", "--prop", "none", "--count", "0"]
    else:
        cmd = cargo(flavour, "build")
    try:
        rc, out, err = sh(cmd, env_for(flavour), HARNESS, 600)
    except subprocess.TimeoutExpired:
        raise Inconclusive(f"building {flavour['name']} timed out")
    if rc != 0:
        raise Inconclusive(f"building {flavour['name']} failed:\n" + err.decode(errors="replace")[-6000:])
    if flavour.get("optional"):
        # does this runtime work in this container at all?
        rc, out, err = sh([binary(flavour), "--prop", "none", "--count", "0"], env_for(flavour), HARNESS, 60)
        if rc != 0:
            raise Inconclusive(f"{flavour['name']} does not start: " + err.decode(errors="replace")[-300:])
    return time.time() - t


def build_all(names):
    times, errs, ts = {}, [], []

    def go(n):
        try:
            times[n] = round(build(FLAVOURS[n]), 1)
        except Exception as e:  # noqa: BLE001
            if FLAVOURS[n].get("optional"):
                times[n] = f"not available here: {str(e)[-300:]}"
            else:
                errs.append(e)

    for n in names:
        ts.append(threading.Thread(target=go, args=(n,)))
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise errs[0] if isinstance(errs[0], Inconclusive) else Inconclusive(str(errs[0]))
    return times


FATAL = {signal.SIGSEGV, signal.SIGABRT, signal.SIGILL, signal.SIGBUS, signal.SIGTRAP, signal.SIGFPE}


def argv_for(flavour, args):
    if flavour.get("miri"):
        return cargo(flavour, "run") + ["--"] + args
    return [binary(flavour)] + args


def worker(flavour, args, timeout, tmp, tag):
    """Runs one worker. Returns (done-record or None, [violations])."""
    prog = os.path.join(tmp, tag + ".progress")
    sketch = os.path.join(tmp, tag + ".sketch")
    full = args + ["--progress", prog, "--sketch", sketch]
    env = env_for(flavour)
    out_path = os.path.join(tmp, tag + ".out")
    with open(out_path, "wb") as o:
        try:
            rc, _, err = sh(argv_for(flavour, full), env, HARNESS, timeout, stdout=o)
        except subprocess.TimeoutExpired:
            raise Inconclusive(f"worker {flavour['name']} {' '.join(args)} did not finish in {timeout:.0f} s")
    err = err.decode(errors="replace")
    done, viol = None, []
    with open(out_path, encoding="utf-8", errors="replace") as f:
        for line in f:
            if not line.startswith('{"kind"'):
                continue
            try:
                d = json.loads(line)
            except ValueError:
                continue
            (viol.append(d) if d["kind"] == "violation" else None)
            if d["kind"] == "done":
                done = d
    unit = None
    try:
        unit = int(open(prog).read().strip())
    except (OSError, ValueError):
        pass
    if rc == 0 and done is not None and not viol:
        done["sketch"] = sketch
        return done, []
    if viol:
        if done is not None:
            done["sketch"] = sketch
        return done, viol
    report = sanitizer_report(flavour, err)
    if report:
        return done, [{"unit": unit, "what": report, "report": err[-6000:]}]
    if rc < 0 and -rc in FATAL and "memory allocation of" not in err:
        tail = [x for x in err.strip().splitlines() if x.strip()][-4:]
        return done, [{"unit": unit, "what": f"the process died of {signal.Signals(-rc).name}: " + " | ".join(tail)[:600],
                       "report": err[-6000:]}]
    raise Inconclusive(f"worker {flavour['name']} {' '.join(args)} ended with {rc}: {err[-1500:]}")


def sanitizer_report(flavour, err):
    if flavour.get("asan") and "ERROR: AddressSanitizer" in err:
        if "out-of-memory" in err or "allocator is out" in err:
            return None
        m = re.search(r"ERROR: AddressSanitizer:[^\n]*", err)
        w = re.findall(r"#\d+ 0x\w+ in ([^\n]*)", err)
        w = [x for x in w if "/repo/" in x or "arraystring" in x][:3]
        return m.group(0) + (" in " + " / ".join(w) if w else "")
    for name in ("MemorySanitizer", "ThreadSanitizer"):
        if flavour.get("buildstd") and f"WARNING: {name}" in err:
            m = re.search(rf"WARNING: {name}:[^\n]*", err)
            w = [x for x in re.findall(r"#\d+ (?:0x\w+ in )?([^\n]*)", err) if "/repo/" in x or "arraystring" in x][:3]
            return m.group(0) + (" in " + " / ".join(w) if w else "")
    if flavour.get("miri"):
        m = re.search(r"error: (Undefined Behavior|unsupported operation|abnormal termination|memory leaked)[^\n]*", err)
        if m and "unsupported operation" not in m.group(0):
            w = re.findall(r"--> ([^\n]*)|at (/repo/[^\n]*)", err)
            w = [a or b for a, b in w][:3]
            return "Miri: " + m.group(0) + (" at " + " / ".join(w) if w else "")
    return None


def popcount_or(paths):
    total = 0
    for p in paths:
        try:
            with open(p, "rb") as f:
                total |= int.from_bytes(f.read(), "little")
        except OSError:
            pass
    return total


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="mon-")
        self.events = 0
        self.units = 0
        self.calls = 0
        self.samples = []
        self.seen = {}
        self.runs = []
        self.notes = {}
        self.foreign = 0
        self.violations = []
        self.sketch = 0
        self.builds = {}
        self.extra = {}
        self.lock = threading.Lock()

    def runs_for(self):
        p = PLAN[self.prop]
        return p["quick"] if self.tier == "quick" else p.get("thorough", p["quick"])

    def go(self):
        runs = self.runs_for()
        flavs = []
        for r in runs:
            if r["flavour"] not in flavs:
                flavs.append(r["flavour"])
        special = PLAN[self.prop].get("special")
        try:
            if special == "capacities":
                self.capacities()
            if special == "values":
                self.values()
            if not self.violations:
                self.builds = build_all(flavs)
                away = [n for n, t in self.builds.items() if isinstance(t, str)]
                if away:
                    print(f"not available here, left out: {', '.join(away)}")
                    runs = [r for r in runs if r["flavour"] not in away]
                if special == "configurations":
                    self.configurations()
                self.execute(runs)
                if self.tier == "thorough" and not self.violations:
                    self.reach(runs)
        finally:
            self.wall = time.time() - self.t0

    def execute(self, runs):
        tasks = queue.Queue()
        items = []
        for ri, r in enumerate(runs):
            fl = FLAVOURS[r["flavour"]]
            shards = r.get("shards", WORKERS)
            for k in range(shards):
                args = ["--prop", self.prop, "--mode", r["mode"], "--seed", str(self.seed + r.get("seed", 0)),
                        "--count", str(r["count"]), "--shard", str(k), "--shards", str(shards)]
                if r.get("big"):
                    args.append("--big")
                if r.get("soft"):
                    args += ["--soft", str(r["soft"])]
                items.append((ri, r, fl, k, args))
        # the interpreter and the sanitizers first: they take longest
        items.sort(key=lambda x: (not x[2].get("miri"), not x[2].get("buildstd"), not x[2].get("asan"), x[3], x[0]))
        for it in items:
            tasks.put(it)
        errs = []
        limit = 780 if self.tier == "quick" else 3600
        per_run = [dict(flavour=r["flavour"], mode=r["mode"], events=0, units=0) for r in runs]
        sketches = {}

        def loop():
            while True:
                with self.lock:
                    # a lost worker leaves no verdict, but a violation seen elsewhere still counts
                    if len(errs) >= 4 or len(self.violations) >= 4:
                        return
                try:
                    ri, r, fl, k, args = tasks.get_nowait()
                except queue.Empty:
                    return
                left = limit - (time.time() - self.t0)
                try:
                    if left <= 5:
                        raise Inconclusive("out of time")
                    done, viol = worker(fl, args, left, self.tmp, f"{ri}-{k}")
                except Inconclusive as e:
                    with self.lock:
                        errs.append(e)
                    return
                with self.lock:
                    for v in viol:
                        v.update(flavour=fl["name"], mode=r["mode"], args=args)
                        self.violations.append(v)
                    if done:
                        self.absorb(done)
                        per_run[ri]["events"] += done["events"]
                        per_run[ri]["units"] += done["units"]
                        if os.path.exists(done["sketch"]):
                            big = popcount_or([done["sketch"]])
                            os.unlink(done["sketch"])
                            n = "miri" if fl.get("miri") else "native"
                            sketches[n] = sketches.get(n, 0) | big

        ts = [threading.Thread(target=loop) for _ in range(WORKERS)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        self.runs += per_run
        self.sketch |= sketches.get("native", 0)
        if self.violations:
            return
        if errs:
            raise errs[0]
        for r in per_run:
            if r["events"] == 0:
                raise Inconclusive(f"nothing observed by {r['flavour']}/{r['mode']}")

    def absorb(self, d):
        self.events += d["events"]
        self.units += d["units"]
        self.calls += d["library_calls"]
        self.foreign += d["foreign"]
        for k, n in d["seen"].items():
            self.seen[k] = self.seen.get(k, 0) + n
        for k, n in d["notes"].items():
            self.notes[k] = self.notes.get(k, 0) + n
        for s in d["samples"]:
            if len(self.samples) < 12 and s not in self.samples:
                self.samples.append(s)

    # ---- what of the sources under test the workload reaches ---------------
    def reach(self, runs):
        """A small share of every workload, on a build that records which lines it executes."""
        cov = FLAVOURS["cov"]
        away = build_all(["cov"])["cov"]
        if isinstance(away, str):
            self.notes["source coverage"] = away
            return
        root = subprocess.run(["rustc", "+stable", "--print", "sysroot"], env=env_for(cov), stdout=subprocess.PIPE, text=True).stdout.strip()
        tools = glob.glob(os.path.join(root, "lib/rustlib/*/bin/llvm-cov"))
        if not tools:
            self.notes["source coverage"] = "no llvm-cov"
            return
        bindir = os.path.dirname(tools[0])
        modes = {}
        for r in runs:
            if not FLAVOURS[r["flavour"]].get("miri"):
                modes.setdefault(r["mode"], []).append(r["count"])
        if PLAN[self.prop].get("special") == "configurations":
            modes["digest"] = [200]
        env = dict(env_for(cov), LLVM_PROFILE_FILE=os.path.join(self.tmp, "cov-%p-%m.profraw"))
        todo = queue.Queue()
        for m, counts in sorted(modes.items()):
            todo.put((m, max(1, min(min(counts), 3000) // 4)))

        def loop():
            while True:
                try:
                    m, n = todo.get_nowait()
                except queue.Empty:
                    return
                try:
                    sh([binary(cov), "--prop", "none", "--mode", m, "--seed", str(self.seed), "--count", str(n), "--soft", "40"], env, HARNESS, 240)
                except subprocess.TimeoutExpired:
                    pass

        ts = [threading.Thread(target=loop) for _ in range(WORKERS)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        raw = glob.glob(os.path.join(self.tmp, "cov-*.profraw"))
        prof = os.path.join(self.tmp, "cov.prof")
        subprocess.run([os.path.join(bindir, "llvm-profdata"), "merge", "-sparse", "-o", prof] + raw, stderr=subprocess.DEVNULL)
        shown = subprocess.run([os.path.join(bindir, "llvm-cov"), "show", binary(cov), f"-instr-profile={prof}", "--show-instantiations=false",
                                os.path.join(REPO, "src")], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace").stdout
        files, name = {}, None
        for line in shown.splitlines():
            if line.startswith("/") and line.endswith(".rs:"):
                name = os.path.relpath(line[:-1], REPO)
                continue
            m = re.match(r"\s*(\d+)\|\s*([0-9.]+[kMGTE]?)\|", line)
            if name and m:
                f = files.setdefault(name, {"lines_with_code": 0, "lines_executed": 0, "never_executed": []})
                f["lines_with_code"] += 1
                if m.group(2) == "0":
                    f["never_executed"].append(int(m.group(1)))
                else:
                    f["lines_executed"] += 1
        self.extra["source_lines_reached"] = files

    # ---- C18: the same workload under every configuration -----------------
    def configurations(self):
        spec = PLAN[self.prop]["configurations"][self.tier]
        base, blocks = None, spec["blocks"]
        results = {}
        errs = []
        self.builds.update(build_all([n for n in spec["flavours"] if n not in self.builds]))
        tasks = queue.Queue()
        for n in spec["flavours"]:
            for k in range(WORKERS):
                tasks.put((n, k))

        def loop():
            while not errs:
                try:
                    n, k = tasks.get_nowait()
                except queue.Empty:
                    return
                args = ["--prop", self.prop, "--mode", "digest", "--seed", str(self.seed), "--count", str(blocks),
                        "--shard", str(k), "--shards", str(WORKERS)]
                try:
                    done, viol = worker(FLAVOURS[n], args, 700 if self.tier == "quick" else 3000, self.tmp, f"dig-{n}-{k}")
                except Inconclusive as e:
                    errs.append(e)
                    return
                with self.lock:
                    for v in viol:
                        v.update(flavour=n, mode="digest", args=args)
                        self.violations.append(v)
                    if done:
                        self.absorb(done)
                        self.sketch |= popcount_or([done["sketch"]])
                        results[(n, k)] = done["blocks"]

        ts = [threading.Thread(target=loop) for _ in range(WORKERS)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if self.violations:
            return
        if errs:
            raise errs[0]
        base = spec["flavours"][0]
        compared = 0
        for n in spec["flavours"][1:]:
            for k in range(WORKERS):
                a, b = results[(base, k)], results[(n, k)]
                if len(a) != len(b):
                    raise Inconclusive("digest lists of different lengths")
                for i, (x, y) in enumerate(zip(a, b)):
                    compared += 1
                    if x != y and len(self.violations) < 3:
                        unit = k + i * WORKERS
                        self.violations.append(self.difference(base, n, unit))
        self.extra["configurations"] = {n: FLAVOURS[n]["what"] for n in spec["flavours"]}
        self.extra["blocks_compared"] = compared
        if compared == 0:
            raise Inconclusive("no blocks compared")

    def difference(self, a, b, unit):
        traces = []
        args = ["--prop", self.prop, "--mode", "digest", "--seed", str(self.seed), "--count", str(unit + 1), "--only", str(unit)]
        for n in (a, b):
            p = os.path.join(self.tmp, f"trace-{n}")
            try:
                sh([binary(FLAVOURS[n])] + args + ["--trace", p], env_for(FLAVOURS[n]), HARNESS, 120)
                traces.append(open(p, encoding="utf-8", errors="replace").read().splitlines())
            except (subprocess.TimeoutExpired, OSError):
                traces.append([])
        what = f"results differ between the configurations {a} and {b}"
        for x, y in zip(*traces):
            if x != y:
                what += f": {a}: {x[:700]} ## {b}: {y[:700]}"
                break
        return dict(unit=unit, what=what, flavour=a, other=b, mode="digest", args=args)

    # ---- small programs compiled against the crate as a user would ----------
    def probe(self, name, bins, features, args=()):
        """Builds one program per entry. Returns ({program: executable}, {program: errors}, environment)."""
        d = os.path.join(self.tmp, name)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(os.path.join(d, "src", "bin"))
        with open(os.path.join(d, "Cargo.toml"), "w") as f:
            f.write(f'[package]\nname = "{name}"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\n'
                    f'arraystring = {{ path = "/repo", default-features = false, features = [{features}] }}\n')
        for b, text in bins.items():
            with open(os.path.join(d, "src", "bin", f"{b}.rs"), "w") as f:
                f.write(text)
        env = env_for(dict(name=name, features=[]))
        with fresh(name):
            try:
                rc, out, err = sh(["cargo", "+stable", "build", "--offline", "--keep-going", "--message-format=json", "--quiet", *args], env, d, 300)
            except subprocess.TimeoutExpired:
                raise Inconclusive(f"building the programs of {name} timed out")
        errors = {}
        built = {}
        for line in out.decode(errors="replace").splitlines():
            try:
                m = json.loads(line)
            except ValueError:
                continue
            t = m.get("target", {}).get("name")
            if m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
                errors.setdefault(t, []).append(m["message"])
            if m.get("reason") == "compiler-artifact" and m.get("executable"):
                built[t] = m["executable"]
        if "arraystring" in errors or any(b not in built and b not in errors for b in bins):
            raise Inconclusive(f"the programs of {name} could not be built:\n" + err.decode(errors="replace")[-3000:])
        return built, errors, env

    # ---- C21: programs that use strings as plain values ---------------------
    def values(self):
        d = os.path.join(HERE, "probes")
        bins = {f[:-3]: open(os.path.join(d, f), encoding="utf-8").read() for f in sorted(os.listdir(d)) if f.endswith(".rs")}
        ran = 0
        for how, args in (("unoptimised", []), ("optimised", ["--release"])):
            built, errors, env = self.probe("values", bins, '"std"', args)
            for b in bins:
                if b not in built:
                    what = f"program {b} is refused by the compiler: " + "; ".join(m["message"] for m in errors[b])[:600]
                else:
                    try:
                        rc, o, e = sh([built[b]], env, self.tmp, 60)
                    except subprocess.TimeoutExpired:
                        raise Inconclusive(f"program {b} timed out")
                    ran += 1
                    if rc == 0:
                        continue
                    what = f"program {b}, {how}, fails ({rc}): {(o + e).decode(errors='replace')[-600:]}"
                self.violations.append(dict(unit=None, flavour="probe", mode="values", args=[], what=what))
            if self.violations:
                break
        self.extra["programs_run"] = ran
        self.events += ran

    # ---- C15: which capacities does the compiler accept? -------------------
    def capacities(self):
        inside = list(range(1, 256))
        outside = [0, 256, 257, 258, 300, 384, 511, 512, 513, 1000, 1024, 4096, 65535, 65536, 65537]
        lines = [f"    let _ = ArrayString::<{n}>::new().len();\n" for n in inside]
        bins = {f"out{n}": PROBE.replace("@N@", str(n)) for n in outside}
        bins["inside"] = "use arraystring::prelude::*;\nfn main() {\n" + "".join(lines) + "}\n"
        built, errors, env = self.probe("probe", bins, "")
        refused = set()
        for m in errors.get("inside", []):
            for s in m["spans"]:
                if s["is_primary"]:
                    k = s["line_start"] - 3
                    if 0 <= k < len(inside):
                        refused.add(inside[k])
        if "inside" in errors and not refused:
            raise Inconclusive("unexpected errors from the capacity probe:\n" + json.dumps(errors["inside"])[:3000])
        self.extra["capacities_accepted"] = len(inside) - len(refused)
        self.extra["capacities_refused_outside"] = [n for n in outside if f"out{n}" not in built]
        self.events += len(inside) + len(outside)
        if refused:
            self.violations.append(dict(unit=None, flavour="probe", mode="capacities", args=[],
                                        what=f"the compiler refuses capacities {sorted(refused)[:20]}"))
        for n in outside:
            if f"out{n}" not in built:
                continue
            try:
                rc, o, e = sh([built[f"out{n}"]], env, d, 60)
            except subprocess.TimeoutExpired:
                raise Inconclusive(f"the probe of capacity {n} timed out")
            if rc != 0:
                self.violations.append(dict(unit=None, flavour="probe", mode="capacities", args=[],
                                            what=f"capacity {n} is accepted but does not work: {(o + e).decode(errors='replace')[-400:]}"))

    # ---- verdict ------------------------------------------------------------
    def known(self):
        """Recorded findings: 'KNOWN property=<id> <exact witness>' lines."""
        k = []
        try:
            for line in open(os.path.join(HERE, "KNOWN_FINDINGS"), encoding="utf-8"):
                m = re.match(r"KNOWN property=(\w+) (.*)", line.rstrip("\n"))
                if m and m.group(1) == self.prop:
                    k.append(m.group(2))
        except OSError:
            pass
        return k

    def report(self):
        known = self.known()
        new = []
        hit = set()
        for v in self.violations:
            w = [k for k in known if v["what"].startswith(k)]
            if w:
                hit.update(w)
            else:
                new.append(v)
        for w in known:
            print(f"KNOWN-FINDING: property={self.prop} {w}")
        for n, v in enumerate(new[:4]):
            os.makedirs(REPLAYS, exist_ok=True)
            path = os.path.join(REPLAYS, f"{self.prop}-{n}.json")
            if v.get("args") and v.get("unit") is not None and v["flavour"] in FLAVOURS and v["mode"] != "digest":
                a = list(v["args"])
                a += ["--only", str(v["unit"])]
                v["replay_args"] = a
                fl = FLAVOURS[v["flavour"]]
                if not fl.get("miri"):
                    try:
                        rc, o, e = sh([binary(fl)] + a, env_for(fl), HARNESS, 60)
                        for line in o.decode(errors="replace").splitlines():
                            if line.startswith('{"kind":"violation"'):
                                v["history"] = json.loads(line).get("history")
                                break
                    except (subprocess.TimeoutExpired, ValueError, OSError):
                        pass
            v["property"] = self.prop
            v["build"] = " ".join(cargo(FLAVOURS[v["flavour"]], "build")) if v["flavour"] in FLAVOURS else None
            with open(path, "w") as f:
                json.dump(v, f, indent=1, ensure_ascii=False)
            print(f"  {v['flavour']}/{v['mode']} unit {v.get('unit')}: {v['what'][:1500]}")
            print(f"VIOLATION property={self.prop} replay={path}")
        self.evidence(len(new))
        return 1 if new else 0

    def evidence(self, violations):
        os.makedirs(EVIDENCE, exist_ok=True)
        cov = {
            "evaluations": self.events,
            "distinct_nontrivial": bin(self.sketch).count("1"),
            "rule": RULE[self.prop],
            "samples": self.samples,
            "library_calls_observed": self.calls,
            "workload_units": self.units,
            "runs": self.runs,
            "observed_by_operation_and_outcome": dict(sorted(self.seen.items())),
            "findings_against_other_properties": self.foreign,
            "build_s": self.builds,
        }
        if self.notes:
            cov["notes"] = self.notes
        cov.update(self.extra)
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": "exploration",
            "coverage": cov,
            "assumptions": ASSUME + PLAN[self.prop].get("assume", []),
            "wall_s": round(time.time() - self.t0, 1),
            "violations": violations,
        }
        tmp = os.path.join(EVIDENCE, f".{self.prop}.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        os.replace(tmp, os.path.join(EVIDENCE, f"{self.prop}.json"))


PROBE = """use arraystring::prelude::*;
fn main() {
    const N: usize = @N@;
    assert_eq!(ArrayString::<N>::capacity(), N, "capacity()");
    let mut s = ArrayString::<N>::new();
    for k in 0..N {
        assert!(s.try_push('x').is_ok(), "push {k}");
        assert_eq!(s.len(), k + 1, "len after push {k}");
    }
    assert!(s.try_push('x').is_err(), "one too many");
    assert_eq!(s.as_str(), "x".repeat(N));
    assert_eq!(std::mem::size_of::<ArrayString<N>>() >= N, true);
}
"""


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        v = json.load(open(sys.argv[2]))
        print(v["what"])
        if v.get("flavour") not in FLAVOURS or not v.get("args"):
            return 1
        names = [v["flavour"]] + ([v["other"]] if v.get("other") else [])
        build_all(names)
        rc = 0
        for n in names:
            fl = FLAVOURS[n]
            extra = ["--trace", f"/tmp/trace-{n}"] if v.get("other") else []
            rc |= subprocess.call(argv_for(fl, v.get("replay_args") or v["args"]) + extra, env=env_for(fl), cwd=HARNESS)
        if v.get("other"):
            rc = subprocess.call(["diff"] + [f"/tmp/trace-{n}" for n in names])
        return 1 if rc else 0
    if sys.argv[1:] == ["--setup"]:
        rc, out, err = sh(cargo(FLAVOURS["dev"], "build"), env_for(FLAVOURS["dev"]), HARNESS, 900)
        sys.stderr.write(err.decode(errors="replace")[-2000:])
        return 0 if rc == 0 else 1
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    if "--quick" in sys.argv:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = Check(prop, tier, seed)
    try:
        c.go()
        rc = c.report()
        print(f"{prop} {tier} seed {seed}: {'violated' if rc else 'held'} on {c.events} observed operations "
              f"({bin(c.sketch).count('1')} distinct), {c.units} units, {time.time() - c.t0:.1f} s")
        return rc
    except (Inconclusive, subprocess.TimeoutExpired) as e:
        print(f"{prop}: no verdict: {e}", file=sys.stderr)
        return 2
    finally:
        shutil.rmtree(c.tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
