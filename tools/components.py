"""How each property is decided: which monitors run for it, built from what."""
import concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

import vendor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TARGET = os.path.join(HERE, "target")
QUICK_LIMIT, THOROUGH_LIMIT = 150, 600

class NoVerdict(Exception):
    pass

def env(**more):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO", "RUST"))}
    e.update(HOME="/root", RUSTUP_TOOLCHAIN="1.81.0", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             CARGO_INCREMENTAL="0", RUST_BACKTRACE="0", RUSTFLAGS="-Awarnings",
             PATH="/opt/vp/lunatic/bin:/root/.cargo/bin:" + os.environ.get("PATH", "/usr/bin:/bin"))
    e.update(more)
    return e

def sources(crate):
    """A digest of what a crate is built from, apart from what comes from the registry."""
    h = hashlib.sha256()
    for top in ("/repo", os.path.join(HERE, crate), os.path.join(HERE, "shim"), os.path.join(HERE, "native", "src"), os.path.join(HERE, "liveview", "lib")):
        for path, dirs, files in os.walk(top):
            dirs[:] = sorted(d for d in dirs if d not in (".git", "target", "node_modules"))
            for f in sorted(files):
                name = os.path.join(path, f)
                if f.endswith((".rs", ".toml", ".lock", ".js", ".html")) and os.path.isfile(name):
                    h.update(name.encode() + b"\0" + hashlib.sha256(open(name, "rb").read()).digest())
    return h.hexdigest()

def fresh(crate, target):
    """Has everything built again that is not from the registry if its content has changed, whatever the times of the files are."""
    now, stamp = sources(crate), os.path.join(TARGET, target, "sources")
    if os.path.exists(stamp) and open(stamp).read() == now:
        return lambda: None
    lock = open(os.path.join(HERE, crate, "Cargo.lock")).read()
    ours = [re.search(r'name = "(.*)"', p).group(1) for p in lock.split("[[package]]")[1:] if "\nsource = " not in p]
    for path, dirs, _ in os.walk(os.path.join(TARGET, target)):
        if os.path.basename(path) == ".fingerprint":
            for d in dirs:
                if re.sub(r"-[0-9a-f]{16}$", "", d) in ours:
                    shutil.rmtree(os.path.join(path, d))
            dirs[:] = []
        else:
            dirs[:] = [d for d in dirs if d not in ("deps", "incremental", "examples")]
    def done():
        with open(stamp, "w") as f:
            f.write(now)
    return done

def build(crate, target, args=(), **more):
    done = fresh(crate, target)
    cmd = ["cargo", "build", "--offline", "--release", "-q", *args]
    r = subprocess.run(cmd, cwd=os.path.join(HERE, crate), env=env(CARGO_TARGET_DIR=os.path.join(TARGET, target), **more),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
    if r.returncode:
        raise NoVerdict(f"{crate} does not build against /repo:\n" + r.stdout[-6000:])
    done()

def limit(tier):
    return THOROUGH_LIMIT if tier == "thorough" else QUICK_LIMIT

def run_monitor(cmd, pid, tier, seed, name, out, extra_env=None, slack=150):
    """Runs a monitor which writes a report; a death is told apart from a verdict."""
    if os.path.exists(out):
        os.remove(out)
    try:
        r = subprocess.run(cmd, env=env(**(extra_env or {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=limit(tier) + slack)
    except subprocess.TimeoutExpired:
        raise NoVerdict(f"{name}: out of time")
    text = r.stdout.decode("utf-8", "replace")
    if os.path.exists(out):
        report = json.load(open(out))
    else:
        m = re.search(r"MON-DIED (\S+) (\d+) section=(.*?) index=(\d+)", text)
        if r.returncode == 77 and m:
            why = {"MON-OVERSIZE": "asked for {} bytes of memory at once",
                   "MON-SIGNAL": "died of signal {}", "MON-SPIN": "used the processor for 45 s without an end"}
            message = why.get(m.group(1), m.group(1)).format(m.group(2))
            violation = {"section": m.group(3), "index": int(m.group(4)), "message": message}
        elif r.returncode in (-11,):
            violation = {"section": "", "index": 0, "message": "died of signal 11 (out of stack or invalid access)\n" + text[-1500:]}
        else:
            raise NoVerdict(f"{name}: ended with {r.returncode} and no report: {text[-3000:]}")
        report = {"evaluations": 1, "distinct_nontrivial": 1, "rule": "", "samples": [], "violations": [violation]}
    for v in report["violations"]:
        v.update(property=pid, component=name, seed=seed, tier=tier)
    report["component"] = name
    return report

def mon(scale=1.0, assumptions=()):
    def run(pid, tier, seed, extra=()):
        build("native", "native")
        out = os.path.join(TARGET, f"report-{pid}-{os.getpid()}.json")
        try:
            r = run_monitor([os.path.join(TARGET, "native/release/mon"), pid, "--tier", tier, "--seed", str(seed),
                             "--limit", str(limit(tier)), "--scale", str(scale), "--out", out, *extra],
                            pid, tier, seed, "mon", out)
        finally:
            if os.path.exists(out):
                os.remove(out)
        r["assumptions"] = list(assumptions)
        return r
    return run

# ---------------------------------------------------------------- live components

def lv(scale=1.0, assumptions=()):
    def run(pid, tier, seed, extra=()):
        build("liveview", "liveview")
        out = os.path.join(TARGET, f"report-{pid}-{os.getpid()}.json")
        try:
            r = run_monitor([os.path.join(TARGET, "liveview/release/lv"), pid, "--tier", tier, "--seed", str(seed),
                             "--limit", str(limit(tier)), "--scale", str(scale), "--out", out,
                             "--browser", os.path.join(HERE, "liveview/browser/browser.mjs"), *extra],
                            pid, tier, seed, "lv", out)
        finally:
            if os.path.exists(out):
                os.remove(out)
        r["assumptions"] = list(assumptions)
        return r
    return run

# ---------------------------------------------------------------- undefined behaviour

SERVER = [f"C{i:02}" for i in range(1, 22)]
NIGHTLY = "nightly-x86_64-unknown-linux-gnu"
# Workloads which take long come first.
SLOW_FIRST = sorted(SERVER, key=lambda p: ["C12", "C01", "C10", "C11", "C09", "C03", "C06", "C02", "C14", "C15"].index(p)
                    if p in ("C12", "C01", "C10", "C11", "C09", "C03", "C06", "C02", "C14", "C15") else 99)

NARROW = "i686-unknown-linux-gnu"

def miri_env(seed=0, narrow=False):
    # Lunatic processes share no memory, so what would be a race between threads is none here.
    n = "32" if narrow else ""
    return env(RUSTUP_TOOLCHAIN=NIGHTLY, XDG_CACHE_HOME=os.path.join(TARGET, "cache" + n), CARGO_TARGET_DIR=os.path.join(TARGET, "miri" + n),
               CARGO_CFG_HTTPARSE_DISABLE_SIMD="1",
               MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-permissive-provenance -Zmiri-disable-data-race-detector "
                         f"-Zmiri-seed={seed}")

def miri_run(args, seed, timeout, narrow=False):
    out = os.path.join(TARGET, "vendor")
    config = ["--config", 'source.crates-io.replace-with="cached"', "--config", f'source.cached.directory="{out}"']
    if narrow:
        config += ["--target", NARROW]
    return subprocess.run(["cargo", "miri", "run", *config, "-q", "--offline", "--", *args], cwd=os.path.join(HERE, "native"),
                          env=miri_env(seed, narrow), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)

def build_miri(narrow=False):
    n = "32" if narrow else ""
    vendor.make(os.path.join(HERE, "native", "Cargo.lock"), os.path.join(TARGET, "vendor"))
    if not os.path.exists(os.path.join(TARGET, "cache" + n, "miri")):
        r = subprocess.run(["cargo", "miri", "setup", *(["--target", NARROW] if narrow else [])], cwd=os.path.join(HERE, "native"),
                           env=miri_env(0, narrow), timeout=700, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise NoVerdict("the interpreter cannot be set up: " + r.stdout[-3000:])
    done = fresh("native", "miri" + n)
    r = miri_run(["none"], 0, 700, narrow)
    text = r.stdout.decode("utf-8", "replace")
    if "unknown property none" not in text:
        raise NoVerdict("native does not build for the interpreter: " + text[-4000:])
    done()

def narrow(pid, tier, seed, only=None):
    """The workloads of a property where usize has 32 bits, as it has on the target; small inputs, run by the interpreter.

    Several seeds side by side, of which the first is the given one."""
    cases, each, most = (150, 60, 500) if tier == "thorough" else (16, 8, 150)
    total = {"component": "narrow", "evaluations": 0, "distinct_nontrivial": 0, "samples": [], "violations": [], "incomplete": [],
             "rule": "The same with small inputs (and with amounts which need more than 32 bits) where usize has 32 bits."}
    try:
        build_miri(True)
    except subprocess.TimeoutExpired:
        total["incomplete"].append("not built in time")
        return total
    def run(n):
        try:
            r = miri_run([pid, "--cases", str(cases), "--each", str(each), "--seed", str(n)], n, most, True)
        except subprocess.TimeoutExpired:
            return n, None, "out of time"
        # undefined behaviour, which C22 is about, ends a run as well
        text = r.stdout.decode("utf-8", "replace")
        return n, from_output(text), f"ended with {r.returncode}: {text[-400:]}"
    with concurrent.futures.ThreadPoolExecutor(6) as pool:
        for n, report, note in pool.map(run, only or [seed + 1000 * i for i in range(6)]):
            if not report:
                total["incomplete"].append(note)
                continue
            total["evaluations"] += report["evaluations"]
            total["distinct_nontrivial"] += report["distinct_nontrivial"]
            for v in report["violations"]:
                total["violations"].append({**v, "property": pid, "component": "narrow", "seed": n, "tier": tier})
    return total

def build_asan():
    build("native", "asan", ["--target", "x86_64-unknown-linux-gnu"], RUSTC_BOOTSTRAP="1",
          RUSTFLAGS="-Awarnings -Zsanitizer=address --cfg mon_asan")

INTACT = "the handler got the state"
UNSAFE = "unsafe precondition(s) violated"

def gather(pid, tier, seed, name, jobs, rule):
    """Runs jobs side by side; each returns (name, report or None, violation or None, note)."""
    total = {"component": name, "evaluations": 0, "distinct_nontrivial": 0, "rule": rule, "samples": [], "violations": [],
             "workloads": {}, "incomplete": []}
    with concurrent.futures.ThreadPoolExecutor(8) as pool:
        for job, report, violation, note in pool.map(lambda j: j(), jobs):
            if report:
                total["evaluations"] += report["evaluations"]
                total["distinct_nontrivial"] += report["distinct_nontrivial"]
                total["workloads"][job] = report["cases_per_section"]
                for v in report["violations"]:
                    if INTACT in v["message"]:
                        violation = violation or v
            if violation:
                violation = {"section": job, "index": 0, **violation, "property": pid, "component": name, "seed": seed, "tier": tier}
                total["violations"].append(violation)
            if note:
                total["incomplete"].append(f"{job}: {note}"[:400])
    if not total["violations"] and len(total["workloads"]) < len(jobs) // 2:
        raise NoVerdict(f"{name}: most workloads did not come to an end: {total['incomplete'][:5]}")
    return total

def from_output(text):
    at = text.find("\n{\n") + 1
    try:
        return json.loads(text[at:text.rindex("}") + 1])
    except ValueError:
        return None

def miri(pid, tier, seed):
    build_miri()
    cases, each = (60, 60) if tier == "thorough" else (5, 10)
    def job(p):
        def run():
            try:
                r = miri_run([p, "--cases", str(cases), "--each", str(each), "--seed", str(seed)], seed, 900 if tier == "thorough" else 420)
            except subprocess.TimeoutExpired:
                return p, None, None, "out of time"
            text = r.stdout.decode("utf-8", "replace")
            m = re.search(r"error: Undefined Behavior: .*", text)
            if m or (UNSAFE in text and "abnormal termination" in text):
                at = m.start() if m else text.find(UNSAFE)
                return p, None, {"message": "the interpreter reports: " + text[at:at + 1800]}, None
            report = from_output(text)
            return p, report, None, None if report else text[-300:]
        return run
    return gather(pid, tier, seed, "miri", [job(p) for p in SLOW_FIRST],
                  "The workloads of C01 to C21 (small inputs) are run by an interpreter which reports every access outside of what is valid, "
                  "use of uninitialised memory, invalid value, call through a pointer of another type and broken aliasing rule.")

def asan(pid, tier, seed):
    build_asan()
    binary = os.path.join(TARGET, "asan/x86_64-unknown-linux-gnu/release/mon")
    scale, most = (10, 150) if tier == "thorough" else (0.5, 12)
    def job(p):
        def run():
            try:
                r = subprocess.run([binary, p, "--scale", str(scale), "--limit", str(most), "--seed", str(seed)],
                                   env=env(ASAN_OPTIONS="detect_leaks=0:exitcode=99:allocator_may_return_null=0"),
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=most + 150)
            except subprocess.TimeoutExpired:
                return p, None, None, "out of time"
            text = r.stdout.decode("utf-8", "replace")
            m = re.search(r"ERROR: AddressSanitizer:? (\S+)", text)
            if m and m.group(1) not in ("stack-overflow", "out", "allocation-size-too-big", "out-of-memory"):
                return p, None, {"message": "the sanitizer reports: " + text[m.start():m.start() + 1800]}, None
            if UNSAFE in text and r.returncode not in (0, 1):
                return p, None, {"message": text[-1800:]}, None
            report = from_output(text)
            return p, report, None, None if report else f"ended with {r.returncode}: " + text[-300:]
        return run
    return gather(pid, tier, seed, "asan", [job(p) for p in SLOW_FIRST],
                  "The workloads of C01 to C21 are run with AddressSanitizer and the checks of the standard library's unsafe functions.")

# ---------------------------------------------------------------- the real runtime

def build_e2e():
    build("e2e", "e2e", ["--target", "wasm32-wasi"], RUSTFLAGS="")

def e2e(pid, tier, seed):
    import e2e as driver
    build_e2e()
    wasm = os.path.join(TARGET, "e2e/wasm32-wasi/release/e2e.wasm")
    try:
        report = driver.run(pid, tier, seed, wasm, env(), 150 if tier == "thorough" else 18)
    except driver.Died as e:
        raise NoVerdict(f"e2e: {e}")
    for v in report["violations"]:
        v.update(property=pid, component="e2e", seed=seed, tier=tier)
    return report

def build_e2elv():
    build("e2elv", "e2elv", ["--target", "wasm32-wasi"], RUSTFLAGS="")

def e2elv(pid, tier, seed):
    import e2elv as driver
    build_e2elv()
    build("liveview", "liveview")
    wasm = os.path.join(TARGET, "e2elv/wasm32-wasi/release/e2elv.wasm")
    try:
        report = driver.run(pid, tier, seed, wasm, os.path.join(TARGET, "liveview/release/lv"),
                            os.path.join(HERE, "liveview/browser/browser.mjs"), env(), 120 if tier == "thorough" else 15)
    except driver.Died as e:
        raise NoVerdict(f"e2elv: {e}")
    for v in report["violations"]:
        v.update(property=pid, component="e2elv", seed=seed, tier=tier)
    return report

MEMORY = ("transports, processes and messages are those of an in-memory model of the lunatic runtime (shim/lunatic)",)

BROWSER = ("the client script runs in node on a model of the document (liveview/browser/dom.mjs)",
           "derive_builder and malvolio_codegen, which cannot be had offline, are replaced by stand-ins (shim/)")

SETUP = [lambda: build("native", "native"), lambda: build("liveview", "liveview"), build_miri, lambda: build_miri(True), build_asan, build_e2e, build_e2elv]

PLAN = {
    "C01": [mon(4, MEMORY), e2e, narrow],
    "C02": [mon(3, MEMORY), e2e, narrow],
    "C03": [mon(4, MEMORY), e2e, narrow],
    "C04": [mon(4), narrow],
    "C05": [mon(4), e2e, narrow],
    "C06": [mon(3, MEMORY), narrow],
    "C07": [mon(4), narrow],
    "C08": [mon(4)],
    "C09": [mon(4, MEMORY), e2e],
    "C10": [mon(6, MEMORY), e2e],
    "C11": [mon(4, MEMORY), e2e],
    "C12": [mon(6, MEMORY), e2e],
    "C13": [mon(3, MEMORY), e2e],
    "C14": [mon(4), e2e, narrow],
    "C15": [mon(4, MEMORY), e2e, narrow],
    "C16": [mon(4, MEMORY), e2e, narrow],
    "C17": [mon(4, MEMORY), e2e, narrow],
    "C18": [mon(4, MEMORY), e2e, narrow],
    "C19": [mon(4, MEMORY), e2e, narrow],
    "C20": [mon(4, MEMORY), e2e, narrow],
    "C21": [mon(5, MEMORY), e2e],
    "C22": [asan, e2e, miri],
    "C23": [lv(5, MEMORY + BROWSER), e2elv],
    "C24": [lv(5, MEMORY + BROWSER), e2elv],
    "C25": [lv(6, MEMORY + BROWSER), e2elv],
    "C26": [lv(5, BROWSER[1:])],
    "C27": [lv(4, MEMORY + BROWSER), e2elv],
    "C28": [lv(5, MEMORY + BROWSER), e2elv],
}

def replay(v):
    if v["component"] in ("mon", "lv"):
        return {"mon": mon, "lv": lv}[v["component"]]()(v["property"], v["tier"], v["seed"], ["--section", v["section"], "--index", str(v["index"])])
    if v["component"] == "narrow":
        return narrow(v["property"], v["tier"], v["seed"], [v["seed"]])
    for component in PLAN[v["property"]]:
        r = component(v["property"], v["tier"], v["seed"])
        if r["component"] == v["component"]:
            return r
    raise SystemExit("unknown component")

NOT_APPLICABLE = {}
NOTES = {"C22": (
    "runtime monitoring: the workloads of all other checks of the server under the Miri interpreter and AddressSanitizer",
    "Held on the executions observed (counted in the evidence); under the interpreter, they are small ones. Built for this machine, not for wasm; data races are not looked for, since lunatic processes share no memory."),
  "*": (
    "runtime monitoring: generated and hostile workloads on the real code, judged by an independent reference model",
    "Held on the executions observed (counted in the evidence); says nothing about executions that were not driven.")}
