#!/usr/bin/env python3
"""check.py <property>: builds the monitor from /repo's working tree, runs its workload, decides, writes evidence.

exit 0: held on everything explored; 1 + VIOLATION line: broken; anything else: no answer (never a verdict)."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

START = time.time()
PROP = sys.argv[1] if len(sys.argv) > 1 else ""
if PROP not in CHECKS:
    print("usage: check.py", " | ".join(sorted(CHECKS)))
    sys.exit(2)
C = CHECKS[PROP]
TIER = os.environ.get("VERIF_TIER", "quick")
for a in sys.argv[2:]:
    if a.startswith("--tier="):
        TIER = a.split("=", 1)[1]
if TIER not in ("quick", "thorough"):
    TIER = "quick"
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = 1
HARNESS = os.path.join(HERE, "harness")
TARGET = os.path.join(HERE, "target")
EVID = os.path.join(HERE, "evidence")
DEADLINE = START + (840 if TIER == "quick" else 6 * 3600)


def no_answer(why):
    print(f"NO-ANSWER property={PROP} {why}")
    sys.stdout.flush()
    sys.exit(2)


MIRI = ["cargo", "+nightly", "miri", "run", "--locked", "--offline", "-q", "--bin"]
ASAN_DIR = os.path.join(TARGET, "asan", "x86_64-unknown-linux-gnu", "debug")
TSAN_DIR = os.path.join(TARGET, "tsan", "x86_64-unknown-linux-gnu", "debug")


def cargo_env():
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    env.pop("RUSTFLAGS", None)
    env.pop("CARGO_TARGET_DIR", None)
    env.setdefault("MIRIFLAGS", "-Zmiri-disable-isolation -Zmiri-ignore-leaks")
    return env


def build(bins, flavour="plain"):
    """plain; asan, tsan: the same harness with AddressSanitizer, ThreadSanitizer; miri: interpreted"""
    env = cargo_env()
    where, cmd = {
        "plain": (HARNESS, ["cargo", "build"]),
        "asan": (os.path.join(HERE, "asan"), ["cargo", "+nightly", "build"]),
        "tsan": (os.path.join(HERE, "tsan"), ["cargo", "+nightly", "build"]),
        # there's no building without running
        "miri": (os.path.join(HERE, "miri"), ["cargo", "+nightly", "miri", "run"]),
    }[flavour]
    if flavour == "plain":
        env["CARGO_TARGET_DIR"] = TARGET
    if flavour == "miri":
        bins = ["none"]
    cmd += ["--locked", "--offline", "-q"]
    for b in bins:
        cmd += ["--bin", b]
    r = subprocess.run(cmd, cwd=where, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout[-4000:])
        no_answer("the monitor doesn't build against this tree")


def can_isolate():
    try:
        return subprocess.run(["unshare", "-Urn", "true"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=20).returncode == 0
    except Exception:
        return False


def build_program():
    """the program as it is started from the command line"""
    env = cargo_env()
    env.update(RUSTFLAGS="--cfg tokio_unstable --cfg nargun_verif", CARGO_PROFILE_DEV_DEBUG="0", CARGO_INCREMENTAL="0")
    cmd = ["cargo", "build", "--locked", "--offline", "-q", "--bin", "nargun", "--target-dir", os.path.join(TARGET, "prog")]
    r = subprocess.run(cmd, cwd="/repo", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout[-4000:])
        no_answer("the program doesn't build")


class Agg:
    def __init__(self):
        self.counters, self.cases, self.samples, self.violations = {}, set(), [], {}
        self.evals = 0
        self.problems = []
        self.notes = []

    def feed(self, out, label):
        done = False
        for line in out.splitlines():
            if line.startswith("@n "):
                _, k, v = line.split(" ", 2)
                self.counters[k] = self.counters.get(k, 0) + int(v)
            elif line.startswith("@c "):
                self.cases.add(line[3:])
            elif line.startswith("@e "):
                self.evals += int(line[3:])
            elif line.startswith("@s "):
                kind = line[3:].split(":", 1)[0]
                if sum(1 for s in self.samples if s.startswith(kind + ":")) < 2 and len(self.samples) < 40:
                    self.samples.append(line[3:700])
            elif line.startswith("@v "):
                k, _, d = line[3:].partition(" | ")
                self.violations.setdefault(k, []).append((label, d))
            elif line.startswith("@x "):
                self.problems.append(f"{label}: {line[3:]}")
                done = True
            elif line.startswith("@done"):
                done = True
        return done


SANITIZER = re.compile(r"(ERROR: AddressSanitizer[^\n]*|error: Undefined Behavior[^\n]*|error: memory leaked[^\n]*|WARNING: ThreadSanitizer[^\n]*)")


def run_sanitized(flavour, cmd, timeout, env, agg, lock):
    """only the sanitizer decides here: what the monitors say is decided by the checks of their own properties"""
    label = flavour + ": " + " ".join(os.path.basename(c) for c in cmd[-8:])
    cwd = os.path.join(HERE, "miri") if flavour == "miri" else "/"
    with tempfile.TemporaryFile() as out, tempfile.TemporaryFile() as err:
        p = subprocess.Popen(cmd, stdout=out, stderr=err, stdin=subprocess.DEVNULL, env=env, cwd=cwd, start_new_session=True)
        killed = False
        try:
            p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            killed = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
        out.seek(0)
        err.seek(0)
        text = out.read().decode("utf-8", "replace")
        etext = err.read().decode("utf-8", "replace")
    with lock:
        own = Agg()
        done = own.feed(text, label)
        for k, v in own.counters.items():
            agg.counters[f"{flavour}_{k}"] = agg.counters.get(f"{flavour}_{k}", 0) + v
        agg.cases |= own.cases
        agg.evals += own.evals
        agg.samples += own.samples[: max(0, 40 - len(agg.samples))]
        san = SANITIZER.search(etext)
        rc = p.returncode

        def note(what):
            agg.counters[f"{flavour}_{what}"] = agg.counters.get(f"{flavour}_{what}", 0) + 1

        if san:
            agg.violations.setdefault("sanitizer", []).append((label, etext[san.start():san.start() + 2500]))
        elif not killed and rc in (-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGILL):
            agg.violations.setdefault("crash:" + signal.Signals(-rc).name, []).append((label, etext[-1500:]))
        elif killed:
            note("cut_short")
        elif done:
            note("runs")
        else:
            # something the interpreter doesn't know, or a panic
            note("gave_up")
            agg.notes.append(f"{label}: {etext[-400:]}")


def run_worker(cmd, timeout, env, agg, lock):
    label = " ".join(os.path.relpath(c, HERE) if c.startswith(HERE) else c for c in cmd)
    env = dict(env, NV_MEMORY=str(3 << 30))
    with tempfile.TemporaryFile() as out, tempfile.TemporaryFile() as err:
        p = subprocess.Popen(cmd, stdout=out, stderr=err, stdin=subprocess.DEVNULL, env=env, cwd="/", start_new_session=True)
        killed = False
        try:
            p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            killed = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
        out.seek(0)
        err.seek(0)
        text = out.read().decode("utf-8", "replace")
        etext = err.read()[-6000:].decode("utf-8", "replace")
    with lock:
        done = agg.feed(text, label)
        if killed:
            agg.problems.append(f"{label}: didn't end in {timeout} s")
        elif not done:
            rc = p.returncode
            if rc in (-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGILL, -signal.SIGABRT, -signal.SIGFPE):
                agg.violations.setdefault("crash:" + signal.Signals(-rc).name, []).append((label, etext[-1500:]))
            else:
                agg.problems.append(f"{label}: ended with {rc} {etext[-600:]}")


def main():
    os.makedirs(EVID, exist_ok=True)
    jobs = C["jobs"](TIER)
    for flavour in ("plain", "asan", "tsan", "miri"):
        bins = {j["bin"] for j in jobs if j.get("flavour", "plain") == flavour}
        if bins:
            build(sorted(bins | set(C.get("extra_bins", []))), flavour)
    if C.get("program"):
        build_program()
    agg = Agg()
    lock = threading.Lock()
    iso = can_isolate()
    env = dict(os.environ)
    env.setdefault("RUST_BACKTRACE", "0")
    scratch = tempfile.mkdtemp(prefix="nv-" + PROP + "-", dir="/tmp")
    os.chmod(scratch, 0o711)
    env["NV_SCRATCH"] = scratch
    env["NV_HARNESS"] = HARNESS
    env["NV_TARGET"] = TARGET
    parallel = 8 if (iso or not C.get("net")) else 1
    work = []
    for j in jobs:
        flavour = j.get("flavour", "plain")
        for w in range(j.get("workers", 1)):
            e = env
            if flavour == "miri":
                e = cargo_env()
                e["NV_SCRATCH"] = scratch
                # another schedule, other addresses
                e["MIRIFLAGS"] += f" -Zmiri-seed={SEED * 1000 + w}"
                cmd = MIRI + [j["bin"], "--"]
            elif flavour == "asan":
                e = dict(env, ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=1")
                cmd = [os.path.join(ASAN_DIR, j["bin"])]
            elif flavour == "tsan":
                e = dict(env, TSAN_OPTIONS="halt_on_error=1:exitcode=66:second_deadlock_stack=1")
                cmd = [os.path.join(TSAN_DIR, j["bin"])]
            else:
                cmd = [os.path.join(TARGET, "debug", j["bin"])]
            cmd += [j.get("what", PROP), f"seed={SEED}", f"worker={w}", f"tier={TIER}"]
            cmd += [f"{k}={v}" for k, v in j.get("args", {}).items()]
            work.append((flavour, cmd, j.get("timeout", 600 if TIER == "quick" else 5 * 3600), e))
    sem = threading.Semaphore(min(parallel, C.get("parallel", 8)) if parallel == 1 else C.get("parallel", 8))

    def one(flavour, cmd, timeout, env):
        with sem:
            t = min(timeout, DEADLINE - time.time())
            if t < 5:
                with lock:
                    agg.problems.append("no time left")
                return
            if flavour == "plain":
                run_worker(cmd, t, env, agg, lock)
            else:
                run_sanitized(flavour, cmd, t, env, agg, lock)

    ts = [threading.Thread(target=one, args=w) for w in work]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    shutil.rmtree(scratch, ignore_errors=True)

    known = []
    kf = os.path.join(HERE, "known-findings.json")
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf)).get("known", []) if k["property"] == PROP]
    for k in known:
        print(f"KNOWN-FINDING: property={PROP} {k['what']}")
    new = {}
    for key, occ in agg.violations.items():
        if any(k["key"] == key and all(re.search(k.get("match", ""), d) for _, d in occ) for k in known):
            continue
        new[key] = occ

    ev = {
        "property": PROP,
        "tier": TIER,
        "seed": SEED,
        "level": "exploration",
        "coverage": {
            "evaluations": agg.evals,
            "distinct_nontrivial": len(agg.cases),
            "rule": C["rule"],
            "samples": agg.samples or ["none"],
            "observed": dict(sorted(agg.counters.items())),
        },
        "assumptions": C.get("assumptions", []),
        "wall_s": round(time.time() - START, 1),
        "violations": sum(len(v) for v in new.values()),
    }
    with open(os.path.join(EVID, PROP + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")

    if new:
        rep = os.path.join(EVID, "replay")
        os.makedirs(rep, exist_ok=True)
        path = os.path.join(rep, f"{PROP}-{TIER}-{SEED}.txt")
        with open(path, "w") as f:
            for key, occ in new.items():
                for label, d in occ:
                    f.write(f"key: {key}\nworker: {label}\nwitness: {d}\n\n")
        for key, occ in list(new.items())[:10]:
            print(f"  {key}: {occ[0][1][:600]}")
        print(f"VIOLATION property={PROP} replay={path}")
        sys.stdout.flush()
        sys.exit(1)
    if agg.problems:
        for p in agg.problems[:10]:
            print("  ", p)
        no_answer(f"{len(agg.problems)} worker(s) gave no answer")
    short = [f"{k}={agg.counters.get(k, 0)}<{v}" for k, v in C.get("min", {}).items() if agg.counters.get(k, 0) < v]
    if short or agg.evals == 0 or not agg.cases:
        no_answer("too little was observed: " + " ".join(short))
    print(f"HELD property={PROP} tier={TIER} seed={SEED} evaluations={agg.evals} distinct={len(agg.cases)} wall={ev['wall_s']}s")
    for x in agg.notes[:5]:
        print("  note:", x)
    print("  observed:", " ".join(f"{k}={v}" for k, v in sorted(agg.counters.items())))
    sys.exit(0)


main()
