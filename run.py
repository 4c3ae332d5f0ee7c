#!/usr/bin/env python3
"""Driver of the monitors.

  run.py check C01 [--tier quick|thorough] [--secs N] [--only VARIANT[,VARIANT]]
  run.py replay FILE          run the one episode recorded in a replay file again
  run.py setup                check that the toolchains needed are there

exit 0: the property held on everything observed, 1: violation (witness in replays/),
2: no answer (build trouble, machine trouble, or too little was observed).
"""
import hashlib, json, os, re, resource, shutil, signal, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
sys.path.insert(0, VERIF)
from plan import PLAN, LEVEL  # noqa: E402

HOST = "x86_64-unknown-linux-gnu"
STABLE = "stable-" + HOST
SMALL = "--cfg sweep_bptree_small_nodes"

# name: (kind, toolchain, rustflags, extra cargo args, target dir below the build dir)
VARIANTS = {
    # production node capacity, debug assertions on
    "rel": ("native", STABLE, "", ["--release"], "release"),
    # node capacity 8
    "small": ("native", STABLE, SMALL, ["--release"], "release"),
    # what a user's release build executes: no debug assertions, no overflow checks
    "plain": ("native", STABLE, "", ["--profile", "plain"], "plain"),
    "plain8": ("native", STABLE, SMALL, ["--profile", "plain"], "plain"),
    "asan": ("san", "nightly", "-Zsanitizer=address", ["--release", "--target", HOST], HOST + "/release"),
    "asan8": ("san", "nightly", "-Zsanitizer=address " + SMALL, ["--release", "--target", HOST], HOST + "/release"),
    # AddressSanitizer without the debug assertions that would stop a run before it touches foreign memory
    "asanplain8": ("san", "nightly", "-Zsanitizer=address " + SMALL, ["--profile", "plain", "--target", HOST], HOST + "/plain"),
    "msan8": (
        "san",
        "nightly",
        "-Zsanitizer=memory -Zsanitizer-memory-track-origins " + SMALL,
        ["--release", "-Zbuild-std", "--target", HOST],
        HOST + "/release",
    ),
    "tsan": ("san", "nightly", "-Zsanitizer=thread", ["--release", "-Zbuild-std", "--target", HOST], HOST + "/release"),
    "tsan8": (
        "san",
        "nightly",
        "-Zsanitizer=thread " + SMALL,
        ["--release", "-Zbuild-std", "--target", HOST],
        HOST + "/release",
    ),
    # interpreter
    "miri8": ("miri", "nightly", SMALL, [], ""),
    "miritb8": ("miri", "nightly", SMALL, [], ""),
    "miriplain8": ("miri", "nightly", SMALL + " -Cdebug-assertions=off -Coverflow-checks=off", [], ""),
}
MIRI_BASE = "-Zmiri-disable-isolation"
MIRI_FLAGS = {
    "miri8": MIRI_BASE + " -Zmiri-disable-stacked-borrows",
    "miritb8": MIRI_BASE + " -Zmiri-tree-borrows",
    "miriplain8": MIRI_BASE + " -Zmiri-disable-stacked-borrows",
}
CRASH = {signal.SIGSEGV, signal.SIGABRT, signal.SIGILL, signal.SIGBUS, signal.SIGFPE, signal.SIGTRAP}
SAN = re.compile(r"(ERROR: AddressSanitizer|WARNING: MemorySanitizer|ERROR: MemorySanitizer|WARNING: ThreadSanitizer|ERROR: ThreadSanitizer|ERROR: LeakSanitizer)")
SHARE = re.compile(r"cannot be (shared|sent) between threads safely")


class Trouble(Exception):
    pass


class NotShareable(Exception):
    pass


def env_for(variant, prop, build):
    kind, tc, flags, _, _ = VARIANTS[variant]
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_PROFILE", "RUST", "MIRI", "CARGO_ENCODED"))}
    e["HOME"] = os.environ.get("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:" + os.environ.get("PATH", "/usr/bin:/bin")
    e["RUSTUP_TOOLCHAIN"] = tc
    e["RUSTFLAGS"] = flags
    e["CARGO_TARGET_DIR"] = os.path.join(build, variant)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_INCREMENTAL"] = "0"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTC_WRAPPER"] = ""
    e["RUST_BACKTRACE"] = "0"
    if kind == "miri":
        f = MIRI_FLAGS[variant]
        if prop == "C12":
            f += " -Zmiri-preemption-rate=0.05"
        if prop != "C10":
            f += " -Zmiri-ignore-leaks"
        e["MIRIFLAGS"] = f
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=86:detect_stack_use_after_return=1:allocator_may_return_null=0"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=86:second_deadlock_stack=1"
    e["MSAN_OPTIONS"] = "halt_on_error=1:exitcode=86"
    return e


def build(variant, prop, bdir):
    """returns the command prefix that runs the monitor"""
    kind, tc, _, extra, out = VARIANTS[variant]
    env = env_for(variant, prop, bdir)
    feat = ["--features", prop.lower()]
    if kind == "miri":
        cmd = ["cargo", "miri", "run", "--offline", "-q", *feat, "--bin", "vh", "--"]
        return cmd, env
    cmd = ["cargo", "build", "--offline", *feat, "--bin", "vh", *extra]
    p = subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        if prop == "C12" and SHARE.search(p.stdout):
            raise NotShareable(p.stdout)
        raise Trouble(f"building variant {variant} failed:\n" + p.stdout[-4000:])
    return [os.path.join(bdir, variant, out, "vh")], env


def limits(kind):
    def f():
        os.setsid()
        if kind == "native":
            g = 6 << 30
            resource.setrlimit(resource.RLIMIT_AS, (g, g))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

    return f


def parse(out):
    at, last, done = None, None, None
    for line in out.splitlines():
        if not line.startswith("{"):
            continue
        try:
            j = json.loads(line)
        except ValueError:
            continue
        if "at" in j:
            at = j
        elif j.get("verdict") in ("done", "ok"):
            done = j
        elif "verdict" in j:
            last = j
    return at, last, done


def judge(kind, prop, rc, out, err, killed):
    """-> (verdict, message, at, stats, detail): done / violation / foreign / none"""
    at, last, done = parse(out)
    tail = err[-6000:]
    if killed:
        return "none", "stopped by the driver: out of time", at, None, {}
    if rc == 0 and done:
        if kind == "miri" and "error: Undefined Behavior" in err:
            return "violation", "Miri: " + tail, at, None, {}
        return "done", "", at, done, {}
    if last and rc == 3 and last["verdict"] == "violation":
        return "violation", last["message"], at, None, last
    if last and rc == 5 and last["verdict"] == "foreign":
        return "foreign", last["message"], at, None, last
    if last and rc == 4:
        return "none", last["message"], at, None, last
    m = SAN.search(err)
    if m:
        return "violation", "sanitizer report: " + err[m.start() : m.start() + 3000], at, None, {}
    if kind == "miri":
        m = re.search(r"error: (Undefined Behavior|memory leaked|abnormal termination|the evaluated program leaked|the evaluated program deadlocked|the evaluated program aborted)[^\n]*", err)
        if m:
            return "violation", "Miri: " + err[m.start() : m.start() + 3000], at, None, {}
        return "none", f"Miri ended with {rc}: " + tail[-1500:], at, None, {}
    if rc < 0 and -rc in CRASH or rc in [128 + s for s in CRASH]:
        if "memory allocation of" in err and "failed" in err:
            return "violation", "memory use grows without bound (6 GB of address space used up): " + tail[-500:], at, None, {}
        return "violation", f"the process died with signal {-rc if rc < 0 else rc - 128}: " + tail[-2500:], at, None, {}
    return "none", f"worker ended with status {rc}: " + tail[-1500:], at, None, {}


class Run:
    def __init__(self, prop, tier, seed, secs, only):
        self.prop, self.tier, self.seed = prop, tier, seed
        p = PLAN[prop]
        self.plan = dict(p[tier])
        self.secs = secs or p.get(tier + "_secs") or (30 if tier == "quick" else 600)
        if only:
            self.plan = {v: self.plan.get(v, 2) for v in only}
        self.bdir = os.path.join(VERIF, "build", f"{prop}-{os.getpid()}")
        self.lock = threading.Lock()
        self.stop = threading.Event()
        self.viol = []
        self.trouble = []
        self.foreign = []
        self.notes = []
        self.stats = []
        self.per = {}
        self.built = {}
        self.procs = set()

    def worker(self, variant, cmd, env, idx):
        kind = VARIANTS[variant][0]
        # the interpreter starts long before the instrumented builds are ready
        end = time.time() + self.secs + (15 if kind == "miri" else 0)
        skip, restarts = 0, 0
        while not self.stop.is_set():
            left = int(end - time.time())
            if left < 1 and skip:
                return
            left = max(left, 2)
            args = [
                *cmd, "--prop", self.prop, "--seed", str(self.seed), "--worker", str(idx), "--secs", str(left),
                "--tier", {"native": "native", "san": "san", "miri": "miri"}[kind], "--variant", variant,
                "--skip", str(skip), "--stall", "40" if kind == "native" else "120",
            ]
            if self.tier == "thorough":
                args.append("--thorough")
            p = subprocess.Popen(args, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                                 errors="replace", preexec_fn=limits(kind))
            with self.lock:
                self.procs.add(p)
            killed = False
            # an episode in progress is finished after the deadline, so leave it ample time
            try:
                out, err = p.communicate(timeout=left + (240 if kind != "miri" else 300))
            except subprocess.TimeoutExpired:
                killed = True
                os.killpg(p.pid, signal.SIGKILL)
                out, err = p.communicate()
            with self.lock:
                self.procs.discard(p)
            if self.stop.is_set() and p.returncode < 0:
                return
            if kind == "miri" and self.prop == "C12" and SHARE.search(err):
                with self.lock:
                    self.viol.append((variant, None, "the collection cannot be shared or moved between threads:\n" + err[-3000:], {}))
                self.stop.set()
                return
            verdict, msg, at, done, detail = judge(kind, self.prop, p.returncode, out, err, killed)
            with self.lock:
                v = self.per.setdefault(variant, {"workers": 0, "episodes": 0, "events": 0})
                if restarts == 0:
                    v["workers"] += 1
                if done:
                    self.stats.append(done["stats"])
                    v["episodes"] += done["stats"]["counters"].get("episodes", 0)
                    v["events"] += done["events"]
                    return
                ep = at and at.get("episode")
                if verdict == "violation":
                    self.viol.append((variant, ep, msg, detail))
                    self.stop.set()
                    self.kill()
                    return
                if verdict == "foreign":
                    self.foreign.append(f"{variant} episode {ep}: {msg}"[:400])
                    v["episodes"] += at["at"] - skip
                else:
                    self.trouble.append(f"{variant} worker {idx} episode {ep}: {msg}"[:2500])
                    return
            skip = at["at"] + 1
            restarts += 1
            if restarts > 300:
                return

    def kill(self):
        for p in list(self.procs):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass

    def variant(self, variant, n, base):
        try:
            t = time.time()
            cmd, env = build(variant, self.prop, self.bdir)
            if VARIANTS[variant][0] == "miri":
                # compile once, before the workers start
                p = subprocess.run([*cmd, "--prop", "NONE", "--tier", "miri", "--max", "0"], cwd=HARNESS, env=env,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if "verdict" not in p.stdout:
                    if self.prop == "C12" and SHARE.search(p.stdout):
                        raise NotShareable(p.stdout)
                    raise Trouble("Miri does not build or start: " + p.stdout[-3000:])
            self.built[variant] = round(time.time() - t, 1)
        except NotShareable as e:
            with self.lock:
                self.viol.append((variant, None, "the collection cannot be shared or moved between threads: it does not compile\n" + str(e)[-3000:], {}))
            self.stop.set()
            return
        except Trouble as e:
            with self.lock:
                self.trouble.append(str(e))
            return
        ts = [threading.Thread(target=self.worker, args=(variant, cmd, env, base + i)) for i in range(n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()

    def go(self):
        start = time.time()
        ts, base = [], 0
        for v, n in self.plan.items():
            ts.append(threading.Thread(target=self.variant, args=(v, n, base)))
            base += 100
        try:
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        finally:
            if not os.environ.get("VERIF_KEEP"):
                shutil.rmtree(self.bdir, ignore_errors=True)
        return self.finish(time.time() - start)

    def finish(self, wall):
        spec = PLAN[self.prop]
        c, mx, shapes, prints, samples = {}, {}, set(), set(), []
        for s in self.stats:
            for k, v in s["counters"].items():
                c[k] = c.get(k, 0) + v
            for k, v in s["maxes"].items():
                mx[k] = max(mx.get(k, 0), v)
            shapes.update(s["shapes"])
            prints.update(s["prints"])
            samples.extend(s["samples"][:1])
        mx.pop("workers_episodes", None)
        cov = {
            "evaluations": c.get("episodes", 0),
            "distinct_nontrivial": len(prints),
            "rule": spec["rule"],
            "samples": samples[:6],
            "monitored_events": sum(v["events"] for v in self.per.values()),
            "distinct_tree_shapes": len(shapes),
            "observed": {k: v for k, v in sorted(c.items()) if k not in ("episodes",)},
            "maxima": dict(sorted(mx.items())),
            "variants": self.per,
            "build_s": self.built,
            "episodes_without_verdict": len(self.foreign),
        }
        if self.foreign:
            cov["without_verdict"] = self.foreign[:5]
        if self.trouble:
            cov["trouble"] = self.trouble[:5]
        viol = self.viol[:1]
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": LEVEL.get(self.prop, "exploration"),
            "coverage": cov,
            "assumptions": spec.get("assumptions", []),
            "wall_s": round(wall, 1),
            "violations": len(self.viol),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        known = []
        for v in self.viol:
            k = known_finding(self.prop, v[2])
            if k:
                known.append(k)
        viol = [v for v in self.viol if not known_finding(self.prop, v[2])]
        ev["violations"] = len(viol)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        for k in sorted(set(known)):
            print(f"KNOWN-FINDING: property={self.prop} {k}")
        if viol:
            variant, ep, msg, detail = viol[0]
            path = write_replay(self.prop, variant, ep, self.seed, self.tier, msg, detail)
            print(f"{self.prop}: {msg[:1500]}")
            print(f"VIOLATION property={self.prop} replay={path}")
            return 1
        for t in self.trouble[:3]:
            print(f"{self.prop}: trouble: {t[:3000]}")
        lacking = [k for k in spec["need"] if not (c.get(k) or mx.get(k))]
        if cov["evaluations"] < spec.get("min", 20) or cov["distinct_nontrivial"] < spec.get("min", 20) // 2:
            print(f"{self.prop}: only {cov['evaluations']} episodes observed ({cov['distinct_nontrivial']} distinct)")
            return 2
        if lacking:
            print(f"{self.prop}: never observed: {', '.join(lacking)}")
            return 2
        # a variant that could not be run at all leaves a part of the claim undecided
        silent = [v for v in self.plan if self.per.get(v, {}).get("episodes", 0) == 0]
        if silent:
            print(f"{self.prop}: nothing observed in {', '.join(silent)}")
            return 2
        if self.foreign:
            print(f"{self.prop}: {len(self.foreign)} episodes without a verdict, e.g. {self.foreign[0]}")
        print(
            f"{self.prop}: held on {cov['evaluations']} episodes ({cov['distinct_nontrivial']} distinct and non-trivial), "
            f"{cov['monitored_events']} events, {wall:.0f} s"
        )
        return 0


def known_finding(prop, msg):
    """text of a listed, unrepaired finding that explains this message"""
    p = os.path.join(VERIF, "known_findings.txt")
    if not os.path.exists(p):
        return None
    for line in open(p):
        m = re.match(r"finding: property=(\S+) match=/(.*?)/ (.*)", line)
        if m and m.group(1) == prop and re.search(m.group(2), msg):
            return m.group(3)
    return None


def write_replay(prop, variant, ep, seed, tier, msg, detail):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    tag = ep if ep is not None else "build"
    path = os.path.join(d, f"{prop}-{variant}-{tag}.json")
    with open(path, "w") as f:
        json.dump({"property": prop, "variant": variant, "episode": ep, "seed": seed, "tier": tier, "message": msg,
                   "trace": detail.get("trace", [])}, f, indent=1)
    return path


def replay(path):
    r = json.load(open(path))
    prop, variant = r["property"], r["variant"]
    kind = VARIANTS[variant][0]
    bdir = os.path.join(VERIF, "build", f"replay-{os.getpid()}")
    try:
        try:
            cmd, env = build(variant, prop, bdir)
        except NotShareable as e:
            print(str(e)[-3000:])
            print(f"VIOLATION property={prop} replay={path}")
            return 1
        except Trouble as e:
            print(e)
            return 2
        if r["episode"] is None:
            print("the build succeeds now")
            return 0
        args = [*cmd, "--prop", prop, "--episode", r["episode"], "--variant", variant, "--tier", kind, "--stall", "40"]
        if r.get("tier") == "thorough":
            args.append("--thorough")
        # interleavings of threads differ from run to run
        for _ in range(20 if prop == "C12" else 1):
            p = subprocess.run(args, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                               errors="replace", preexec_fn=limits(kind))
            v, msg, _, _, detail = judge(kind, prop, p.returncode, p.stdout, p.stderr, False)
            if v == "violation":
                print(msg[:3000])
                for t in detail.get("trace", []):
                    print("   ", t)
                print(f"VIOLATION property={prop} replay={path}")
                return 1
        print(f"{v} {msg[:1000]}")
        return 0 if v in ("done", "foreign") else 2
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(bdir, ignore_errors=True)


def setup():
    for tc in (STABLE, "nightly"):
        subprocess.run(["cargo", "--version"], env={**os.environ, "RUSTUP_TOOLCHAIN": tc,
                       "PATH": "/root/.cargo/bin:" + os.environ["PATH"]}, check=True)
    # checks build for themselves from /repo's working tree; this proves that the harness builds
    bdir = os.path.join(VERIF, "build", "setup")
    try:
        build("small", "C01", bdir)
    except Trouble as e:
        print(e)
        return 1
    finally:
        shutil.rmtree(bdir, ignore_errors=True)
    print("ready")
    return 0


def main():
    a = sys.argv[1:]
    opt = lambda n, d=None: a[a.index(n) + 1] if n in a else d  # noqa: E731
    if not a or a[0] == "setup":
        return setup()
    if a[0] == "replay":
        return replay(a[1])
    if a[0] == "check":
        tier = opt("--tier") or os.environ.get("VERIF_TIER") or "quick"
        seed = int(opt("--seed") or os.environ.get("VERIF_SEED") or 1)
        only = opt("--only")
        r = Run(a[1], tier, seed, int(opt("--secs") or 0), only.split(",") if only else None)
        try:
            return r.go()
        except KeyboardInterrupt:
            r.kill()
            raise
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
