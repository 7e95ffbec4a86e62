#!/usr/bin/env python3
"""check.py <Cxx> [quick|thorough]

Builds the monitors against /repo's working tree, drives the workload of one property on all cores
under supervision, and writes evidence/<Cxx>.json.  Exit 0: held on everything observed.  Exit 1 and
a line "VIOLATION property=<id> replay=<path>": violated.  Exit 2: no answer (build or harness error).
"""
import array, hashlib, json, os, resource, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(HARNESS, "target")
VMON = os.path.join(TARGET, "release", "vmon")
KNOWN = os.path.join(VERIF, "known-findings.txt")
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"
SHARDS = 8
CPU_PER_CASE = 150     # CPU seconds one case may take before it counts as not terminating (usual: < 0.05)
MEM_PER_WORKER = 3 << 30

sys.path.insert(0, VERIF)
from props import PROPS  # noqa: E402


def env():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTDOCFLAGS", "CARGO_BUILD_TARGET", "CARGO_BUILD_RUSTFLAGS"):
        e.pop(k, None)
    e.update(RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=TARGET,
             RUSTC_WRAPPER="", CARGO_TERM_COLOR="never", VMON_KNOWN=KNOWN)
    return e


def tree_hash():
    h = hashlib.sha256()
    files = [os.path.join(REPO, "Cargo.toml")]
    for d, ds, fs in os.walk(os.path.join(REPO, "src")):
        ds.sort()
        files += [os.path.join(d, f) for f in sorted(fs)]
    for f in files:
        try:
            h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
        except OSError:
            pass
    return h.hexdigest()


def build():
    """cargo decides by modification times; a tree of other contents with old times is rebuilt from scratch"""
    os.makedirs(TARGET, exist_ok=True)
    stamp = os.path.join(TARGET, "repo.hash")
    now = tree_hash()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != now:
        subprocess.run(["cargo", "clean", "--offline", "--release", "-p", "visdom", "-p", "vmon"], cwd=HARNESS,
                       env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    for attempt in (1, 2):
        p = subprocess.run(["cargo", "build", "--offline", "--release", "-q"], cwd=HARNESS, env=env(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0:
            open(stamp, "w").write(now)
            return
        if attempt == 1:
            time.sleep(1)
    print("\n".join(l for l in p.stdout.splitlines() if "error" in l)[:3000] or p.stdout[-3000:])
    print("NO ANSWER: the monitors do not build against /repo")
    sys.exit(2)


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (MEM_PER_WORKER, MEM_PER_WORKER))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def cpu_of(pid):
    try:
        f = open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError, ValueError):
        return None


class Worker:
    def __init__(self, name, seed, shard, shards, secs, cases, tmp):
        self.base = os.path.join(tmp, "%s.%d" % (name, shard))
        self.shard = shard
        self.err = open(self.base + ".err", "wb")
        self.p = subprocess.Popen(
            [VMON, "run", name, "--seed", str(seed), "--shard", str(shard), "--shards", str(shards), "--cases", str(cases),
             "--secs", str(secs), "--out", self.base + ".json", "--progress", self.base + ".pr", "--obs", self.base + ".obs"],
            stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=self.err, env=env(), preexec_fn=limits)
        self.last, self.mark = None, 0.0
        self.hung = False

    def case(self):
        try:
            return int(open(self.base + ".pr").read().strip())
        except (OSError, ValueError):
            return None

    def watch(self):
        c, cpu = self.case(), cpu_of(self.p.pid)
        if cpu is None:
            return
        if c != self.last:
            self.last, self.mark = c, cpu
        elif c is not None and cpu - self.mark > CPU_PER_CASE:
            self.hung = True
            self.p.kill()


def again(name, case):
    """run one case alone; returns ('held'|'violated'|'crash'|'hang'|'unknown', text)"""
    def lim():
        limits()
        resource.setrlimit(resource.RLIMIT_CPU, (CPU_PER_CASE, CPU_PER_CASE + 5))
    try:
        p = subprocess.run([VMON, "case", name, str(case)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           env=env(), preexec_fn=lim, timeout=300)
    except subprocess.TimeoutExpired:
        return "unknown", "no end within 300 s of wall time"
    out = p.stdout.decode("utf-8", "replace")
    if p.returncode == 0:
        return "held", out
    if p.returncode == 1:
        return "violated", out
    if p.returncode == -signal.SIGXCPU:
        return "hang", out
    if p.returncode in (-signal.SIGABRT, -signal.SIGSEGV, -signal.SIGBUS, -signal.SIGILL, -signal.SIGFPE, -signal.SIGTRAP):
        return "crash", out
    return "unknown", "exit status %s\n%s" % (p.returncode, out)


def run(name, seed, secs, cases, tmp):
    ws = [Worker(name, seed, k, SHARDS, secs, cases, tmp) for k in range(SHARDS)]
    deadline = time.time() + secs + 400
    while any(w.p.poll() is None for w in ws):
        time.sleep(0.2)
        for w in ws:
            if w.p.poll() is None:
                w.watch()
        if any(w.p.poll() == 1 for w in ws) or any(w.p.poll() not in (None, 0) for w in ws):
            # one witness is enough: give the others a moment, then stop them
            t = time.time() + 3
            while time.time() < t and any(w.p.poll() is None for w in ws):
                time.sleep(0.1)
            for w in ws:
                if w.p.poll() is None:
                    w.p.terminate()
                    w.stopped = True
        if time.time() > deadline:
            for w in ws:
                if w.p.poll() is None:
                    w.p.kill()
                    w.late = True
    for w in ws:
        w.p.wait()
        w.err.close()
    return ws


FEAT = os.path.join(VERIF, "feat")
CONFIGS = ["full", "text,insertion,destroy", "", "text", "insertion", "destroy", "text,insertion", "text,destroy", "insertion,destroy"]
PARTS = ["no feature", "text", "remove/empty/clone", "insertions", "text + remove/empty/clone", "text + insertions", "all"]


def feat_build(cfg):
    """(binary or None, compiler output)"""
    target = os.path.join(FEAT, "target")
    e = dict(env(), CARGO_TARGET_DIR=target)
    for attempt in (1, 2):
        p = subprocess.run(["cargo", "build", "--offline", "-q", "--features", cfg], cwd=FEAT, env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0:
            b = os.path.join(target, "feat-" + (cfg.replace(",", "-") or "none"))
            shutil.copy2(os.path.join(target, "debug", "feat"), b)
            return b, ""
        if attempt == 1:
            time.sleep(1)
    return None, p.stdout


def features(pid, pr, seed, tier, secs, tmp):
    """the same workload in every configuration of the cargo features: builds, and observes the same"""
    subprocess.run(["cargo", "clean", "--offline", "-p", "visdom", "-p", "feat"], cwd=FEAT,
                   env=dict(env(), CARGO_TARGET_DIR=os.path.join(FEAT, "target")), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    viols, problems, bins = [], [], {}
    counters, samples, obs = {}, [], set()
    tot = dict(cases=0, events=0)
    for cfg in CONFIGS:
        b, out = feat_build(cfg)
        if b:
            bins[cfg] = b
            tot["events"] += 1
            counters["builds"] = counters.get("builds", 0) + 1
            continue
        errs = [l for l in out.splitlines() if l.startswith("error")]
        if cfg == "full" or "could not compile" not in out:
            print("\n".join(errs)[:2000] or out[-2000:])
            return tot, counters, samples, obs, viols, ["the workload does not build with features [%s]" % cfg]
        viols.append(dict(kind="violated", case="build", message="with features [%s] the library does not build, or lacks an operation these features "
                          "are documented to provide: %s" % (cfg, "; ".join(errs)[:600]), steps=[out[-3000:]]))
    if viols:
        return tot, counters, samples, obs, viols, problems
    e = env()
    ps = {}
    for k, (cfg, b) in enumerate(bins.items()):
        base = os.path.join(tmp, "f%d" % k)
        ps[cfg] = (subprocess.Popen([b, "run", "--seed", str(seed), "--secs", str(secs), "--out", base + ".out", "--progress", base + ".pr"],
                                    stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=e, preexec_fn=limits), base)
    end = time.time() + secs + 120
    for cfg, (p, base) in ps.items():
        try:
            p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
    logs, dead = {}, {}
    for cfg, (p, base) in ps.items():
        a = array.array("Q")
        if os.path.exists(base + ".out"):
            b = open(base + ".out", "rb").read()
            a.frombytes(b[:len(b) // 64 * 64])
        logs[cfg] = {a[i]: tuple(a[i + 1:i + 8]) for i in range(0, len(a), 8)}
        if p.returncode != 0:
            try:
                dead[cfg] = (int(open(base + ".pr").read()), p.returncode)
            except (OSError, ValueError):
                problems.append("features [%s]: ended with %s" % (cfg, p.returncode))
    if len(dead) == len(ps):
        problems.append("every configuration ended early: %s" % dead)
    full = logs["full"]
    for cfg, d in logs.items():
        if cfg == "full":
            continue
        for case, parts in d.items():
            ref = full.get(case)
            if ref is None:
                continue
            tot["cases"] += 1
            for k, h in enumerate(parts):
                if not h:
                    continue
                tot["events"] += 1
                key = "[%s] part %s" % (cfg, PARTS[k])
                counters[key] = counters.get(key, 0) + 1
                obs.add(h)
                if h != ref[k] and len(viols) < 5:
                    t = [subprocess.run([bins[c], "trace", str(case), str(k)], stdout=subprocess.PIPE, env=e, preexec_fn=limits, timeout=300
                                        ).stdout.decode("utf-8", "replace").splitlines() for c in ("full", cfg)]
                    n = next((i for i, (x, y) in enumerate(zip(*t)) if x != y), min(map(len, t)))
                    viols.append(dict(kind="violated", case=case, message="case %s, part %s: features [%s] observe %r, features [full] observe %r"
                                      % (case, PARTS[k], cfg, (t[1] + [""] * (n + 1))[n][:300], (t[0] + [""] * (n + 1))[n][:300]), steps=t[0][:n][-5:]))
    # a configuration that died where the full build did not
    for cfg, (case, rc) in dead.items():
        if cfg == "full" or case not in full:
            problems.append("features [%s]: ended with %s in case %s" % (cfg, rc, case))
        else:
            viols.append(dict(kind="crash", case=case, message="features [%s]: the process ended with %s in case %s, which the full build completes" % (cfg, rc, case), steps=[]))
    h = subprocess.run([bins["full"], "html", str(next(iter(full), 1))], stdout=subprocess.PIPE, env=e).stdout.decode("utf-8", "replace")
    samples.append("document of the first case: " + h[:300])
    return tot, counters, samples, obs, viols, problems


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    pr = PROPS[pid]
    name = pr["workload"]
    t0 = time.time()
    if name != "features":
        build()
    build_s = time.time() - t0
    secs = pr.get("quick_s", 20) if tier == "quick" else pr.get("thorough_s", 420)
    if os.environ.get("VERIF_SECS"):
        secs = int(os.environ["VERIF_SECS"])
    tmp = tempfile.mkdtemp(prefix="vmon-")
    viols, problems = [], []
    try:
        known = {}
        if name == "features":
            ws = []
            tot, counters, samples, obs, viols, problems = features(pid, pr, seed, tier, secs, tmp)
        else:
            ws = run(name, seed, secs, 1 << 40, tmp)
            tot = dict(cases=0, events=0)
            counters, samples, obs = {}, [], set()
        for w in ws:
            rc = w.p.returncode
            if rc in (0, 1):
                try:
                    o = json.load(open(w.base + ".json"))
                except (OSError, ValueError) as e:
                    problems.append("shard %d left no result: %s" % (w.shard, e))
                    continue
                tot["cases"] += o["cases"]
                tot["events"] += o["events"]
                for k, v in o["counters"].items():
                    counters[k] = counters.get(k, 0) + v
                for k, v in o["known"].items():
                    known[k] = known.get(k, 0) + v
                samples += o["samples"][:3]
                a = array.array("Q")
                if os.path.exists(w.base + ".obs"):
                    a.frombytes(open(w.base + ".obs", "rb").read())
                    obs.update(a)
                if "violation" in o:
                    v = o["violation"]
                    if v["message"].startswith("harness:") or v["message"].startswith("panic: harness:"):
                        problems.append(v["message"])
                    else:
                        viols.append(dict(kind="violated", case=v["case_seed"], message=v["message"], steps=v["steps"]))
            elif getattr(w, "stopped", False):
                continue
            elif getattr(w, "late", False):
                problems.append("shard %d was still running long after its time" % w.shard)
            else:
                c = w.case()
                kind, out = again(name, c) if c is not None else ("unknown", "no case started")
                if kind in ("crash", "hang", "violated"):
                    what = {"crash": "the process died (status %s)" % rc,
                            "hang": "one case used more than %d s of CPU time" % CPU_PER_CASE,
                            "violated": out.strip().splitlines()[-1][:500] if out.strip() else "violated"}[kind]
                    viols.append(dict(kind=kind, case=c, message=what, steps=[out[-4000:]]))
                else:
                    problems.append("shard %d ended with %s in case %s, which does not repeat (%s): %s"
                                    % (w.shard, rc, c, kind, open(w.base + ".err", "rb").read()[-300:].decode("utf-8", "replace")))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    # listed findings
    for l in open(KNOWN):
        if not l.startswith("known: property=%s " % pid):
            continue
        head, what = l.strip().split(" :: ", 1)
        met = known.get(what, 0)
        if not met and " probe=" in head:
            p = subprocess.run([VMON, "probe", head.split(" probe=")[1].split()[0]], stdout=subprocess.PIPE, env=env(), text=True)
            met = p.stdout.strip() == "reproduced"
        if met:
            print("KNOWN-FINDING: property=%s %s" % (pid, what))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = dict(
        property=pid, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=tot["events"], distinct_nontrivial=len(obs),
            rule="An evaluation is one judged observation: a call on the real library whose result (or whose effect on the whole tree) "
                 "was compared with the oracle. " + pr["rule"],
            samples=samples[:12], generated_cases=tot["cases"], judged_by_kind=counters, known_findings_met=known,
            workers=SHARDS, seconds_per_worker=secs, build_s=round(build_s, 1)),
        assumptions=pr.get("assumptions", []) + ["the reference model and the generators in /verif/harness"],
        wall_s=round(time.time() - t0, 2), violations=len(viols))
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    if viols:
        viols.sort(key=lambda v: sum(len(s) for s in v["steps"]))
        rp = os.path.join(VERIF, "evidence", "replay-%s.json" % pid)
        with open(rp, "w") as f:
            json.dump(dict(property=pid, workload=name, seed=seed, tier=tier, violations=viols,
                           replay="python3 %s/check.py %s %s" % (VERIF, pid, tier) if name == "features" else "cd %s/harness && CARGO_TARGET_DIR=target RUSTUP_TOOLCHAIN=%s cargo build --offline --release && "
                                  "target/release/vmon case %s %s" % (VERIF, TOOLCHAIN, name, viols[0]["case"])), f, indent=1, ensure_ascii=False)
        print("%s: %s" % (name, viols[0]["message"][:1500]))
        for s in viols[0]["steps"][-6:]:
            print("  " + s[:800])
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        sys.exit(1)
    if problems or tot["events"] == 0 or len(obs) == 0:
        for p in problems or ["nothing was observed"]:
            print("NO ANSWER: " + p)
        sys.exit(2)
    print("held: property=%s %s cases=%d judged=%d distinct=%d wall=%.1fs" % (pid, name, tot["cases"], tot["events"], len(obs), ev["wall_s"]))
    sys.exit(0)


if __name__ == "__main__":
    main()
