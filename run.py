#!/usr/bin/env python3
"""Builds the monitors from /repo's working tree, runs them, and decides.

usage: run.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]

exit 0: the property held on everything that was observed
exit 1: it did not; a line VIOLATION property=<id> replay=<path>
exit 2: no answer (the check itself could not be built or run)
"""
import fnmatch
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(VERIF, ".build")
HARNESS = os.path.join(VERIF, "harness")
EVIDENCE = os.path.join(VERIF, "evidence")
TOOLCHAIN = "nightly-2020-07-01"
REPO = "/repo"
VERBOSE = bool(os.environ.get("VH_VERBOSE"))
VENDOR = "/opt/vp/vendor"

sys.path.insert(0, VERIF)
from checks import BETWEEN, CHECKS, CPUS, MODES  # noqa: E402

STALL = 90          # seconds without a new case before a run counts as hung
BUILD_TIMEOUT = 700
PRINT = threading.Lock()


def say(*a):
    with PRINT:
        print(*a, flush=True)


def has_avx2():
    try:
        return bool(re.search(r"\bavx2\b", open("/proc/cpuinfo").read()))
    except OSError:
        return True


CONFIG = ('[source.crates-io]\nreplace-with = "vendored-sources"\n\n'
          '[source.vendored-sources]\ndirectory = "%s"\n' % VENDOR)


def cargo_home():
    """A CARGO_HOME of our own: nothing is written under /opt/vp."""
    home = os.path.join(BUILD, "cargo-home")
    config = os.path.join(home, "config")
    with PRINT:
        os.makedirs(home, exist_ok=True)
        try:
            done = open(config).read() == CONFIG
        except OSError:
            done = False
        if not done:
            # A cargo which another thread started never sees half of it
            tmp = "%s.%d" % (config, os.getpid())
            with open(tmp, "w") as f:
                f.write(CONFIG)
            os.replace(tmp, config)
    return home


def base_env():
    env = {k: v for k, v in os.environ.items()
           if not k.startswith("CARGO") and k not in ("RUSTFLAGS", "RUSTC_WRAPPER", "LD_LIBRARY_PATH", "RUSTC", "FASTER_DEBUG_FILE")}
    env.update(RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_HOME=cargo_home(), CARGO_NET_OFFLINE="true",
               CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0")
    return env


DEPS = {}
DEPS_LOCKS = {}


def deps(cpu, kind):
    """The library's dependencies (not under test), built once per CPU, with assertions (kind "d")
    or without (kind "r"). Returns (flags, error)."""
    key = cpu + "-" + kind
    with PRINT:
        lock = DEPS_LOCKS.setdefault(key, threading.Lock())
    with lock:
        if key in DEPS:
            return DEPS[key]
        env = base_env()
        env["RUSTFLAGS"] = "-C target-cpu=%s -A warnings" % cpu
        if kind == "r":
            env["RUSTFLAGS"] += " -C debug-assertions=off -C overflow-checks=off"
        env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "deps-" + key)
        cmd = ["cargo", "build", "--offline", "-p", "vektor", "-p", "packed_simd_2", "--message-format=json", "-j", "4"]
        try:
            r = subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=BUILD_TIMEOUT)
        except subprocess.TimeoutExpired:
            DEPS[key] = (None, "building the dependencies timed out")
            return DEPS[key]
        if r.returncode != 0:
            DEPS[key] = (None, r.stderr.decode("utf-8", "replace")[-4000:])
            return DEPS[key]
        flags = ["-L", "dependency=" + os.path.join(BUILD, "deps-" + key, "debug", "deps")]
        for line in r.stdout.decode().splitlines():
            if not line.startswith("{"):
                continue
            m = json.loads(line)
            if m.get("reason") == "compiler-artifact" and m["target"]["name"] in ("vektor", "packed_simd_2"):
                rlib = [f for f in m["filenames"] if f.endswith(".rlib")][0]
                flags += ["--extern", "%s=%s" % ("packed_simd" if m["target"]["name"] == "packed_simd_2" else "vektor", rlib)]
        DEPS[key] = (flags, None)
        return DEPS[key]


def build(prop, cpu, mode):
    """Build one monitor for a CPU and a mode; returns (binary, None) or (None, error)."""
    m = MODES[mode]
    chk = CHECKS[prop]
    dep, err = deps(cpu, "d" if mode == "dbg" else "r")
    if err:
        return None, err
    odir = os.path.join(BUILD, "%s-%s" % (cpu, mode))
    shutil.rmtree(os.path.join(odir, prop), ignore_errors=True)
    odir = os.path.join(odir, prop)
    os.makedirs(odir)
    env = dict(base_env(), **m.get("env", {}).get(cpu, {}))
    common = ["rustc", "--edition=2018", "-C", "target-cpu=" + cpu, "-A", "warnings", "-C", "embed-bitcode=no",
              "--out-dir", odir, "-L", "dependency=" + odir] + m["flags"]
    feats = ["std", "default"] + m.get("features", [])
    steps = [
        common + ["--crate-name", "faster", "--crate-type", "lib", REPO + "/src/lib.rs"]
        + [x for f in feats for x in ("--cfg", 'feature="%s"' % f)] + m.get("lib_flags", []) + dep,
        common + ["--crate-name", "vh", "--crate-type", "lib", HARNESS + "/src/lib.rs", "--extern",
                  "faster=" + odir + "/libfaster.rlib"] + dep[:2],
        common + ["--crate-name", chk["bin"], "--crate-type", "bin", HARNESS + "/src/bin/%s.rs" % chk["bin"], "--extern",
                  "faster=" + odir + "/libfaster.rlib", "--extern", "vh=" + odir + "/libvh.rlib"] + dep[:2],
    ]
    t0 = time.time()
    for cmd in steps:
        try:
            r = subprocess.run(cmd, cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=BUILD_TIMEOUT)
        except subprocess.TimeoutExpired:
            return None, "build timed out"
        if r.returncode != 0:
            return None, r.stdout.decode("utf-8", "replace")[:6000]
        if VERBOSE:
            say("  %s %s %s %.1f s" % (cpu, mode, os.path.basename(cmd[-1]) if 0 else cmd[cmd.index("--crate-name") + 1], time.time() - t0))
    return os.path.join(odir, chk["bin"]), None


def read_shm(path):
    try:
        b = open(path, "rb").read()
        n = int.from_bytes(b[8:16], "little")
        return (int.from_bytes(b[0:8], "little"), b[16:16 + n].decode("utf-8", "replace"),
                b[-1024:].split(b"\0")[0].decode("utf-8", "replace"))
    except OSError:
        return 0, "", ""


def run_one(prop, cpu, mode, binary, tier, seed, extra, tag=""):
    """Run a monitor under supervision. Returns a result dict."""
    m = MODES[mode]
    name = "%s-%s-%s%s" % (prop, cpu, mode, tag)
    wdir = os.path.join(BUILD, "run", name)
    shutil.rmtree(wdir, ignore_errors=True)
    os.makedirs(wdir)
    out, shm, log = (os.path.join(wdir, x) for x in ("out.json", "case.shm", "log.txt"))
    env = base_env()
    env["ASAN_OPTIONS"] = "exitcode=99:detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=1:allocator_may_return_null=0:max_malloc_fill_size=1048576:malloc_fill_byte=195"
    env["TSAN_OPTIONS"] = "exitcode=98:halt_on_error=1"
    env.update(m.get("run_env", {}))
    wrap = m.get("wrap", [])
    if wrap[:1] == ["setarch"] and subprocess.run(wrap + ["true"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode != 0:
        wrap = []
    cmd = wrap + [binary, out, shm, tier, str(seed)] + list(extra)
    t0 = time.time()
    lim = 3600 if tier == "thorough" else 600
    with open(log, "wb") as lf:
        p = subprocess.Popen(cmd, cwd=wdir, env=env, stdout=lf, stderr=subprocess.STDOUT, start_new_session=True)
        last, since, hung = -1, time.time(), None
        while True:
            try:
                p.wait(timeout=0.5)
                break
            except subprocess.TimeoutExpired:
                pass
            beat, _, _ = read_shm(shm)
            now = time.time()
            if beat != last:
                last, since = beat, now
            if now - since > STALL * m.get("slow", 1):
                hung = "no progress for %d s" % (now - since)
            if now - t0 > lim:
                return dict(cpu=cpu, mode=mode, error="the workload did not finish in %d s" % lim, kill=_kill(p))
            if hung:
                _kill(p)
                break
    beat, case, panic = read_shm(shm)
    text = open(log, "rb").read().decode("utf-8", "replace")
    res = dict(cpu=cpu, mode=mode, wdir=wdir, wall_s=round(time.time() - t0, 2), violations=[])
    if hung:
        res["violations"] = [dict(key="hang", case=case, detail=hung, count=1)]
        return res
    if p.returncode == 0 and os.path.exists(out):
        res.update(json.load(open(out)))
        return res
    if "ThreadSanitizer: unexpected memory mapping" in text:
        res["unavailable"] = "%s/%s was not run: ThreadSanitizer cannot map its shadow memory here" % (cpu, mode)
        return res
    if beat == 0:
        res["error"] = "the monitor did not start: rc=%s %s" % (p.returncode, text[-2000:])
        return res
    if p.returncode == 101:
        # The monitor only fails to catch panics where neither it nor the library has a reason to panic
        res["violations"] = [dict(key="panic", case=case, detail="unexpected panic: %s\n%s" % (panic, text[-2000:]), count=1)]
        return res
    why = "exit status %s" % p.returncode
    if p.returncode < 0:
        try:
            why = signal.Signals(-p.returncode).name
        except ValueError:
            why = "signal %d" % -p.returncode
        if -p.returncode == signal.SIGKILL:
            res["error"] = "killed (out of memory?) in case <%s>" % case
            return res
    san = re.search(r"ERROR: AddressSanitizer: ?([\w-]+)|WARNING: ThreadSanitizer: ([\w -]+)", text)
    if san:
        why = "sanitizer " + (san.group(1) or san.group(2)).strip()
    res["violations"] = [dict(key="crash:%s" % why.replace(" ", "-"), case=case, detail=why + "\n" + text[:3000], count=1)]
    return res


def _kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()
    return True


def load_known():
    path = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(path):
        return []
    return json.load(open(path))["findings"]


def main():
    args = sys.argv[1:]
    prop = args.pop(0)
    os.makedirs(BUILD, exist_ok=True)
    if prop == "--setup":
        bad = 0
        todo = [(cpu, kind) for cpu in CPUS for kind in "dr"] + [(cpu, "r") for cpu in BETWEEN]
        ts = [threading.Thread(target=deps, args=x) for x in todo]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        for cpu, kind in todo:
            e = DEPS[cpu + "-" + kind][1]
            say("dependencies for %s-%s: %s" % (cpu, kind, e or "built"))
            bad |= bool(e)
        sys.exit(2 if bad else 0)
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    replay = None
    while args:
        a = args.pop(0)
        if a == "--tier":
            tier = args.pop(0)
        elif a == "--seed":
            seed = int(args.pop(0))
        elif a == "--replay":
            replay = json.load(open(args.pop(0)))
        else:
            sys.exit("unknown argument " + a)
    if tier not in ("quick", "thorough"):
        tier = "quick"
    chk = CHECKS[prop]
    if replay:
        seed, tier = replay["seed"], replay["tier"]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(EVIDENCE, exist_ok=True)
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

    plan = list(chk["runs"]) + (chk.get("thorough_runs", []) if tier == "thorough" else [])
    skipped = []
    if not has_avx2():
        skipped = [r for r in plan if r[0] in ("haswell", "sandybridge")]
        plan = [r for r in plan if r not in skipped]
    if replay:
        plan = [r for r in plan if r[0] == replay["cpu"] and r[1] == replay["mode"]] or plan

    builds = sorted(set((r[0], r[1]) for r in plan))
    bins, errs, results = {}, [], []
    lock = threading.Lock()
    sem = threading.Semaphore(8)

    def work(cpu, mode):
        with sem:
            b, e = build(prop, cpu, mode)
        if e:
            with lock:
                errs.append("%s %s: %s" % (cpu, mode, e))
            return
        for r in plan:
            if (r[0], r[1]) != (cpu, mode):
                continue
            extra = r[2] if len(r) > 2 else []
            with sem:
                res = run_one(prop, cpu, mode, b, tier, seed, extra, "".join("-" + str(x) for x in extra))
            res["extra"] = extra
            with lock:
                results.append(res)
                if res.get("error"):
                    errs.append("%s %s: %s" % (cpu, mode, res["error"]))

    ts = [threading.Thread(target=work, args=b) for b in builds]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    results.sort(key=lambda r: (r["cpu"], r["mode"], r["extra"]))

    viols = []
    for r in results:
        for v in r.get("violations", []):
            viols.append(dict(v, cpu=r["cpu"], mode=r["mode"], extra=r["extra"]))
    if chk.get("compare"):
        viols += chk["compare"]([r for r in results if not r.get("error")])

    known = [k for k in load_known() if k["property"] == prop and k["status"] == "known"]
    fresh, seen = [], {}
    for v in viols:
        hit = None
        for k in known:
            if fnmatch.fnmatchcase(v["key"], k["key"]) and v["cpu"] in k.get("cpus", [v["cpu"]]):
                hit = k
                break
        if hit:
            seen[hit["key"]] = (hit, v)
        else:
            fresh.append(v)
    for k in sorted(seen):
        say("KNOWN-FINDING: property=%s %s" % (prop, seen[k][0]["what"]))

    evals = sum(r.get("evaluations", 0) for r in results)
    distinct = sum(r.get("distinct", 0) for r in results)
    samples = []
    for r in results:
        for s in r.get("samples", [])[-3:]:
            samples.append("%s/%s: %s" % (r["cpu"], r["mode"], s))
    cov = dict(
        evaluations=evals,
        distinct_nontrivial=distinct,
        rule=chk["rule"],
        samples=samples[:18] or ["none"],
        events_observed=sum(r.get("events", 0) for r in results),
        workload_cases=sum(r.get("cases", 0) for r in results),
        runs=[dict(cpu=r["cpu"], mode=r["mode"], extra=r["extra"], wall_s=r.get("wall_s"), evaluations=r.get("evaluations"),
                   events=r.get("events"), distinct=r.get("distinct"), counters=r.get("counters"), digest=r.get("digest"))
              for r in results],
    )
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov,
              assumptions=chk.get("assumptions", []) + (["no AVX2 on this machine: the haswell and sandybridge builds were not run"] if skipped else [])
              + [r["unavailable"] for r in results if r.get("unavailable")],
              wall_s=round(time.time() - t0, 1), violations=len(fresh))
    json.dump(ev, open(os.path.join(EVIDENCE, prop + ".json"), "w"), indent=1)

    say("%s %s seed=%d: %d runs, %d oracle evaluations, %d events, %d distinct situations, %.1f s" %
        (prop, tier, seed, len(results), evals, cov["events_observed"], distinct, time.time() - t0))

    for e in errs:
        say("ERROR " + e)
    if fresh:
        rdir = os.path.join(EVIDENCE, "replay")
        os.makedirs(rdir, exist_ok=True)
        for i, v in enumerate(fresh[:20]):
            path = os.path.join(rdir, "%s-%d.json" % (prop, i))
            json.dump(dict(property=prop, tier=tier, seed=seed, cpu=v["cpu"], mode=v["mode"], extra=v["extra"], key=v["key"],
                           case=v["case"], detail=v["detail"], count=v["count"],
                           how="python3 run.py %s --replay %s" % (prop, path)), open(path, "w"), indent=1)
            if i < 8:
                say("  [%s %s] %s (x%d)\n    case: %s\n    %s" % (v["cpu"], v["mode"], v["key"], v["count"], v["case"],
                                                               v["detail"][:600].replace("\n", "\n    ")))
            say("VIOLATION property=%s replay=%s" % (prop, path))
        sys.exit(1)
    if errs:
        sys.exit(2)
    floor = chk.get("floor", 1)
    if evals < floor or not results:
        say("ERROR the monitors observed only %d evaluations (floor %d)" % (evals, floor))
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
