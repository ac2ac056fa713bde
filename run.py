#!/usr/bin/env python3
"""Entry point of every check (see DESIGN.md).

    run.py setup                                build everything the checks need
    run.py check ID [--tier quick|thorough]     decide one property (exit 0, or 1 with a VIOLATION line; 2: no answer)
    run.py replay FILE                          re-run the case of a replay file

Builds are made from /repo's current tree, in /verif/target. Cargo decides what to rebuild by modification time; here
the contents decide: a hash over the sources that differs from the last build's drops cargo's fingerprints of the
packages concerned, so that a tree restored or patched with old timestamps is rebuilt too.
"""
import fcntl, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(VERIF, "target")
EVIDENCE = os.path.join(VERIF, "evidence")
TRIPLE = "x86_64-unknown-linux-gnu"
COVERAGE = "-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard"
PLAIN = {"CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS": "false", "CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS": "false"}

# flavour -> (crate, toolchain, RUSTFLAGS, extra cargo arguments, extra environment)
FLAVOURS = {
    "mon": ("harness", None, COVERAGE, ["--features", "gas"], {}),
    "viz": ("vizmon", None, COVERAGE, [], {}),
    "viztsan": ("vizmon", "+nightly", "-Zsanitizer=thread " + COVERAGE, ["-Zbuild-std"], {}),
    "asan": ("harness", "+nightly", "-Zsanitizer=address", [], PLAIN),
    "msan": ("harness", "+nightly", "-Zsanitizer=memory -Zsanitizer-memory-track-origins", ["-Zbuild-std"], PLAIN),
    "tsan": ("harness", "+nightly", "-Zsanitizer=thread", ["-Zbuild-std"], PLAIN),
    "miri": ("harness", "+nightly", "", [], {"CARGO_PROFILE_DEV_DEBUG_ASSERTIONS": "false", "CARGO_PROFILE_DEV_OVERFLOW_CHECKS": "false",
             "MIRIFLAGS": "-Zmiri-disable-validation -Zmiri-disable-isolation -Zmiri-deterministic-floats"}),
}


def sources(crate):
    dirs = [os.path.join(REPO, "src"), os.path.join(VERIF, crate)]
    files = [os.path.join(REPO, "Cargo.toml"), os.path.join(REPO, "Cargo.lock"), os.path.join(REPO, "build.rs")]
    if crate == "vizmon":
        dirs.append(os.path.join(REPO, "viz"))
    for d in dirs:
        for root, sub, names in os.walk(d):
            sub[:] = sorted(s for s in sub if s not in ("target", ".git"))
            files += [os.path.join(root, n) for n in sorted(names)]
    h = hashlib.sha256()
    for f in files:
        if os.path.isfile(f):
            with open(f, "rb") as fh:
                data = fh.read()
            h.update(("%s %d\n" % (f, len(data))).encode())
            h.update(data)
    return h.hexdigest()


def environment(flavour):
    crate, toolchain, flags, extra, env = FLAVOURS[flavour]
    e = {k: v for k, v in os.environ.items()
         if not k.startswith(("CARGO_PROFILE_", "CARGO_BUILD_", "CARGO_ENCODED")) and k not in ("RUSTFLAGS", "MIRIFLAGS", "RUSTC_WRAPPER")}
    e.update(env)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TARGET_DIR"] = os.path.join(TARGET, flavour)
    e["RUSTFLAGS"] = flags
    return e


def build(flavour, limit=800):
    """Builds a flavour; returns the path of its program, or None. For Miri: checks that it interprets."""
    crate, toolchain, flags, extra, env = FLAVOURS[flavour]
    target = os.path.join(TARGET, flavour)
    os.makedirs(target, exist_ok=True)
    with open(os.path.join(target, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        stamp = os.path.join(target, ".sources")
        now = sources(crate)
        try:
            with open(stamp) as f:
                old = f.read()
        except OSError:
            old = ""
        if old != now:
            for fp in glob.glob(os.path.join(target, "**", ".fingerprint", "*"), recursive=True):
                if re.match(r"(kuba|kmon|vizmon|kiss3d)-[0-9a-f]+$", os.path.basename(fp)):
                    shutil.rmtree(fp, ignore_errors=True)
            if os.path.exists(stamp):
                os.remove(stamp)
        if flavour == "miri":
            cmd = ["cargo", "+nightly", "miri", "run", "--", "selftest", "none"]
        else:
            cmd = ["cargo"] + ([toolchain] if toolchain else []) + ["build", "--release", "--target", TRIPLE] + extra
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=os.path.join(VERIF, crate), env=environment(flavour), stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=limit)
        except subprocess.TimeoutExpired:
            print("build of %s did not finish in %d s" % (flavour, limit))
            return None
        out = p.stdout.decode(errors="replace")
        if p.returncode != 0 or (flavour == "miri" and "SELFTEST-END none" not in out):
            print("build of %s failed:\n%s" % (flavour, "\n".join(l for l in out.splitlines() if not l.startswith("warning"))[-6000:]))
            return None
        with open(stamp, "w") as f:
            f.write(now)
        print("built %s in %.0f s" % (flavour, time.time() - t), flush=True)
    return os.path.join(target, TRIPLE, "release", "kmon" if crate == "harness" else "draw_occupancy_grid")


def run_monitor(prop, tier, seed):
    mon = build("mon")
    if not mon:
        return 2
    env = dict(os.environ)
    env.pop("KMON_VIZ", None)
    env.pop("KMON_VIZ_TSAN", None)
    if prop in ("C24", "C25", "C29"):
        viz = build("viz")
        if not viz:
            return 2
        env["KMON_VIZ"] = viz
    if prop == "C25":
        viz = build("viztsan")
        if not viz:
            return 2
        env["KMON_VIZ_TSAN"] = viz
    wall = 420 if tier == "quick" else 3000
    cmd = [mon, "check", prop, "--tier", tier, "--seed", str(seed), "--out", EVIDENCE, "--wall", str(wall)]
    # stdout is filtered: the library itself prints progress when asked to, and must not be able to forge a verdict
    p = subprocess.Popen(cmd, cwd=VERIF, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    noise = 0
    for raw in p.stdout:
        line = raw.decode(errors="replace").rstrip("\n")
        if line.startswith("Reading file"):
            noise += 1
            continue
        print(line[:4000], flush=True)
    rc = p.wait()
    if rc not in (0, 1, 2):
        print("monitor ended with %s" % rc)
        return 2
    return rc


# ---------------------------------------------------------------------------------------------------------------- C23

REPORTS = re.compile(
    r"ERROR: AddressSanitizer:?(?! failed to)|ERROR: LeakSanitizer: detected memory leaks|WARNING: MemorySanitizer|WARNING: ThreadSanitizer"
    r"|Undefined Behavior|error: memory leaked|unsafe precondition\(s\) violated|misaligned pointer dereference|null pointer dereference occurred|free\(\): |double free|malloc\(\): |munmap_chunk|corrupted")
GROUPS = ["C01,C02,C03,C05", "C04,C06,C20,C22", "C07", "C08,C14", "C09,C10,C11,C12", "C13,C26", "C15,C16", "C17,C18,C19,C21", "C27,C28"]


class Job:
    def __init__(self, name, cmd, env, limit, logdir, cwd=VERIF):
        self.name, self.limit, self.cmd = name, limit, cmd
        self.log = os.path.join(logdir, "C23-%s.log" % name)
        self.f = open(self.log, "wb")
        self.f.write(("command: %s\n" % " ".join(cmd)).encode())
        self.f.flush()
        self.t = time.time()
        self.p = subprocess.Popen(cmd, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=self.f, stderr=subprocess.STDOUT, start_new_session=True)

    def finish(self):
        try:
            rc = self.p.wait(timeout=max(1, self.limit - (time.time() - self.t)))
        except subprocess.TimeoutExpired:
            os.killpg(self.p.pid, signal.SIGKILL)
            self.p.wait()
            rc = None
        self.f.close()
        with open(self.log, "rb") as f:
            text = f.read().decode(errors="replace")
        return rc, text


def tool_env(flavour):
    e = environment(flavour)
    e["KMON_NO_SIGNALS"] = "1"
    e["ASAN_OPTIONS"] = "detect_leaks=1:exitcode=77:allocator_may_return_null=0:detect_stack_use_after_return=1"
    e["LSAN_OPTIONS"] = "exitcode=78"
    e["MSAN_OPTIONS"] = "exitcode=79"
    e["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=0:report_thread_leaks=0"
    return e


def check_c23(tier, seed):
    start = time.time()
    quick = tier == "quick"
    programs = {}
    for flavour in ("mon", "asan", "msan", "tsan", "miri"):
        programs[flavour] = build(flavour, 400 if quick else 900)
        if not programs[flavour]:
            return 2
    logs = os.path.join(EVIDENCE, "replays")
    os.makedirs(logs, exist_ok=True)
    # the sanitizers must be alive: each has to report a planted error of the harness itself
    alive = {}
    for flavour, kind, report in (("asan", "oob", "AddressSanitizer: heap-buffer-overflow"), ("asan", "use_after_free", "heap-use-after-free"),
                                  ("asan", "leak", "LeakSanitizer: detected memory leaks"), ("msan", "uninit", "use-of-uninitialized-value"),
                                  ("tsan", "race", "ThreadSanitizer: data race"), ("miri", "oob", "Undefined Behavior")):
        cmd = [programs[flavour], "selftest", kind] if flavour != "miri" else ["cargo", "+nightly", "miri", "run", "--", "selftest", kind]
        for _ in range(8):
            try:
                r = subprocess.run(cmd, cwd=os.path.join(VERIF, "harness"), env=tool_env(flavour), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
                alive["%s detects %s" % (flavour, kind)] = report in r.stdout.decode(errors="replace")
            except subprocess.TimeoutExpired:
                alive["%s detects %s" % (flavour, kind)] = False
            if alive["%s detects %s" % (flavour, kind)]:
                break
    dead = [k for k, v in alive.items() if not v and "leak" not in k]
    if dead:
        print("INCONCLUSIVE property=C23: a sanitizer did not report a planted error: %s" % dead)
        return 2
    leaks_watched = alive["asan detects leak"]
    budget = (30 if time.time() - start < 300 else 12) if quick else 900  # cold builds leave less of the 900 s
    jobs = []

    def native(flavour, scale, threads):
        env = tool_env(flavour)
        if not leaks_watched:
            env["ASAN_OPTIONS"] = env["ASAN_OPTIONS"].replace("detect_leaks=1", "detect_leaks=0")
        return Job(flavour, [programs[flavour], "all", "--ignore-verdicts", "--seed", str(seed), "--scale", str(scale), "--budget", str(budget),
                             "--threads", str(threads), "--out", os.path.join(TARGET, "c23")], env, budget * 3 + 60, logs)
    scale = 1 if quick else 40
    results = []
    for flavour in ("asan", "msan", "tsan"):
        jobs = [native(flavour, scale, 8)]
        results += [(j, flavour) + j.finish() for j in jobs]
    miri = []
    for k, group in enumerate(GROUPS):
        miri.append(Job("miri-%d" % k, ["cargo", "+nightly", "miri", "run", "--", "all", "--ignore-verdicts", "--seed", str(seed + k), "--cases", "100000", "--max-size",
                                        "0.05", "--threads", "1" if k % 2 else "2", "--only", group, "--budget", str(2 * budget), "--out", os.path.join(TARGET, "c23")],
                        tool_env("miri"), budget * 2 + 150, logs, os.path.join(VERIF, "harness")))
    results += [(j, "miri") + j.finish() for j in miri]
    # do separate objects stay separate? The same cases alone, then from 8 threads at once on objects of their own
    isolation = Job("isolation", [programs["mon"], "isolation", "--seed", str(seed), "--budget", str(max(12, budget // 2) if quick else 600)],
                    {k: v for k, v in os.environ.items() if not k.startswith("KMON_")}, budget * 3 + 100, logs)
    iso_rc, iso_text = isolation.finish()
    found, cut, cases, distinct, per = [], [], 0, 0, {}
    iso = re.search(r"ISOLATION-DONE alone=(\d+) concurrent=(\d+) calls=(\d+) findings=(\d+)", iso_text)
    m = re.search(r"^ISOLATION property=.*", iso_text, re.M)
    bad = REPORTS.search(iso_text)
    if m:
        found.append((isolation, m.group(0)))
    elif bad:  # this build has the checks of unsafe code, and blocks that are aligned no more than asked for
        found.append((isolation, iso_text[max(0, bad.start() - 200):bad.start() + 1500]))
    elif not iso and "BASELINE-DONE" in iso_text and iso_rc is not None and iso_rc != -signal.SIGKILL:
        found.append((isolation, "every case ends when run alone; run from several threads on objects of their own, one ended the process: ...%s" % iso_text[-600:]))
    elif not iso:
        cut.append("isolation (exit %s)" % iso_rc)
    if not found and os.path.exists(isolation.log):
        os.remove(isolation.log)
    for job, flavour, rc, text in results:
        m = REPORTS.search(text)
        if m:
            found.append((job, text[max(0, m.start() - 200):m.start() + 1500]))
        elif rc is not None and rc < 0 and -rc in (signal.SIGSEGV, signal.SIGBUS, signal.SIGILL) and "overflowed its stack" not in text:
            found.append((job, "ended by signal %d: ...%s" % (-rc, text[-600:])))
        elif "ALL-DONE" not in text:
            cut.append("%s (exit %s)" % (job.name, rc))
        entry = per.setdefault(flavour, {"cases": 0, "distinct_observations": 0})
        for line in text.splitlines():
            w = re.match(r"(C\d\d): (\d+) of \d+ cases, (\d+) distinct", line)
            if w:
                cases += int(w.group(2))
                distinct += int(w.group(3))
                entry["cases"] += int(w.group(2))
                entry["distinct_observations"] += int(w.group(3))
                for name, v in re.findall(r", ([A-Za-z][^=,]*)=(\d+)", line):
                    if name in ("out_of_range_accesses_rejected", "integrations", "growths", "scans", "ragged_streams", "streams_failing_midway", "malformed_records_refused", "copies", "rays"):
                        entry[name] = entry.get(name, 0) + int(v)
        if not m and os.path.exists(job.log):
            os.remove(job.log)
    ev = {"property": "C23", "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(time.time() - start, 1), "violations": len(found),
          "coverage": {"evaluations": cases, "distinct_nontrivial": distinct,
                       "rule": "cases of the other properties' workloads run under a sanitizer, counted as distinct by those workloads' own rules, per sanitizer",
                       "samples": ["%s: %s" % (k, json.dumps(v)) for k, v in per.items()], "per_sanitizer": per, "sanitizers_alive": alive,
                       "isolation": {"cases_alone": int(iso.group(1)), "same_cases_run_beside_others_in_8_threads": int(iso.group(2)),
                                     "single_calls_repeated_in_8_threads": int(iso.group(3)), "results_that_differ": int(iso.group(4))} if iso else "not completed",
                       "runs_cut_short": cut},
          "assumptions": ["AddressSanitizer+LeakSanitizer, MemorySanitizer, ThreadSanitizer see only what the workloads execute",
                          "Miri runs without validity checks, because nalgebra 0.22 itself creates uninitialised floats by assume_init (a dependency's matter)"]}
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, "C23.json"), "w") as f:
        json.dump(ev, f)
        f.write("\n")
    print("C23: %d cases, %d distinct observations, %s; cut short: %s; %.0f s" % (cases, distinct, json.dumps(per), cut, time.time() - start))
    if found:
        job, what = found[0]
        print("witness (%s): %s" % (job.name, what))
        print("VIOLATION property=C23 replay=%s" % job.log)
        return 1
    if any(per.get(k, {}).get("cases", 0) < 20 for k in ("asan", "msan", "tsan", "miri")):
        print("INCONCLUSIVE property=C23: too few cases ran under a sanitizer")
        return 2
    return 0


def main():
    args = sys.argv[1:]
    if not args:
        print(__doc__)
        return 3
    os.makedirs(TARGET, exist_ok=True)
    os.makedirs(EVIDENCE, exist_ok=True)
    if args[0] == "setup":
        ok = [build(f, 600) is not None for f in FLAVOURS]
        return 0 if all(ok) else 1
    if args[0] == "check":
        tier = args[args.index("--tier") + 1] if "--tier" in args else os.environ.get("VERIF_TIER", "quick")
        tier = "thorough" if tier == "thorough" else "quick"
        try:
            seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            seed = 1
        return check_c23(tier, seed) if args[1] == "C23" else run_monitor(args[1], tier, seed)
    if args[0] == "replay":
        with open(args[1], errors="replace") as f:
            text = f.read()
        if text.startswith("command: "):
            print("a sanitizer's log; it starts with the command that reproduces it:\n" + text[:3000])
            return 0
        mon = build("mon")
        env = dict(os.environ)
        if any("property=%s" % c in text for c in ("C24", "C25", "C29")):
            env["KMON_VIZ"] = build("viz") or ""
            if "property=C25" in text:
                env["KMON_VIZ_TSAN"] = build("viztsan") or ""
        return subprocess.call([mon, "replay", args[1]], env=env)
    print(__doc__)
    return 3


if __name__ == "__main__":
    sys.exit(main())
