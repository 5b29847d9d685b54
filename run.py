#!/usr/bin/python3
"""Builds a property's harness from /repo's working tree, runs the exhaustive exploration on all
cores, confirms and reports violations, and writes evidence/<id>.json.

usage: run.py <property id> [--tier quick|thorough] [--only RUN:ORDINAL]
exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check itself failed."""
import concurrent.futures, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from checks import CHECKS  # noqa: E402

CXX = "g++"
COMMON = ["-std=gnu++17", "-march=native", "-g1", "-pipe", "-w", "-include", "cstdint", "-D_GLIBCXX_ASSERTIONS",
          "-DFRN_VERIF_HOOKS", "-I%s/src" % REPO, "-I%s/lib" % VERIF, "-I%s/harness" % VERIF]
VARIANTS = {
    "asan": (["-O1", "-fsanitize=address", "-fno-omit-frame-pointer"], ["-fsanitize=address"]),
    "asanub": (["-O1", "-fsanitize=address,bounds,shift,signed-integer-overflow,integer-divide-by-zero,null,return", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
               ["-fsanitize=address,bounds,shift,signed-integer-overflow,integer-divide-by-zero,null,return"]),
    "fast": (["-O2"], []),
    # memory-access callbacks without libtsan: our own runtime in lib/ provides __tsan_*
    "race": (["-O1", "-fsanitize=thread"], []),
    "plain": (["-O1"], []),
}
NPROC = int(os.environ.get("VERIF_JOBS", "0")) or os.cpu_count() or 4
EXIT_VIOLATION, EXIT_HANG, EXIT_ENDED = 40, 41, 43


def repo_sources():
    out = []
    for root, _, files in os.walk(os.path.join(REPO, "src")):
        for f in sorted(files):
            if f.endswith((".cc", ".cpp", ".cxx")) and not f.startswith("exp_"):
                out.append(os.path.join(root, f))
    return sorted(out)


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def compile_one(job):
    src, obj, flags = job
    cmd = [CXX] + flags + ["-c", src, "-o", obj]
    if shutil.which("ccache"):
        cmd = ["ccache"] + cmd
    env = dict(os.environ, CCACHE_DIR=os.path.join(BUILD, "ccache"), CCACHE_NOHASHDIR="1", HOME=os.environ.get("HOME", "/root"))
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
    return src, p.returncode, p.stdout


def build(prop, idx, run):
    """Compiles one run's executable; returns its path."""
    d = os.path.join(BUILD, prop, "r%d" % idx)
    os.makedirs(d, exist_ok=True)
    cf, lf = VARIANTS[run.get("variant", "asan")]
    defs = run.get("defines", [])
    pre = run.get("preinclude", [])
    jobs, objs = [], []

    def add(src, flags):
        o = os.path.join(d, hashlib.sha1(src.encode()).hexdigest()[:8] + "_" + os.path.basename(src) + ".o")
        jobs.append((src, o, flags))
        objs.append(o)

    prefl = []
    for p in pre:
        prefl += ["-include", os.path.join(VERIF, p)]
    if run.get("repo_sources", True):
        skip = run.get("without", [])
        for s in repo_sources():
            if any(s.endswith(x) for x in skip):
                continue
            add(s, COMMON + cf + defs + prefl)
    for s in run.get("repo_extra", []):
        add(os.path.join(REPO, s), COMMON + cf + defs + prefl)
    for s in run["sources"]:
        if isinstance(s, tuple):       # (source, extra flags) compiled without instrumentation
            add(os.path.join(VERIF, s[0]), COMMON + s[1])
        else:
            add(os.path.join(VERIF, s), COMMON + cf + defs + prefl)
    return d, jobs, objs, lf + run.get("ldflags", []) + ["-lpthread", "-ldl"], os.path.join(d, "harness")


def build_all(prop, runs):
    plans = [build(prop, i, r) for i, r in enumerate(runs)]
    seen, jobs = set(), []
    for _, js, _, _, _ in plans:
        for j in js:
            if j[1] not in seen:
                seen.add(j[1])
                jobs.append(j)
    # biggest (harness) sources first
    jobs.sort(key=lambda j: (not j[0].startswith(VERIF), j[0]))
    with concurrent.futures.ThreadPoolExecutor(NPROC) as ex:
        for src, rc, out in ex.map(compile_one, jobs):
            if rc:
                log(out[-6000:])
                log("compilation failed:", src)
                return None
    exes = []
    for _, _, objs, lf, exe in plans:
        p = subprocess.run([CXX] + objs + ["-o", exe] + lf, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            log(p.stdout[-6000:])
            log("link failed")
            return None
        exes.append(exe)
    return exes


ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=42:detect_stack_use_after_return=0:allocator_may_return_null=1:handle_abort=0",
           UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=42", LC_ALL="C")


def unprivileged():
    os.setpgid(0, 0)


def read_cur(path):
    try:
        b = open(path, "rb").read()
        ordinal = int.from_bytes(b[0:8], "little", signed=True)
        active = int.from_bytes(b[8:12], "little")
        desc = b[12:].split(b"\0")[0].decode("utf8", "replace")
        return ordinal, active, desc
    except Exception:
        return -1, 0, ""


def args_for(run, tier, seed, known):
    a = ["--tier", tier, "--seed", str(seed)]
    if run.get("set"):
        a += ["--set", run["set"]]
    for k in known:
        a += ["--known", k]
    return a


def run_case(exe, run, tier, seed, known, ordinal, d, tag, hang=150, timeout=400):
    """Runs one case again, or (ordinal: list) several cases one after another in one process."""
    out = os.path.join(d, "confirm_%s" % tag)
    try:
        os.unlink(out + ".json")
    except OSError:
        pass
    cur = out + ".cur"
    if isinstance(ordinal, list):
        with open(out + ".cases", "wb") as f:
            f.write(b"".join(o.to_bytes(8, "little") for o in ordinal))
        os.chmod(out + ".cases", 0o644)
        what = ["--seq", out + ".cases"]
    else:
        what = ["--only", str(ordinal)]
    cmd = [exe] + args_for(run, tier, seed, known) + what + ["--out", out, "--cur", cur, "--hang", str(hang)]
    p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=ENV, preexec_fn=unprivileged)
    try:
        _, err = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        _, err = p.communicate()
        rc = EXIT_HANG
    if rc == 0 and read_cur(cur)[1]:
        rc = EXIT_ENDED
    return rc, err.decode("utf8", "replace"), out


def is_bad(rc):
    """Exit statuses that mean the code under test misbehaved (crash, sanitizer report, hang)."""
    return rc in (EXIT_VIOLATION, EXIT_HANG, 42, EXIT_ENDED) or rc < 0


def main():
    argv = sys.argv[1:]
    prop = argv.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = None
    while argv:
        a = argv.pop(0)
        if a == "--tier":
            tier = argv.pop(0)
        elif a == "--only":
            only = argv.pop(0)
    spec = CHECKS[prop]
    t0 = time.time()
    known = []
    kf = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    known_text = {}
    if os.path.exists(kf):
        for line in open(kf):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                known.append(m.group(2))
                known_text[m.group(2)] = m.group(3)
    runs = [r for r in spec["runs"] if tier == "thorough" or not r.get("thorough_only")]
    exes = build_all(prop, runs)
    if exes is None:
        print("CHECK-ERROR property=%s: could not build the code under test" % prop)
        return 2
    tb = time.time() - t0
    log("[%s] built in %.1fs" % (prop, tb))

    if only is not None:
        ri, o = only.split(":")
        o = [int(x) for x in o.split(",")]
        rc, err, _ = run_case(exes[int(ri)], runs[int(ri)], tier, seed, known, o[0] if len(o) == 1 else o, os.path.dirname(exes[int(ri)]), "only")
        log(err[-8000:])
        log("exit", rc)
        return 1 if is_bad(rc) else (0 if rc == 0 else 2)

    budget = float(os.environ.get("VERIF_BUDGET", "0")) or (spec.get("budget_quick", 420) if tier == "quick" else spec.get("budget_thorough", 3600))
    total = {"counters": {}, "maxima": {}, "samples": [], "distinct": 0, "known": {}, "skipped": 0, "enumerated": 0}
    states = set()
    violation = None
    for ri, run in enumerate(runs):
        d = os.path.dirname(exes[ri])
        workers = run.get("workers", NPROC)
        tick = os.path.join(d, "tickets")
        with open(tick, "wb") as f:
            f.write(b"\0" * 4096)
        procs = []
        left = max(20.0, budget - (time.time() - t0 - tb))
        tr = time.time()
        for k in range(workers):
            out = os.path.join(d, "w%d" % k)
            for ext in (".json", ".states", ".cur"):
                try:
                    os.unlink(out + ext)
                except OSError:
                    pass
            cmd = [exes[ri]] + args_for(run, tier, seed, known) + ["--tickets", tick, "--out", out, "--cur", out + ".cur", "--deadline", "%.0f" % left, "--hang", str(run.get("hang", 120))]
            err = open(out + ".err", "wb")
            procs.append((subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=err, env=ENV, preexec_fn=unprivileged), out))
        pending = dict((p.pid, (p, o)) for p, o in procs)
        bad = []
        while pending:
            time.sleep(0.05)
            for pid in list(pending):
                p, out = pending[pid]
                rc = p.poll()
                if rc is None:
                    continue
                del pending[pid]
                if rc == 0 and read_cur(out + ".cur")[1]:
                    rc = EXIT_ENDED
                if rc != 0:
                    bad.append((rc, out))
            if bad and pending:
                for p, _ in pending.values():
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except OSError:
                        pass
                for p, _ in pending.values():
                    p.wait()
                pending = {}
            if time.time() - t0 > budget + 240 and pending:
                for p, o in pending.values():
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except OSError:
                        pass
                    p.wait()
                    bad.append((EXIT_HANG, o))
                pending = {}
        for rc, out in bad:
            errtxt = open(out + ".err", "rb").read().decode("utf8", "replace")
            ordinal, active, desc = read_cur(out + ".cur")
            if not is_bad(rc) or not active:
                log(errtxt[-4000:])
                log("[%s] harness ended with %s outside any case: check error" % (prop, rc))
                print("CHECK-ERROR property=%s harness exit %s" % (prop, rc))
                return 2
            rc2, err2, cout = run_case(exes[ri], run, tier, seed, known, ordinal, d, "c")
            which = str(ordinal)
            if not is_bad(rc2):
                # what the process did before may matter (state kept between uses): repeat its last
                # cases in the same order, then more and more of them
                try:
                    b = open(out + ".seq", "rb").read()
                    seq = [int.from_bytes(b[i:i + 8], "little") for i in range(0, len(b) // 8 * 8, 8)]
                except OSError:
                    seq = []
                if seq and seq[-1] == ordinal:
                    k, tc = 2, time.time()
                    while time.time() - tc < 300:
                        rc2, err2, cout = run_case(exes[ri], run, tier, seed, known, seq[-k:], d, "c")
                        if is_bad(rc2) or k >= len(seq):
                            break
                        k *= 4
                    which = ",".join(map(str, seq[-k:]))
            if not is_bad(rc2):
                log(errtxt[-4000:])
                log("[%s] case %d [%s] ended with %s but not when repeated (%s): check error" % (prop, ordinal, desc, rc, rc2))
                print("CHECK-ERROR property=%s unconfirmed case %d" % (prop, ordinal))
                return 2
            kind = {EXIT_VIOLATION: "violation", EXIT_HANG: "does not terminate", 42: "memory error", EXIT_ENDED: "the code under test ends the process"}.get(rc2, "crash (status %s)" % rc2)
            violation = {"property": prop, "run": ri, "ordinal": ordinal, "case": desc, "kind": kind, "output": err2[-6000:], "tier": tier, "seed": seed,
                         "reproduce": "VERIF_SEED=%d python3 %s/run.py %s --tier %s --only %d:%s" % (seed, VERIF, prop, tier, ri, which)}
            break
        for _, out in procs:
            try:
                r = json.load(open(out + ".json"))
            except Exception:
                continue
            for k, v in r["counters"].items():
                total["counters"][k] = total["counters"].get(k, 0) + v
            for k, v in r["maxima"].items():
                total["maxima"][k] = max(total["maxima"].get(k, 0), v)
            for k, v in r["known"].items():
                total["known"][k] = total["known"].get(k, 0) + v
            total["distinct"] += r["distinct"]
            total["skipped"] += r["skipped"]
            total["samples"] += r["samples"]
            try:
                b = open(out + ".states", "rb").read()
                states.update(b[i:i + 8] for i in range(0, len(b), 8))
            except OSError:
                pass
        log("[%s] run %d (%s%s): %.1fs" % (prop, ri, run.get("variant", "asan"), "/" + run["set"] if run.get("set") else "", time.time() - tr))
        if violation:
            break

    c = total["counters"]
    cov = {"samples": total["samples"][:12], "exhaustive": total["skipped"] == 0 and not violation,
           "rule": spec["rule"], "cases": c.get("cases", 0)}
    ev = c.get("evaluations", 0) or c.get("cases", 0)
    if spec["level"] in ("exploration", "fault_enumeration"):
        cov["evaluations"] = ev
        cov["distinct_nontrivial"] = total["distinct"]
        if states:
            cov["states"] = len(states)
    else:
        cov["states"] = len(states)
        cov["transitions"] = c.get("transitions", 0)
        cov["traces_validated_against_impl"] = c.get("traces", 0)
        cov["evaluations"] = ev
        cov["distinct_nontrivial"] = total["distinct"]
    cov["counters"] = c
    if total["maxima"]:
        cov["maxima"] = total["maxima"]
    if total["skipped"]:
        cov["cases_skipped_by_time_budget"] = total["skipped"]
    evd = {"property": prop, "tier": tier, "seed": seed, "level": spec["level"], "coverage": cov,
           "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evd, f, indent=1)
        f.write("\n")
    for k, n in sorted(total["known"].items()):
        print("KNOWN-FINDING: property=%s %s (%d cases)" % (prop, known_text.get(k, k), n))
    if violation:
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s.json" % prop)
        with open(path, "w") as f:
            json.dump(violation, f, indent=1)
            f.write("\n")
        log(violation["output"][-3000:])
        print("[%s] %s in case %d: %s" % (prop, violation["kind"], violation["ordinal"], violation["case"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("OK property=%s tier=%s cases=%d evaluations=%d states=%d%s wall=%.1fs" % (
        prop, tier, c.get("cases", 0), ev, len(states), "" if not total["skipped"] else " (time budget: %d cases not run)" % total["skipped"], time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException as e:
        import traceback
        traceback.print_exc()
        print("CHECK-ERROR %r" % (e,))
        sys.exit(2)
