#!/usr/bin/env python3
"""check.py PROPERTY: decides one property by running its monitored workloads.

Builds the harnesses of the property against the current working tree of /repo (one build
directory per sanitizer family), runs them in parallel shards, and judges the outcome:

  exit 0  the property held on everything explored (known findings are reported)
  exit 1  a violation that is not listed in known_findings.txt
  exit 2  no verdict (build failure, workload did not complete, ...)
"""

import fcntl
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "bin"))
from checks import CHECKS, VARIANTS  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(ROOT, "build"))
JOBS = int(os.environ.get("VERIF_JOBS", "0")) or max(2, os.cpu_count() or 8)
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
STALL_S = 100 if TIER == "quick" else 400     # No progress for this long: suspected hang
TOTAL_S = 800 if TIER == "quick" else 6 * 3600


class NoVerdict(Exception):
    pass


def env_for_run():
    env = dict(os.environ)
    for k in list(env):
        if k.startswith(("LC_", "ASAN_", "UBSAN_", "TSAN_", "LSAN_")):
            del env[k]
    env.pop("DISPLAY", None)
    env["LANG"] = env["LC_ALL"] = "C.UTF-8"
    env["ASAN_OPTIONS"] = ("abort_on_error=0:max_free_fill_size=4096:free_fill_byte=219:exitcode=77:detect_leaks=0:allocator_may_return_null=0:"
                           "detect_stack_use_after_return=1:strict_string_checks=1:max_allocation_size_mb=8000:"
                           "check_initialization_order=1:strict_init_order=0:handle_abort=1:handle_sigill=1")
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=77"
    env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=4"
    env["SDL_VIDEODRIVER"] = "dummy"
    env["SDL_AUDIODRIVER"] = "dummy"
    return env


def build(variant, targets, log):
    spec = VARIANTS[variant]
    d = os.path.join(BUILD, variant)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(BUILD, f".lock-{variant}"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        env = dict(os.environ)
        for k in ("CFLAGS", "CXXFLAGS", "LDFLAGS", "MAKEFLAGS", "DESTDIR"):
            env.pop(k, None)
        env["CC"], env["CXX"] = spec["cc"], spec["cxx"]
        cfg = ["cmake", "-S", ROOT, "-B", d, "-G", "Ninja", f"-DVERIF_REPO={REPO}", "-DCMAKE_BUILD_TYPE=",
               f"-DCMAKE_CXX_FLAGS={spec['flags']}", f"-DCMAKE_EXE_LINKER_FLAGS={spec.get('link', '')}"]
        # Keep a harness that is not wanted from being configured wrongly after removal.
        r = subprocess.run(cfg, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        log.write(r.stdout)
        if r.returncode != 0:
            print(r.stdout[-3000:])
            raise NoVerdict(f"cmake failed for variant {variant}")
        r = subprocess.run(["ninja", "-C", d, f"-j{JOBS}"] + targets, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        log.write(r.stdout)
        if r.returncode != 0:
            i = r.stdout.find("FAILED")
            print(r.stdout[i:i + 6000])
            raise NoVerdict(f"build failed for variant {variant}")
    return d


FRAME = re.compile(r"^\s*#\d+ 0x[0-9a-f]+ in (.*?) (/\S+?):(\d+)(?::\d+)?\s*$")


def simplify(func):
    # Strip template arguments and parameters, so that the key survives edits.
    out, depth = "", 0
    for i, ch in enumerate(func):
        if ch == "<" and not out.endswith("operator"):
            depth += 1
        elif ch == ">" and depth:
            depth -= 1
        elif depth == 0:
            if ch == "(" and not func[i:].startswith("(anonymous"):
                if out:
                    break
            out += ch
    return out.strip().split(" ")[-1] or func[:60]


def crash_key(err, rc):
    """Stable classification of a fatal sanitizer report, failed assertion, or crash."""
    kind = None
    if m := re.search(r"SUMMARY: ThreadSanitizer: ([\w -]+?)(?: \(|/| in |$)", err, re.M):
        kind = "tsan:" + m[1].strip()
    elif m := re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err):
        kind = "asan:" + m[1]
    elif m := re.search(r"runtime error: (.*)", err):
        kind = "ubsan:" + re.sub(r"[^a-z]+", "-", re.sub(r"(0x)?[0-9a-f]*\d[0-9a-f]*|'[^']*'", "", m[1].lower()))[:60].strip("-")
    if m := re.search(r"Assertion (?:failed|`.*' failed)", err):
        kind = "assertion"
    if m := re.search(r"terminate called after throwing an instance of '(.*?)'", err):
        kind = "terminate:" + m[1]
    if kind is None:
        kind = f"exit:{rc}"
    func = ""
    for line in err.splitlines():
        m = FRAME.match(line)
        if m and ("/src/archon/" in m[2]) and "archon::core::terminate" not in m[1] and "assert.hpp" not in m[2]:
            func = simplify(m[1])
            break
    return f"{kind}:{func}"


def read_state(path):
    try:
        with open(path, "rb") as f:
            b = f.read(16 + 128 + 512)
    except OSError:
        return None
    if len(b) < 16 + 128:
        return None
    progress = int.from_bytes(b[0:8], "little")
    case = int.from_bytes(b[8:16], "little")
    mon = b[16:144].split(b"\0")[0].decode()
    return progress, case, mon


class Shard:
    def __init__(self, run, exe, base_args, shard, num, work):
        self.run, self.exe, self.base_args = run, exe, base_args
        self.shard, self.num, self.work = shard, num, work


def run_process(cmd, env, errpath, statepath, deadline, stall=None):
    """Returns (rc, 'ok' | 'stall' | 'deadline')."""
    stall = stall or STALL_S
    with open(errpath, "ab") as err:
        p = subprocess.Popen(cmd, env=env, stdin=subprocess.DEVNULL, stdout=err, stderr=err, start_new_session=True)
    last, since = None, time.time()
    delay = 0.01
    while True:
        try:
            return p.wait(timeout=delay), "ok"
        except subprocess.TimeoutExpired:
            pass
        delay = min(0.5, delay * 1.5)
        now = time.time()
        s = read_state(statepath)
        if s != last:
            last, since = s, now
        why = None
        if now - since > stall:
            why = "stall"
        elif now > deadline:
            why = "deadline"
        if why:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
            return -9, why


def run_shard(sh, known, deadline, stop):
    env = env_for_run()
    env.update(sh.run.get("env", {}))
    out = os.path.join(sh.work, f"out-{sh.shard}.jsonl")
    errp = os.path.join(sh.work, f"err-{sh.shard}.log")
    skip = os.path.join(sh.work, f"skip-{sh.shard}")
    records, crashes = [], []
    resumed = {}
    retries = 0
    while True:
        statep = os.path.join(sh.work, f"state-{sh.shard}")
        for p in (out, errp, statep):
            if os.path.exists(p):
                os.unlink(p)
        cmd = [sh.exe] + sh.base_args + ["--shard", f"{sh.shard}/{sh.num}", "--out", out, "--state", statep,
                                        "--tmp", sh.work]
        for k in known:
            cmd += ["--known", k]
        if resumed:
            with open(skip, "w") as f:
                for m, k in resumed.items():
                    f.write(f"{m} {k}\n")
            cmd += ["--skip", skip]
        rc, how = run_process(cmd, env, errp, statep, deadline)
        recs = []
        if os.path.exists(out):
            for line in open(out, encoding="utf-8", errors="replace"):
                try:
                    recs.append(json.loads(line))
                except ValueError:
                    pass
        records += [r for r in recs if r["type"] != "end"]
        err = open(errp, encoding="utf-8", errors="replace").read() if os.path.exists(errp) else ""
        if any(r["type"] == "end" for r in recs):
            if rc in (0, 1):
                return records, crashes
            # Failure during process exit
            crashes.append({"key": "(exit)/" + crash_key(err, rc), "monitor": "(exit)", "case": 0, "err": err, "rc": rc})
            return records, crashes
        if how == "deadline":
            raise NoVerdict(f"shard {sh.shard} of {os.path.basename(sh.exe)} ran out of time")
        st = read_state(statep)
        if st is None or not st[2]:
            raise NoVerdict(f"{os.path.basename(sh.exe)} did not start (exit status {rc}): {err[-1500:]}")
        _, case, mon = st
        has_report = re.search(r"ERROR: AddressSanitizer|runtime error:|WARNING: ThreadSanitizer|Assertion failed|"
                               r"terminate called|ThreadSanitizer", err)
        if how == "stall":
            # Run the case alone. A hang is only reported if it repeats.
            sp = os.path.join(sh.work, f"state-{sh.shard}-again")
            e2 = os.path.join(sh.work, f"err-{sh.shard}-again.log")
            o2 = os.path.join(sh.work, f"out-{sh.shard}-again.jsonl")
            rc2, how2 = run_process([sh.exe] + sh.base_args + ["--shard", f"{sh.shard}/{sh.num}", "--monitor", mon,
                                     "--case", str(case), "--state", sp, "--tmp", sh.work, "--out", o2], env, e2, sp,
                                    deadline + 2 * STALL_S, 1.5 * STALL_S)
            if how2 == "stall":
                key = f"{mon}/hang"
                err += f"\nNo progress in {STALL_S} s, and again in {1.5 * STALL_S} s when run alone\n"
            else:
                retries += 1
                if retries > 1:
                    raise NoVerdict(f"{mon} case {case}: stalled, but not when run alone")
                resumed = merge_resume(resumed, sh, recs, mon, case)
                continue
        elif not has_report and rc in (-9, -15, -2, -1):
            retries += 1
            if retries > 1:
                raise NoVerdict(f"{os.path.basename(sh.exe)} was killed by signal {-rc}")
            continue
        else:
            key = f"{mon}/{crash_key(err, rc)}"
        crashes.append({"key": key, "monitor": mon, "case": case, "err": err, "rc": rc})
        if key not in known:
            return records, crashes
        resumed = merge_resume(resumed, sh, recs, mon, case)


def merge_resume(resumed, sh, recs, mon, case):
    r = dict(resumed)
    for x in recs:
        if x["type"] == "monitor":
            r[x["monitor"]] = 1 << 62
    r[mon] = case + sh.num
    return r


def load_known(prop):
    known = {}
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.rstrip("\n"))
            if m and m[1] == prop:
                known[m[2]] = m[3]
    return known


def printable(s):
    """Text of messages can be arbitrary bytes"""
    s = "".join(ch if ch == "\n" or ch.isprintable() else f"\\x{ord(ch):02x}" for ch in s)
    return s.encode("ascii", "backslashreplace").decode()


def main():
    prop = sys.argv[1]
    check = CHECKS[prop]
    t0 = time.time()
    deadline = t0 + TOTAL_S
    known = load_known(prop)
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    work_root = os.path.join(BUILD, "run", f"{prop}-{os.getpid()}")
    shutil.rmtree(work_root, ignore_errors=True)
    os.makedirs(work_root)
    violations, observed_known = [], {}
    agg = {}
    try:
        log = open(os.path.join(BUILD, f"build-{prop}.log"), "w")
        by_variant = {}
        for run in check["runs"]:
            if TIER == "quick" and run.get("thorough_only"):
                continue
            by_variant.setdefault(run["variant"], set()).add(run["harness"])
        dirs = {}
        for variant, targets in by_variant.items():
            dirs[variant] = build(variant, sorted(targets), log)
        t_build = time.time() - t0
        jobs = []
        for n, run in enumerate(check["runs"]):
            if TIER == "quick" and run.get("thorough_only"):
                continue
            exe = os.path.join(dirs[run["variant"]], run["harness"])
            args = ["--seed", str(SEED)]
            if TIER == "thorough":
                args.append("--thorough")
            for m in run.get("monitors", []):
                args += ["--monitor", m]
            if "scale" in run:
                args += ["--scale", run["scale"]]
            num = min(run.get("shards", JOBS), JOBS)
            for s in range(num):
                w = os.path.join(work_root, f"r{n}-{s}")
                os.makedirs(w)
                jobs.append((n, Shard(run, exe, args, s, num, w)))
        workers = check.get("parallel", JOBS)
        with ThreadPoolExecutor(workers) as pool:
            results = list(pool.map(lambda j: (j, run_shard(j[1], known, deadline, None)), jobs))
        for (n, sh), (records, crashes) in results:
            label = f"{sh.run['harness']}.{sh.run['variant']}"
            for r in records:
                if r["type"] == "violation":
                    violations.append({"key": r["key"], "monitor": r["monitor"], "case": r["case"], "msg": r["msg"],
                                       "shard": sh})
                elif r["type"] == "monitor":
                    a = agg.setdefault((n, label, r["monitor"]),
                                       {"planned": 0, "executed": 0, "nontrivial": 0, "events": {}, "samples": [],
                                        "sigs": set()})
                    a["planned"] = max(a["planned"], r["planned"])
                    a["executed"] += r["executed"]
                    a["nontrivial"] += r["nontrivial"]
                    for k, v in r["events"].items():
                        a["events"][k] = a["events"].get(k, 0) + v
                    a["samples"] += r["samples"]
                    a["sigs"].update(r["sigs"])
                    for k, v in r["known"].items():
                        observed_known[k] = observed_known.get(k, 0) + v
            for c in crashes:
                if c["key"] in known:
                    observed_known[c["key"]] = observed_known.get(c["key"], 0) + 1
                    a = agg.setdefault((n, label, c["monitor"]),
                                       {"planned": 0, "executed": 0, "nontrivial": 0, "events": {}, "samples": [],
                                        "sigs": set()})
                    a["crashed_known"] = a.get("crashed_known", 0) + 1
                else:
                    violations.append({"key": c["key"], "monitor": c["monitor"], "case": c["case"],
                                       "msg": c["err"][-12000:], "shard": sh})
        for k, v in sorted(observed_known.items()):
            print(f"KNOWN-FINDING: property={prop} {known[k]} [key {k}, observed {v} times]")
        if not violations:
            for (n, label, mon), a in agg.items():
                if a["executed"] < a["planned"] and not a.get("crashed_known"):
                    raise NoVerdict(f"{label} {mon}: only {a['executed']} of {a['planned']} cases were executed")
                if a["nontrivial"] == 0:
                    raise NoVerdict(f"{label} {mon}: no non-trivial case was observed")
            for mon, names in check.get("require_events", {}).items():
                if isinstance(names, int): # Minimum over all monitors
                    if sum(a["events"].get(mon, 0) for a in agg.values()) < names:
                        raise NoVerdict(f"event '{mon}' was observed less than {names} times")
                    continue
                for name in names:
                    if not any(m == mon and a["events"].get(name, 0) > 0 for (_, _, m), a in agg.items()):
                        raise NoVerdict(f"{mon}: event '{name}' was never observed")
            if not agg:
                raise NoVerdict("nothing was executed")
        evidence = {
            "property": prop, "tier": TIER, "seed": SEED, "level": "exploration",
            "coverage": {
                "evaluations": sum(a["executed"] for a in agg.values()),
                "distinct_nontrivial": sum(len(a["sigs"]) for a in agg.values()),
                "rule": check["rule"],
                "samples": [f"{label} {mon}: {s}" for (_, label, mon), a in agg.items() for s in a["samples"][:2]][:60],
                "monitors": [{"harness": label, "monitor": mon, "cases": a["executed"], "nontrivial_cases": a["nontrivial"],
                              "distinct": len(a["sigs"]), "events": a["events"]}
                             for (_, label, mon), a in agg.items()],
                "known_findings_observed": observed_known,
                "build_s": round(t_build, 1),
            },
            "assumptions": check.get("assumptions", []),
            "wall_s": round(time.time() - t0, 1),
            "violations": len(violations),
        }
        with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
            json.dump(evidence, f, indent=1)
        if violations:
            os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
            seen = set()
            for v in violations:
                if v["key"] in seen:
                    continue
                seen.add(v["key"])
                sh = v["shard"]
                name = re.sub(r"[^\w.-]+", "_", f"{prop}-{v['key']}")[:120]
                path = os.path.join(ROOT, "replays", name + ".txt")
                replay_args = [a for a in sh.base_args]
                cmd = f"{sh.exe} {' '.join(replay_args)} --shard {sh.shard}/{sh.num} --monitor {v['monitor']} --case {v['case']} --verbose"
                with open(path, "w", encoding="utf-8", errors="backslashreplace") as f:
                    f.write(f"property: {prop}\nmonitor: {v['monitor']}\ncase: {v['case']}\nkey: {v['key']}\n"
                            f"variant: {sh.run['variant']}\nseed: {SEED}\ntier: {TIER}\nreplay: {cmd}\n\n{v['msg']}\n")
                print(f"  {v['monitor']} case {v['case']} key {v['key']}: {printable(v['msg'][:1500])}")
                print(f"VIOLATION property={prop} replay={path}")
            sys.stdout.flush()
            return 1
        print(f"OK property={prop} tier={TIER} seed={SEED} evaluations={evidence['coverage']['evaluations']} "
              f"distinct={evidence['coverage']['distinct_nontrivial']} build={t_build:.0f}s "
              f"total={time.time() - t0:.0f}s")
        return 0
    finally:
        shutil.rmtree(work_root, ignore_errors=True)


if __name__ == "__main__":
    try:
        rc = main()
    except NoVerdict as e:
        print(f"NO VERDICT: {e}")
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
