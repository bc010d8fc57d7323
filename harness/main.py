import os, sys, json, time, signal, importlib, subprocess, tempfile, traceback, hashlib, pickle
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core

EXIT_HARNESS = 3
DEFAULT_BUDGET = {"quick": 420, "thorough": 3000}
CONFIRM_S = 100
SHARDS = {"quick": 6, "thorough": 8}


def load(pid):
    return importlib.import_module("checks." + pid.lower())


def write_replay(pid, sub, case, msg, prelude=None):
    d = os.path.join(core.VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    text = core.canon(case)
    path = os.path.join(d, "%s-%s-%s.json" % (pid, sub, hashlib.sha1(text.encode()).hexdigest()[:10]))
    with open(path, "w") as f:
        json.dump(dict(property=pid, sub_check=sub, case=case, message=msg, **(dict(prelude=prelude) if prelude else {})), f, indent=1)
    return path


def reproduces(path, limit):
    """Whether the replay file fails in a fresh process."""
    try:
        return subprocess.run([sys.executable, "-P", sys.argv[0], "replay", path], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=max(5, limit)).returncode == 1
    except subprocess.TimeoutExpired:
        return False


def confirmed(pid, sub, case, msg, first, history):
    """The replay file of a violation.  A case that only fails because of what earlier cases left behind in the code under test (kept between objects, in
    modules or classes) is saved together with the earlier cases it needs."""
    path = write_replay(pid, sub, case, msg)
    t_end = time.time() + CONFIRM_S
    if first is None or reproduces(path, CONFIRM_S):
        return path, sub, case, msg
    os.remove(path)
    fsub, ftext, fmsg, _ = first
    fcase = json.loads(ftext)
    fpath = write_replay(pid, fsub, fcase, fmsg)
    if reproduces(fpath, t_end - time.time()):
        return fpath, fsub, fcase, fmsg
    k, pre = 1, None
    fmsg += " (after earlier cases: see the replay file's prelude)"
    while k < 2 * len(history) and time.time() < t_end:
        cand = [[s, json.loads(t)] for s, t in history[-k:]]
        fpath = write_replay(pid, fsub, fcase, fmsg, cand)
        if reproduces(fpath, t_end - time.time()):
            pre = cand
            break
        k *= 2
    if pre is None:
        return write_replay(pid, fsub, fcase, fmsg, [[s, json.loads(t)] for s, t in history]), fsub, fcase, fmsg
    size = max(1, len(pre) // 2)
    while time.time() < t_end:      # drop the cases that are not needed
        i, dropped = 0, False
        while i < len(pre) and len(pre) > 1 and time.time() < t_end:
            cand = pre[:i] + pre[i + size:]
            if cand and reproduces(write_replay(pid, fsub, fcase, fmsg, cand), t_end - time.time()):
                pre, dropped = cand, True
            else:
                i += size
        if size == 1 and not dropped:
            break
        size = max(1, size // 2)
    return write_replay(pid, fsub, fcase, fmsg, pre), fsub, fcase, fmsg


def write_evidence(pid, mod, tier, seed, stats, wall, violations):
    d = os.path.join(core.VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=stats.evals, distinct_nontrivial=len(stats.nt_hashes), rule=mod.RULE,
                            samples=stats.samples[:12],
                            per_sub_check={k: dict(evaluations=v[0], nontrivial=v[1], seconds=(v[2] if len(v) > 2 else None)) for k, v in stats.per_sub.items()},
                            label_counts=dict(sorted(stats.labels.items())), cases_skipped_for_time=stats.skipped_for_time),
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])), wall_s=round(wall, 2), violations=violations)
    with open(os.path.join(d, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def run_all(pid, mod, tier, seed, budget, shard=0, only=None):
    stats = core.Stats()
    t0 = time.time()
    subs = [s for s in mod.SUBS if not only or s.name in only]
    for i, sub in enumerate(subs):
        t_end = t0 + budget * (i + 1) / len(subs)
        h = int(hashlib.sha1(("%d/%d/%s/%s" % (seed, shard, pid, sub.name)).encode()).hexdigest()[:12], 16)
        n_over = None
        if os.environ.get("VERIF_SCALE"):
            n_over = max(1, int((sub.quick if tier == "quick" else sub.thorough) * float(os.environ["VERIF_SCALE"])))
        bad = core.run_sub(sub, tier, h, stats, t_end, n_over)
        if bad is not None:
            return stats, (sub.name,) + bad
    return stats, None


def cpu_seconds(pid):
    try:
        with open("/proc/%d/stat" % pid) as f:
            v = f.read().rsplit(")", 1)[1].split()
        return (int(v[11]) + int(v[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, ValueError, IndexError):
        return None


def supervise(n_shards):
    """Runs the shards; the first violation ends them all.  A shard that is killed by a fault of the compiled code under test, or is stuck in one case where
    the case's own time limit cannot interrupt it (compiled code), is reported with the case it had noted."""
    scratch = os.environ.get("VERIF_SCRATCH") or tempfile.mkdtemp(prefix="verif")
    live = []
    for k in range(n_shards):
        out = os.path.join(scratch, "shard%d" % k)
        env = dict(os.environ, VERIF_SHARD=str(k), VERIF_SHARD_OUT=out)
        if "NUMBA_CACHE_DIR" in env:
            env["NUMBA_CACHE_DIR"] += str(k)
        live.append([out, subprocess.Popen([sys.executable, "-P"] + sys.argv, env=env), None, 0.0])
    stats, violation, err, trail = core.Stats(), None, None, (None, [])
    done = []
    try:
        while live:
            time.sleep(0.1)
            for item in list(live):
                out, p, seen, cpu0 = item
                rc = p.poll()
                if rc is None:
                    try:
                        m = os.stat(out + ".cur").st_mtime_ns
                    except OSError:
                        continue
                    if m != seen:
                        item[2], item[3] = m, cpu_seconds(p.pid) or 0.0
                    elif (cpu_seconds(p.pid) or 0.0) - item[3] > core.STUCK_AFTER and violation is None:
                        violation = noted(out, "did not terminate within %d s of processor time (typical cases take milliseconds)" % core.STUCK_AFTER)
                    continue
                live.remove(item)
                if rc == 0 and os.path.exists(out):
                    with open(out, "rb") as f:
                        s, v, first, history = pickle.load(f)
                    done.append(s)
                    if v is not None and violation is None:
                        violation, trail = v, (first, history)
                elif rc in (-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGFPE, -signal.SIGABRT, -signal.SIGILL) and os.path.exists(out + ".cur"):
                    violation = violation or noted(out, "the code under test crashed the interpreter (signal %d)" % -rc)
                else:
                    err = err or "exit status %s" % rc
            if violation is not None:
                break
    finally:
        for item in live:
            item[1].kill()
            item[1].wait()
    for s in done:
        stats.evals += s.evals
        stats.nt_hashes |= s.nt_hashes
        stats.skipped_for_time += s.skipped_for_time
        for k, n in s.labels.items():
            stats.labels[k] = stats.labels.get(k, 0) + n
        for k, v2 in s.per_sub.items():
            d = stats.per_sub.setdefault(k, [0, 0, 0])
            d[0] += v2[0]; d[1] += v2[1]; d[2] = max(d[2], v2[2] if len(v2) > 2 else 0)
        for smp in s.samples:
            if sum(1 for q in stats.samples if q["sub_check"] == smp["sub_check"]) < 2:
                stats.samples.append(smp)
    return stats, violation, err, trail


def noted(out, msg):
    with open(out + ".cur") as f:
        sub, text = f.read().split("\n", 1)
    return sub, json.loads(text), msg


def cmd_run(pid, only=None):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in SHARDS:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    budget = float(os.environ.get("VERIF_BUDGET_S", DEFAULT_BUDGET[tier]))
    shard_env = os.environ.get("VERIF_SHARD")
    core.bootstrap()
    mod = load(pid)
    n_shards = int(os.environ.get("VERIF_SHARDS", SHARDS[tier]))
    violation = None
    if shard_env is not None:
        core.CURRENT = os.environ["VERIF_SHARD_OUT"] + ".cur"
        stats, violation = run_all(pid, mod, tier, seed, budget, int(shard_env), only)
        tmp = os.environ["VERIF_SHARD_OUT"] + ".tmp"
        with open(tmp, "wb") as f:
            first = core.FIRST if violation is not None else None
            pickle.dump((stats, violation, first, core.HISTORY[:first[3]] if first else []), f)
        os.rename(tmp, os.environ["VERIF_SHARD_OUT"])
        return 0
    stats, violation, err, trail = supervise(n_shards)
    if err and violation is None:
        print("harness error in a shard (%s)" % err, file=sys.stderr)
        return EXIT_HARNESS
    for line in known_findings(pid):
        print("KNOWN-FINDING: " + line)
    write_evidence(pid, mod, tier, seed, stats, time.time() - t0, 0 if violation is None else 1)
    if violation is not None:
        sub, case, msg = violation
        path, sub, case, msg = confirmed(pid, sub, case, msg, *trail)
        print("sub-check %s: %s" % (sub, msg))
        text = core.canon(case)
        print("case: %s" % (text if len(text) < 3000 else text[:3000] + "..."))
        print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
        return 1
    print("%s: held on %d generated cases (%d distinct non-trivial), tier %s, seed %d, %.1f s" % (
        pid, stats.evals, len(stats.nt_hashes), tier, seed, time.time() - t0))
    for k, v in stats.per_sub.items():
        print("   %-28s %6d cases %6d non-trivial  %6.1f s" % (k, v[0], v[1], v[2] if len(v) > 2 else 0))
    if os.environ.get("VERIF_LABELS"):
        for k, n in sorted(stats.labels.items()):
            print("      %-60s %d" % (k, n))
    return 0


def known_findings(pid):
    """Lines 'finding: property=<id> <what fails>' of the committed file (none are suppressed implicitly:
    each check excludes its listed findings by construction)."""
    out = []
    try:
        with open(os.path.join(core.VERIF, "known_findings.txt")) as f:
            for line in f:
                if line.startswith("finding: property=%s " % pid):
                    out.append(line[len("finding: "):].strip())
    except FileNotFoundError:
        pass
    return out


def cmd_replay(path):
    core.bootstrap()
    with open(path) as f:
        r = json.load(f)
    mod = load(r["property"])
    subs = {s.name: s for s in mod.SUBS}
    sub = subs[r["sub_check"]]
    for name, case in r.get("prelude", []):
        try:
            core.run_case(subs[name].fn, case, core.Ctx("quick"), sub.timeout)
        except (core.Violation, core.Hang):
            pass
    try:
        core.run_case(sub.fn, r["case"], core.Ctx("quick"), sub.timeout)
    except (core.Violation, core.Hang) as e:
        print("reproduced: %s" % (e or "hang"))
        print("VIOLATION property=%s replay=%s" % (r["property"], path))
        return 1
    print("not reproduced: the property holds on this case")
    return 0


if __name__ == "__main__":
    try:
        if sys.argv[1] == "run":
            rc = cmd_run(sys.argv[2].upper(), set(sys.argv[3:]) or None)
        elif sys.argv[1] == "replay":
            rc = cmd_replay(sys.argv[2])
        else:
            rc = EXIT_HARNESS
    except SystemExit as e:
        print(e, file=sys.stderr)
        rc = EXIT_HARNESS
    except BaseException:
        traceback.print_exc()
        rc = EXIT_HARNESS
    sys.stdout.flush(); sys.stderr.flush()
    os._exit(rc)
