#!/usr/bin/env python3
"""Decides one property of the code in /repo.

    check.py ID [--tier quick|thorough] [--seed N]     run the property's monitors
    check.py ID --replay FILE                          run the case of a replay file again

Builds the harness and what it drives from /repo's working tree, runs it in a scratch
directory, contains crashes, writes evidence/ID.json.
Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken. Exit 2: no answer.
"""
import argparse, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
MODULE = "terorie.dev/nimiq/"
KNOWN = os.path.join(HERE, "known_findings.txt")
RACE = {"P03", "R01", "R02"}        # decided by the race detector
TOOL = {"E01"}                       # need the replay tool
# A thorough run repeats a share of its cases under the race detector, too.
RACE_SHARE = {"quick": 0, "thorough": 8}
LIMIT = {"quick": 800, "thorough": 4 * 3600}


class NoAnswer(Exception):
    pass


def go_env():
    env = dict(os.environ)
    for k in list(env):
        if k.startswith(("GO", "CGO")) and k not in ("GOROOT", "GOCACHE", "GOPATH", "GOMODCACHE"):
            del env[k]
    root = env.get("GOROOT", "/opt/veriftools/go1.27.3")
    if not os.path.exists(os.path.join(root, "bin", "go")):
        root = "/opt/veriftools/go1.27.3"
    env.setdefault("HOME", "/root")
    env.update(GOROOT=root, GOTOOLCHAIN="local", GOWORK="off", GOPROXY="off", GOFLAGS="-mod=readonly")
    env.setdefault("GOPATH", "/root/go")
    env.setdefault("GOMODCACHE", "/root/go/pkg/mod")
    env.setdefault("GOCACHE", "/root/.cache/go-build")
    env["PATH"] = root + "/bin:" + env.get("PATH", "/usr/bin:/bin")
    return env


def build(env, cwd, out, pkg, race=False):
    cmd = ["go", "build", "-buildvcs=false", "-o", out]
    if race:
        cmd.append("-race")
        env = dict(env, CGO_ENABLED="1")
    p = subprocess.run(cmd + [pkg], cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise NoAnswer("build of %s in %s failed:\n%s" % (pkg, cwd, p.stdout[-4000:]))
    return out


def active_cases(outdir):
    cases = []
    for name in sorted(os.listdir(outdir)):
        if name.startswith("active."):
            with open(os.path.join(outdir, name), errors="replace") as f:
                s = f.readline().strip()
            if s:
                cases.append(s)
    return cases


def run_monitor(binary, prop, tier, seed, work, env, race, div, only, limit, tag):
    """Runs the monitors. Returns (result, violations)."""
    outdir = os.path.join(work, "out-" + tag)
    os.mkdir(outdir)
    cwd = os.path.join(work, "cwd-" + tag)
    os.mkdir(cwd)
    env = dict(env, TMPDIR=os.path.join(work, "tmp"), GOTRACEBACK="all")
    env["GORACE"] = "halt_on_error=0 log_path=%s/race exitcode=66 history_size=3" % outdir
    cmd = [binary, "-prop", prop, "-tier", tier, "-seed", str(seed), "-out", outdir, "-known", KNOWN, "-div", str(div), "-src", REPO]
    if only:
        cmd += ["-only", only]

    def limits():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if not race:
            resource.setrlimit(resource.RLIMIT_AS, (20 << 30, 20 << 30))

    err_path = os.path.join(work, "stderr-" + tag)
    with open(err_path, "wb") as err, open(os.path.join(work, "stdout-" + tag), "wb") as out:
        p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=out, stderr=err, preexec_fn=limits)
        try:
            rc = p.wait(timeout=limit)
        except subprocess.TimeoutExpired:
            p.send_signal(signal.SIGQUIT)
            try:
                p.wait(timeout=10)
            except subprocess.TimeoutExpired:
                pass
            rc = None
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    with open(err_path, errors="replace") as f:
        stderr = f.read(4 << 20)
    races = ""
    for name in sorted(os.listdir(outdir)):
        if name.startswith("race"):
            with open(os.path.join(outdir, name), errors="replace") as f:
                races += f.read(1 << 20)
    active = active_cases(outdir)
    base = {"property": prop, "tier": tier, "seed": seed, "build": "race" if race else "normal"}
    violations = []
    for block in re.findall(r"WARNING: DATA RACE\n.*?(?:={18}|\Z)", races, re.S):
        if MODULE in block:
            violations.append(dict(base, what="data race", stack=block[:12000], candidates=active))
            break
    result = None
    path = os.path.join(outdir, "result.json")
    if os.path.exists(path):
        with open(path) as f:
            result = json.load(f)
        for v in result["violations"] or []:
            v["build"] = base["build"]
            violations.append(v)
    if violations:
        return result, violations
    if rc is None:
        raise NoAnswer("the monitors of %s did not end within %d s (active: %s)\n%s" % (prop, limit, active, stderr[-6000:]))
    if races:
        raise NoAnswer("data race in the harness:\n" + races[:6000])
    if result is None:
        # The process died: a fatal error that cannot be recovered, like stack exhaustion.
        crash = stderr
        m = re.search(r"(?m)^(fatal error:|runtime:|panic:|unexpected fault|SIGSEGV)", crash)
        if m and MODULE in crash:
            at = max(0, m.start())
            return None, [dict(base, what="the process died: " + crash[at:at + 300].split("\n\n")[0], stack=crash[at:at + 12000], candidates=active)]
        raise NoAnswer("the monitors of %s ended with %s (active: %s)\n%s" % (prop, rc, active, stderr[-6000:]))
    if result["inconclusive"]:
        raise NoAnswer("inconclusive: " + "\n".join(result["inconclusive"])[:6000])
    return result, []


def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp%d" % os.getpid()
    with open(tmp, "w") as f:
        json.dump(obj, f, indent=1, sort_keys=True)
        f.write("\n")
    os.replace(tmp, path)


def write_evidence(prop, tier, seed, runs, violations, wall):
    main = runs[0][1] if runs else None
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "no run completed", "samples": []}
    assumptions = []
    level = "exploration"
    if main:
        samples = [s for s in main["samples"] or []][:12]
        if not samples:
            samples = ["%s: %d" % kv for kv in sorted((main["counts"] or {}).items())[:12]]
        counts = main["counts"] or {}
        if len(counts) > 250:
            counts = dict(sorted(counts.items(), key=lambda kv: -kv[1])[:250])
        cov = {"evaluations": main["evaluations"], "distinct_nontrivial": main["distinct"], "rule": main["rule"], "samples": samples,
               "cases": main["cases"], "observed": counts, "workloads": main["workloads"]}
        if main["states"]:
            cov["distinct_states_seen"] = main["states"]
        if main["exhaustive"]:
            cov["exhaustive_parts"] = True
        cov["build"] = runs[0][0]
        for tag, r in runs[1:]:
            cov["also_" + tag] = {"evaluations": r["evaluations"], "distinct_nontrivial": r["distinct"], "cases": r["cases"]}
        assumptions = main["assumptions"] or []
        level = main["level"]
    write_json(os.path.join(HERE, "evidence", prop + ".json"), {
        "property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
        "assumptions": assumptions, "wall_s": round(wall, 2), "violations": len(violations)})


def setup():
    """Builds all that checks build, which shows that they can and warms the build cache."""
    work = tempfile.mkdtemp(prefix="vmon-setup-")
    try:
        env = go_env()
        env["GOTMPDIR"] = work
        harness = os.path.join(HERE, "harness")
        for race in (False, True):
            build(env, harness, os.path.join(work, "vmon"), ".", race)
        build(env, REPO, os.path.join(work, "gimiq"), "./cmd/gimiq")
    except NoAnswer as e:
        print(e, file=sys.stderr)
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--setup", action="store_true", help="only build everything once")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    args = ap.parse_args()
    if args.setup:
        return setup()
    if not args.property:
        ap.error("which property?")
    prop, tier, seed, only = args.property, args.tier, args.seed, None
    start = time.time()
    replay = None
    if args.replay:
        with open(args.replay) as f:
            replay = json.load(f)
        seed, tier = replay["seed"], replay["tier"]
        if replay.get("workload"):
            only = "%s#%d" % (replay["workload"], replay["case"])
    work = tempfile.mkdtemp(prefix="vmon-" + prop + "-")
    os.mkdir(os.path.join(work, "tmp"))
    runs, violations = [], []
    try:
        env = go_env()
        env["GOTMPDIR"] = os.path.join(work, "tmp")
        if prop in TOOL:
            env["VMON_GIMIQ"] = build(env, REPO, os.path.join(work, "gimiq"), "./cmd/gimiq")
        plan = []
        if prop in RACE or (replay and replay.get("build") == "race"):
            plan.append(("race", True, 1))
        else:
            plan.append(("normal", False, 1))
            if RACE_SHARE[tier] and not replay:
                plan.append(("race", True, RACE_SHARE[tier]))
        for tag, race, div in plan:
            binary = build(env, os.path.join(HERE, "harness"), os.path.join(work, "vmon-" + tag), ".", race)
            left = max(60, LIMIT[tier] - (time.time() - start))
            result, violations = run_monitor(binary, prop, tier, seed, work, env, race, div, only, left, tag)
            if result:
                runs.append((tag, result))
            if violations:
                break
    except NoAnswer as e:
        print("NO ANSWER property=%s: %s" % (prop, e), file=sys.stderr)
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    if not replay:
        write_evidence(prop, tier, seed, runs, violations, time.time() - start)
    seen = {}
    for _, r in runs:
        seen.update(r["findings"] or {})
    for key in sorted(seen):
        print("KNOWN-FINDING: property=%s [%s] %s" % (prop, key, seen[key]))
    if violations:
        v = violations[0]
        path = args.replay
        if not replay:
            path = os.path.join(HERE, "evidence", "replay-%s-%s-%d.json" % (prop, tier, seed))
            v["others"] = len(violations) - 1
            v["again"] = "python3 %s %s --replay %s" % (os.path.join(HERE, "check.py"), prop, path)
            write_json(path, v)
        print("%s#%s: %s" % (v.get("workload", "?"), v.get("case", "?"), v["what"][:3000]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    for tag, r in runs:
        print("%s %s: held on %d cases, %d evaluations, %d distinct (%s build, %.1f s)" %
              (prop, tier, r["cases"], r["evaluations"], r["distinct"], tag, time.time() - start))
    return 0


if __name__ == "__main__":
    sys.stdout.reconfigure(errors="replace")
    sys.exit(main())
