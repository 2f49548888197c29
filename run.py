#!/usr/bin/env python3
"""Runs one property check:  run.py C07 [--tier quick|thorough] [--replay FILE]

Builds the property's check program against /repo's working tree (or
$VERIF_REPO), runs it in shards, merges what the shards counted into
evidence/<id>.json, and reports.  Exit 0: held on everything explored.
Exit 1 and a VIOLATION line: broken.  Exit 2: the check itself failed.
"""
import argparse, concurrent.futures, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.path.abspath(os.environ.get("VERIF_REPO", "/repo"))
SHARDS = 8
TIME_LIMIT = {"quick": 840, "thorough": 4 * 3600}


def die(msg):
    print("check error: " + msg, file=sys.stderr)
    sys.exit(2)


def go_env():
    env = dict(os.environ)
    env.setdefault("HOME", "/root")
    env["PATH"] = "/usr/local/go/bin:" + env.get("PATH", "/usr/bin:/bin")
    env.update(GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOWORK="off",
               GO111MODULE="on", GOFLAGS="-mod=readonly", CGO_ENABLED="0")
    for k in ("GODEBUG", "GOEXPERIMENT", "GOOS", "GOARCH", "GOMAXPROCS", "GOMEMLIMIT", "GOGC"):
        env.pop(k, None)
    if not env.get("GOCACHE"):
        env["GOCACHE"] = os.path.join(env["HOME"], ".cache/go-build")
    if not env.get("GOMODCACHE"):
        env["GOMODCACHE"] = os.path.join(env["HOME"], "go/pkg/mod")
    return env


def build(prog, tmp, env, race=False):
    h = os.path.join(HERE, "harness")
    mod = os.path.join(tmp, "go.mod")
    text = open(os.path.join(h, "go.mod")).read()
    open(mod, "w").write(re.sub(r"(=> )/repo\b", lambda m: m.group(1) + REPO, text))
    shutil.copy(os.path.join(h, "go.sum"), os.path.join(tmp, "go.sum"))
    out = os.path.join(tmp, prog)
    for attempt in (1, 2):
        r = subprocess.run(["go", "build"] + (["-race"] if race else []) + ["-modfile", mod, "-o", out, "./cmd/" + prog],
                           cwd=h, env=dict(env, CGO_ENABLED="1") if race else env, capture_output=True, text=True)
        if r.returncode == 0:
            break
        if attempt == 2:
            die("building %s:\n%s" % (prog, r.stderr[-4000:]))
    if prog == "driver":  # the property is about the program itself
        exe = os.path.join(tmp, "goslide")
        r = subprocess.run(["go", "build", "-o", exe, "."], cwd=REPO, env=env, capture_output=True, text=True)
        if r.returncode != 0:
            die("building goslide:\n" + r.stderr[-4000:])
        env["VERIF_GOSLIDE"] = exe
    return out


def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_shard(exe, args, out, env, cwd, deadline):
    """Returns (stats or None, returncode, stderr tail)."""
    try:
        r = subprocess.run([exe] + args + ["-out", out], env=env, cwd=cwd, capture_output=True, text=True,
                           errors="replace", timeout=max(1, deadline - time.time()), preexec_fn=limits)
        rc, err = r.returncode, r.stderr
    except subprocess.TimeoutExpired:
        return None, "time limit", ""
    st = None
    try:
        st = json.load(open(out))
    except (OSError, ValueError):
        pass
    if rc != 0 or not st or not st.get("done"):
        return None, rc, err[-6000:]
    return st, 0, ""


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--part")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    try:
        seed = int(os.environ.get("VERIF_SEED") or "1")
    except ValueError:
        die("VERIF_SEED is not a number")
    specs = json.load(open(os.path.join(HERE, "checks.json")))
    if a.prop not in specs:
        die("unknown property " + a.prop)
    spec = specs[a.prop]
    env = go_env()
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % a.prop)
    try:
        rc = check(a, spec, env, tmp, seed, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def check(a, spec, env, tmp, seed, t0):
    exe = build(spec["prog"], tmp, env, spec.get("race", False))
    # every race counts, also when a case is repeated while shrinking
    env["GORACE"] = "halt_on_error=0 exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0 log_path=/dev/null"
    env["TMPDIR"] = tmp
    if a.replay:
        r = subprocess.run([exe, "-replay", os.path.abspath(a.replay)], env=env, cwd=tmp)
        return r.returncode
    base = ["-prop", a.prop, "-tier", a.tier, "-seed", str(seed & (2**64 - 1)), "-shards", str(SHARDS),
            "-scale", str(a.scale * (spec.get("scale", 1) if a.tier == "quick" else 1))]
    if a.part:
        base += ["-part", a.part]
    deadline = t0 + TIME_LIMIT[a.tier]
    merged, failure, errors = {}, None, []
    with concurrent.futures.ThreadPoolExecutor(max(1, min(SHARDS, os.cpu_count() or 1))) as ex:
        futs = [ex.submit(run_shard, exe, base + ["-shard", str(i)], os.path.join(tmp, "s%d.json" % i), env, tmp, deadline)
                for i in range(SHARDS)]
        for i, f in enumerate(futs):
            st, rc, err = f.result()
            if st is None:
                errors.append((i, rc, err))
                continue
            for name, p in (st["parts"] or {}).items():
                m = merged.setdefault(name, {"evaluations": 0, "skipped": 0, "labels": {}, "nt": set(), "samples": []})
                m["evaluations"] += p["evaluations"]
                m["skipped"] += p["skipped"]
                for k, v in p["labels"].items():
                    m["labels"][k] = m["labels"].get(k, 0) + v
                m["nt"].update(p["nontrivial"] or [])
                m["samples"] += p["samples"] or []
            # the simplest failure found by any shard
            if st["failure"] and (failure is None or
                                  len(json.dumps(st["failure"]["case"])) < len(json.dumps(failure["case"]))):
                failure = st["failure"]
    if failure is None and errors:
        # A worker died. If one case makes the process crash every time, that is the code's doing.
        failure = crash_case(exe, base, errors, env, tmp, deadline, a)

    parts, samples = {}, []
    for name, m in sorted(merged.items()):
        parts[name] = {"evaluations": m["evaluations"], "distinct_nontrivial": len(m["nt"]), "skipped": m["skipped"],
                       "classes": dict(sorted(m["labels"].items()))}
        for s in m["samples"][:3]:
            samples.append({"part": name, "case": shorten(s)})
    ev = {"property": a.prop, "tier": a.tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": sum(p["evaluations"] for p in parts.values()),
                       "distinct_nontrivial": sum(p["distinct_nontrivial"] for p in parts.values()),
                       "rule": spec["rule"], "samples": samples, "parts": parts, "shards": SHARDS},
          "assumptions": spec.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": 1 if failure else 0}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    path = os.path.join(HERE, "evidence", a.prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)

    if failure:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        rp = "replays/%s-%s-%d.json" % (a.prop, failure["part"], seed)
        with open(os.path.join(HERE, rp), "w") as f:
            json.dump(failure, f, indent=1)
        print("part %s: %s" % (failure["part"], failure["message"][:3000]))
        c = json.dumps(failure["case"])
        print("case: " + (c if len(c) < 1500 else c[:1500] + "..."))
        print("VIOLATION property=%s replay=%s" % (a.prop, rp))
        return 1
    if errors:
        for i, rc, err in errors:
            print("shard %d ended with %s\n%s" % (i, rc, err), file=sys.stderr)
        return 2
    for line in known(a.prop):
        print("KNOWN-FINDING: property=%s %s" % (a.prop, line))
    if a.v:
        print(json.dumps(parts, indent=1))
    print("property=%s held: %d cases, %d distinct non-trivial, %.1f s" % (
        a.prop, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], ev["wall_s"]))
    return 0


FATAL = re.compile(r"^(fatal error: (?!.*out of memory|.*cannot allocate|.*failed to create new OS thread)|"
                   r"runtime: goroutine stack exceeds|panic: )", re.M)


def crash_case(exe, base, errors, env, tmp, deadline, a):
    """Finds a case that crashes the process (stack overflow, panic in a goroutine, ...), deterministically."""
    for i, rc, err in errors:
        if not isinstance(rc, int) or rc < 0 or not FATAL.search(err):
            continue
        log = os.path.join(tmp, "case%d.json" % i)
        e = dict(env, VERIF_CASELOG=log)
        st, rc2, err2 = run_shard(exe, base + ["-shard", str(i)], os.path.join(tmp, "r%d.json" % i), e, tmp, deadline)
        if st is not None or not FATAL.search(err2):
            continue
        try:
            case = json.load(open(log))
        except (OSError, ValueError):
            continue
        r = subprocess.run([exe, "-replay", log], env=env, cwd=tmp, capture_output=True, text=True, errors="replace")
        m = FATAL.search(r.stderr)
        if r.returncode == 2 and m and "verifharness/vt.must" not in r.stderr:
            case["message"] = "the process crashed: " + r.stderr[m.start():m.start() + 1500]
            return case
    return None


def shorten(v, depth=0):
    if isinstance(v, str) and len(v) > 160:
        return v[:150] + "...(%d)" % len(v)
    if isinstance(v, list):
        out = [shorten(x, depth + 1) for x in v[:24]]
        if len(v) > 24:
            out.append("...(%d)" % len(v))
        return out
    if isinstance(v, dict):
        return {k: shorten(x, depth + 1) for k, x in v.items()}
    return v


def known(prop):
    try:
        for line in open(os.path.join(HERE, "known-findings.txt")):
            m = re.match(r"finding: property=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                yield m.group(2).strip()
    except OSError:
        return


if __name__ == "__main__":
    main()
