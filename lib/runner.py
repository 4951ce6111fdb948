import json, os, shutil, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, props

VERIF = build.VERIF


def known_findings():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                f = dict(x.split("=", 1) for x in line.split()[1:] if "=" in x)
                out.append((f.get("property"), f.get("sub"), line))
    return out


def run(pid, tier, seed, scale=1.0, only=None):
    t0 = time.time()
    cfg = props.PROPS[pid]
    scale *= cfg.get("scale", 1.0)
    cap = 420.0 if tier == "quick" else 2400.0
    tmp = tempfile.mkdtemp(prefix="verif_")
    subs = []
    try:
        bins = []
        san = cfg.get("san", False)
        py = cfg.get("py", False)
        extra, suffix = (build.SAN, "_san") if san else ((), "_py" if py else "")
        for (name, libs, harness) in cfg["bins"]:
            try:
                bins.append((name, build.build(name + suffix, libs, harness, extra=extra, py=py)))
            except build.BuildError as e:
                print("ERROR: harness %s does not build\n%s" % (name, e))
                return 2
        cli = {}
        for (key, name, libs, main) in cfg.get("mains", []):
            try:
                cli[key] = build.build(name + suffix, libs, [], mains=[main], extra=extra, py=py)
            except build.BuildError as e:
                print("ERROR: %s does not build\n%s" % (main, e))
                return 2
        t1 = time.time()
        env = dict(os.environ)
        env["MALLOC_PERTURB_"] = "165"
        env["VERIF_SCRATCH"] = tmp
        env["VERIF_ASSETS"] = os.path.join(build.REPO, "assets")
        if py:
            env["PYTHONPATH"] = build.PYSITE
            env["PYTHONDONTWRITEBYTECODE"] = "1"
            env["OPENBLAS_NUM_THREADS"] = "1"
        if cfg.get("post"):
            env["VERIF_POST_PYTHON"] = sys.executable
            env["VERIF_POST_SCRIPT"] = os.path.join(VERIF, "harness", "post_reader.py")
            env["VERIF_POST_DIR"] = os.path.join(build.REPO, "post_processing")
            env["PYTHONPATH"] = build.PYSITE
            env["PYTHONDONTWRITEBYTECODE"] = "1"
            env["OPENBLAS_NUM_THREADS"] = "1"
        if san:
            env["ASAN_OPTIONS"] = "abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=0:quarantine_size_mb=16"
            env["UBSAN_OPTIONS"] = "abort_on_error=1"
        for k, v in cli.items():
            env["VERIF_BIN_" + k] = v
        for (name, path) in bins:
            out = os.path.join(tmp, name + ".json")
            left = max(30.0, cap - (time.time() - t1))
            cmd = [path, "--prop", pid, "--tier", tier, "--seed", str(seed), "--out", out, "--tmp", tmp, "--cap", "%.1f" % left, "--scale", str(scale)]
            if san:
                cmd += ["--safety"]
            if only:
                cmd += ["--only", only]
            p = subprocess.run(cmd, env=env, cwd=tmp)
            if p.returncode not in (0, 1) or not os.path.exists(out):
                print("ERROR: harness %s ended with %d" % (name, p.returncode))
                return 2
            for s in json.load(open(out))["subs"]:
                s["binary"] = name
                subs.append(s)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    viol = [s for s in subs if s["failed"]]
    nsub = len(subs)
    samples = []
    for s in subs:
        for x in s["samples"][:1]:
            samples.append("%s/%s: %s" % (s["binary"], s["name"], x))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(s["done"] + s["discarded"] for s in subs),
            "distinct_nontrivial": sum(s["distinct"] for s in subs),
            "rule": "; ".join("%s: %s" % (s["name"], s["rule"]) for s in subs),
            "samples": samples if samples else ["none"],
            "oracle_comparisons": sum(s["comparisons"] for s in subs),
            "discarded": sum(s["discarded"] for s in subs),
            "subchecks": [{k: s[k] for k in ("binary", "name", "planned", "done", "nontrivial", "distinct", "discarded", "comparisons", "labels", "secs", "capped", "unreproducible")} for s in subs],
        },
        "assumptions": props.PROPS[pid].get("assumptions", []) + [
            "So-bogus and HDF5 are stood in for by /verif/shim; Qt, Python 2, Ipopt and QL code is not built",
            "release build (NDEBUG) with Eigen and libstdc++ bounds assertions on"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(VERIF, "evidence", "replays"), exist_ok=True)
    evp = os.path.join(VERIF, "evidence", pid + ".json")
    if not only:
        with open(evp + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(evp + ".tmp", evp)
    for s in subs:
        print("%s %-34s %8d cases %8d distinct non-trivial %6d discarded %9d comparisons %6.1fs%s%s" % (
            pid, s["name"], s["done"], s["distinct"], s["discarded"], s["comparisons"], s["secs"], " CAPPED" if s["capped"] else "", " UNREPRODUCIBLE " + s["fail_msg"] if s["unreproducible"] else ""))
        if s["labels"] and os.environ.get("VERIF_LABELS"):
            print("      ", s["labels"])
    known = known_findings()
    rc = 0
    for (kp, ksub, line) in known:
        if kp == pid:
            print("KNOWN-FINDING: property=%s %s" % (pid, line))
    for s in viol:
        rp = os.path.join(VERIF, "evidence", "replays", "%s-%s.txt" % (pid, s["name"]))
        with open(rp, "w") as f:
            f.write("%s %s\n" % (tuple(s["name"].split("_", 1)) if cfg.get("san") else (pid, s["name"])))
            for x in s["choices"]:
                f.write("%s\n" % x)
            f.write("END\nbinary: %s (rebuild with ./check %s, then build/bin/%s --replay <this file>)\nmessage: %s\ncase: %s\n" % (s["binary"], pid, s["binary"] + ("_san --safety" if cfg.get("san") else ""), s["fail_msg"], s["rendering"]))
        print("  %s: %s" % (s["name"], s["fail_msg"][:600]))
        print("  case (shrunk %d -> %d choices): %s" % (s["orig_size"], len(s["choices"]), s["rendering"][:1200]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        rc = 1
    print("%s %s: %d cases in %.1f s (%d subchecks), %s" % (pid, tier, ev["coverage"]["evaluations"], time.time() - t0, nsub, "VIOLATED" if rc else "held"))
    if nsub == 0 and not only:
        print("ERROR: no subchecks")
        return 2
    return rc


if __name__ == "__main__":
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    scale = 1.0
    for a in sys.argv[2:]:
        if a in ("quick", "thorough"):
            tier = a
        elif a.startswith("scale="):
            scale = float(a[6:])
        else:
            only = a
    sys.exit(run(pid, tier, int(os.environ.get("VERIF_SEED", "1")), scale, only))
