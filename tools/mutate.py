#!/usr/bin/env python3
"""Mutation testing of the checks (development tool, used by no check).

usage: mutate.py WORK FILES... [--n N] [--seed S] [--lines COVERED.json] [--scale X]
WORK holds WORK/verif (a copy of /verif) and WORK/repo (a clone of /repo). Each mutant changes one token or drops
one statement of one file; the harness binaries concerned are rebuilt and run property by property at a small scale
until one reports a violation. Survivors are appended to WORK/survivors.txt."""
import sys, os, re, random, subprocess, json, hashlib, time, shutil

args = sys.argv[1:]
def opt(n, d):
    if n in args:
        i = args.index(n); v = args[i + 1]; del args[i:i + 2]; return v
    return d
N = int(opt("--n", "40")); SEED = int(opt("--seed", "1")); SCALE = float(opt("--scale", "0.1")); COV = opt("--lines", None)
SPEC = opt("--only", None)  # file:line:index to rerun
WORK, FILES = args[0], args[1:]
V, REPO = os.path.join(WORK, "verif"), os.path.join(WORK, "repo")
os.environ["VERIF_REPO"] = REPO
sys.path.insert(0, os.path.join(V, "lib"))
import build, props
cov = json.load(open(COV)) if COV else None

SWAPS = [(r"(?<=[\w\)\] ])\+(?=[ \w\(])(?!\+)", "-"), (r"(?<=[\w\)\] ])-(?=[ \w\(])(?![->=])", "+"), (r" \* ", " / "), (r" / ", " * "),
         (r" <= ", " < "), (r" >= ", " > "), (r" < ", " <= "), (r" > ", " >= "), (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "),
         (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\.x\(\)", ".y()"), (r"\.y\(\)", ".x()"), (r"\.z\(\)", ".x()"), (r"\b0\.0\b", "1.0"), (r"\b1\.0\b", "2.0"), (r"\b0\.5\b", "1.0"), (r"\b2\.0\b", "1.0"),
         (r"\[ ?0 ?\]", "[1]"), (r"\( 0 \)", "( 1 )"), (r"\( 1 \)", "( 0 )"), (r"\b2 \*", "1 *"), (r"\b3 \*", "2 *"), (r"\+ 1\b", "+ 0"), (r"- 1\b", "- 0"), (r"\+= ", "-= "), (r"-= ", "+= "), (r"\bmin\(", "max("), (r"\bmax\(", "min("),
         (r"if\( (.*) \)$", r"if( !( \1 ) )"), (r"\bfabs\(", "("), (r"\bbreak;", ";"), (r"\bcontinue;", ";"), (r"\.transpose\(\)", ""), (r"\bidx0\b", "idx1"), (r"\bidx1\b", "idx0"), (r"\bq0\b", "q1"), (r"\bq1\b", "q0"), (r"\bv0\b", "v1"), (r"return (-?)([a-z_\.0-9A-Z]+);", r"return -(\1\2);"), (r"= -", "= "), (r"\bi\b(?= \))", "j"), (r"r0\b", "r1"), (r"x0\b", "x1"), (r"\.cross\( (\w+) \)", r".cross( -\1 )"), (r"\bbegin\(\)", "end()"), (r"\bunsigned i\{ 0 \}", "unsigned i{ 1 }"), (r"= 0;", "= 1;")]
BAD = re.compile(r"^\s*(//|#|assert|static_assert|std::cerr|\{|\}|using|public|private|case|else$|template|class|struct|\*|/\*|namespace|throw|std::exit|const std::string|const rapidxml)|NDEBUG|cerr|assert\(|usageString")

def mutants(path):
    out = []
    lines = open(os.path.join(REPO, path)).read().split("\n")
    nd = 0
    debug = False
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith("#ifndef NDEBUG") or s.startswith("#ifdef USE_PYTHON") or s.startswith("#ifdef QL_FOUND") or s.startswith("#ifdef IPOPT_FOUND"): debug = True
        if debug:
            if s.startswith("#endif") or s.startswith("#else"): debug = False
            continue
        if BAD.search(l) or not s: continue
        if cov is not None and (path not in cov or (i + 1) not in cov[path]): continue
        code = l.split("//")[0]
        for (a, b) in SWAPS:
            for m in re.finditer(a, code):
                new = code[:m.start()] + m.expand(b) + code[m.end():]
                if new != code: out.append((path, i, new))
        if s.endswith(";") and re.match(r"^\s*(?!const |return|auto |break|continue)[\w\.\->\[\]\(\):]+.*;$", code) and not re.match(r"^\s*(scalar|unsigned|int|bool|VectorXs|std::\w+(<.*>)?|Vector\d\w+|Matrix\w+|[A-Z]\w+(<.*>)?&?) \w+( ?[;={\(])", code):
            out.append((path, i, re.sub(r"\S.*", ";", code, count=1)))
    return out

def bins_for(path):
    # (property, binary, libs, harness) in which the file is linked
    top = path.split("/")[0]
    keys = {"scisim": None, "ball2d": "b2", "ball2dutils": "b2", "ball2dcli": "b2", "rigidbody2d": "r2", "rigidbody2dutils": "r2", "rigidbody2dcli": "r2", "rigidbody3d": "r3", "rigidbody3dutils": "r3", "rigidbody3dcli": "r3"}
    k = keys[top]
    res = []
    for p, c in props.PROPS.items():
        for b in c["bins"]:
            if k is None or b[0].startswith(k): res.append((p, b))
    return res, k

score = {}
def run(path, changed):
    todo, k = bins_for(path)
    mains = [m for m in props.PROPS["C04"]["mains"] if k is None or m[1].startswith({"b2": "ball2d", "r2": "rigidbody2d", "r3": "rigidbody3d"}[k])]
    built, env = {}, dict(os.environ, MALLOC_PERTURB_="165", VERIF_SEED="1")
    tmp = os.path.join(WORK, "tmp"); shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
    env["VERIF_SCRATCH"] = tmp
    todo.sort(key=lambda t: (-score.get((path, t[0], t[1][0]), 0) - 0.1 * score.get(t[0], 0), t[0] in ("C04", "C27"), t[1][0]))
    for (p, b) in todo:
        name, libs, harness = b
        if name not in built:
            try: built[name] = build.build(name, libs, harness)
            except build.BuildError: return "NOBUILD"
        if props.PROPS[p].get("mains") and "cli" not in built:
            for (key, n, l, m) in mains:
                try: env["VERIF_BIN_" + key] = build.build(n, l, [], mains=[m])
                except build.BuildError: return "NOBUILD"
            built["cli"] = 1
        sc = SCALE * props.PROPS[p].get("scale", 1.0)
        if props.PROPS[p].get("mains"): sc = max(sc, 0.5)
        try:
            r = subprocess.run([built[name], "--prop", p, "--tier", "quick", "--seed", "1", "--out", tmp + "/o.json", "--tmp", tmp, "--cap", "60", "--scale", str(sc)], env=env, cwd=tmp, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300)
        except subprocess.TimeoutExpired:
            return "TIMEOUT " + p
        if r.returncode == 1 or (r.returncode == 0 and any(s["failed"] for s in json.load(open(tmp + "/o.json"))["subs"])):
            score[(path, p, name)] = score.get((path, p, name), 0) + 1; score[p] = score.get(p, 0) + 1
            return "killed " + p + " " + name
        if r.returncode != 0: return "ERR %d %s" % (r.returncode, p)
    return "SURVIVED"

rnd = random.Random(SEED)
pool = []
for f in FILES: pool += mutants(f)
rnd.shuffle(pool)
log = open(os.path.join(WORK, "log.txt"), "a")
print("%d candidate mutants" % len(pool), flush=True)
done = 0; tally = {}
if "--count" in sys.argv: sys.exit()
for (path, i, new) in pool:
    if done >= N: break
    full = os.path.join(REPO, path)
    text = open(full).read(); lines = text.split("\n"); old = lines[i]
    lines[i] = new
    t0 = time.time()
    # unchanged object code?
    if path.endswith(".cpp"):
        o1, o2 = WORK + "/a.o", WORK + "/b.o"
        r1 = build.compile_one((full, o1, []))
        open(full, "w").write("\n".join(lines))
        r2 = build.compile_one((full, o2, []))
        if r2[2] != 0 or r1[2] != 0 or open(o1, "rb").read() == open(o2, "rb").read():
            open(full, "w").write(text); continue
    else:
        open(full, "w").write("\n".join(lines))
    try: res = run(path, i)
    finally: open(full, "w").write(text)
    if res == "NOBUILD": continue
    done += 1
    tally[res.split()[0]] = tally.get(res.split()[0], 0) + 1
    msg = "%-40s %s:%d\n    - %s\n    + %s\n" % (res + " %.0fs" % (time.time() - t0), path, i + 1, old.strip(), new.strip())
    log.write(msg); log.flush()
    if not res.startswith("killed"):
        open(os.path.join(WORK, "survivors.txt"), "a").write(msg)
        print(msg, end="", flush=True)
print(tally)
