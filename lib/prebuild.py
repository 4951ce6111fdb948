import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, props
done = set()
rc = 0
for pid, cfg in sorted(props.PROPS.items()):
    py = cfg.get("py", False)
    extra, suffix = (build.SAN, "_san") if cfg.get("san") else ((), "_py" if py else "")
    for (name, libs, harness) in cfg["bins"]:
        name += suffix
        if name not in done:
            done.add(name)
            try:
                build.build(name, libs, harness, extra=extra, py=py)
            except build.BuildError as e:
                print("ERROR", name, e); rc = 1
    for (key, name, libs, main) in cfg.get("mains", []):
        name += suffix
        if name not in done:
            done.add(name)
            try:
                build.build(name, libs, [], mains=[main], extra=extra, py=py)
            except build.BuildError as e:
                print("ERROR", name, e); rc = 1
print("built", " ".join(sorted(done)))
sys.exit(rc)
