#!/usr/bin/env python3
"""trybug.py ID... : confirms planted bugs in a scratch copy of /repo and runs their checks on it."""
import json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
only_check = "-c" in sys.argv
bad = 0
for id in [a for a in sys.argv[1:] if a != "-c"]:
    d = os.path.join(V, "seeded", id)
    meta = json.load(open(os.path.join(d, "meta.json")))
    w = f"/tmp/trybug-{id}"
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree("/repo", w, symlinks=True)
    env = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off")
    res = []
    try:
        dd = f"/tmp/trybug-{id}-demo"
        shutil.rmtree(dd, ignore_errors=True)
        shutil.copytree(d, dd)
        if not only_check:
            r = subprocess.run(["bash", dd + "/demo.sh"], cwd=w, env=env, capture_output=True, text=True)
            res.append("demo-clean:" + ("ok" if r.returncode == 0 else "FAILS\n" + r.stdout[-1500:] + r.stderr[-1500:]))
        subprocess.check_call(["git", "-C", w, "apply", d + "/patch.diff"])
        if not only_check:
            r = subprocess.run(["bash", dd + "/demo.sh"], cwd=w, env=env, capture_output=True, text=True)
            res.append("demo-bug:" + ("ok" if r.returncode != 0 else "PASSES"))
            if r.returncode:
                print(id, "demo said:", [l for l in (r.stdout + r.stderr).splitlines() if l.strip()][:4])
            subprocess.check_call(["go", "build", "./..."], cwd=w, env=env)
            r = subprocess.run(["go", "test", "-json", "-vet=off", "-count=1", "./..."], cwd=w, env=env, capture_output=True, text=True)
            passed = set()
            for l in r.stdout.splitlines():
                try:
                    m = json.loads(l)
                except ValueError:
                    continue
                if m.get("Action") == "pass" and m.get("Test"):
                    passed.add(m["Package"] + "::" + m["Test"]); passed.add(m["Package"] + "." + m["Test"]); passed.add(m["Package"] + "/" + m["Test"])
            missing = [s for s in stable if s not in passed]
            res.append("tests:" + ("ok" if not missing else f"MISSING {missing[:3]} of {len(missing)}"))
        t0 = time.time()
        r = subprocess.run([V + "/check", meta["property"]], env=dict(env, VERIF_REPO=w, VERIF_MINIMISE=os.environ.get("VERIF_MINIMISE", "10")), capture_output=True, text=True)
        ok = r.returncode == 1 and "VIOLATION property=" + meta["property"] in r.stdout
        res.append(f"check:{'caught' if ok else 'MISSED rc=%d' % r.returncode} {time.time()-t0:.0f}s")
        print(id, meta["property"], *res, sep=" | ", flush=True)
        print("   ", "\n    ".join(l[:400] for l in (r.stdout + r.stderr).splitlines()[:4]), flush=True)
        bad += not ok
    finally:
        shutil.rmtree(w, ignore_errors=True)
        shutil.rmtree(f"/tmp/trybug-{id}-demo", ignore_errors=True)
sys.exit(bad)
