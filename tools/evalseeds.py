"""Run each planted bug (seeded/*) against the quick check of its property.

  python3 tools/evalseeds.py [ID...]   (all when none given)

Each patch is applied to a scratch copy of /repo (VF_REPO); /repo is not touched.
"""
import glob, json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.path.basename(p) for p in glob.glob(os.environ.get("SEEDS", V + "/seeded") + "/*"))
for i in ids:
    d = os.environ.get("SEEDS", V + "/seeded") + "/" + i
    prop = json.load(open(d + "/meta.json"))["property"]
    w = tempfile.mkdtemp(prefix="seed_")
    try:
        subprocess.run(["cp", "-a", "/repo/src", w + "/src"], check=True)
        r = subprocess.run(["git", "apply", "--unsafe-paths", "--directory", w, d + "/patch.diff"], cwd="/", capture_output=True, text=True)
        if r.returncode:
            print(i, "DOES NOT APPLY", r.stderr[:200]); continue
        ev = tempfile.mkdtemp(prefix="seedv_")
        subprocess.run(["rsync", "-a", "--exclude", ".git", "--exclude", "seeded", V + "/", ev + "/"]) if shutil.which("rsync") else subprocess.run(f"cd {V} && tar c --exclude=.git --exclude=seeded . | tar x -C {ev}", shell=True)
        t = time.time()
        p = subprocess.run([ev + "/check", prop], env=dict(os.environ, VF_REPO=w, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick"), capture_output=True, text=True, cwd=ev)
        v = [l for l in (p.stdout + p.stderr).splitlines() if "VIOLATION" in l]
        print(i, prop, "rc", p.returncode, "CAUGHT" if p.returncode == 1 and v else "MISSED", f"{time.time()-t:.0f}s", (v[0][:150] if v else (p.stdout + p.stderr)[-200:]), flush=True)
        shutil.rmtree(ev, ignore_errors=True)
    finally:
        shutil.rmtree(w, ignore_errors=True)
