#!/usr/bin/env python3
"""Development aid: runs a planted change's check against a patched scratch copy of /repo.
usage: python3 tools/trybug.py [id ...]   (all of seeded/ by default; --all-checks runs every property)"""
import json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.environ.get("SEEDED", os.path.join(V, "seeded"))
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(SEEDED))
every = "--all-checks" in sys.argv
for b in ids:
    d = os.path.join(SEEDED, b)
    if not os.path.exists(os.path.join(d, "meta.json")):
        continue
    meta = json.load(open(os.path.join(d, "meta.json")))
    t = tempfile.mkdtemp(prefix="pd_bug_")
    try:
        repo = os.path.join(t, "repo")
        subprocess.run(["git", "-C", "/repo", "worktree", "list"], stdout=subprocess.DEVNULL)
        shutil.copytree("/repo", repo, symlinks=True)
        subprocess.run(["git", "-C", repo, "apply", os.path.join(d, "patch.diff")], check=True)
        props = [meta["property"]] if not every else ["C%02d" % k for k in range(1, 18)]
        for p in props:
            s = time.time()
            r = subprocess.run([sys.executable, os.path.join(V, "tools", "check.py"), p], env=dict(os.environ, PD_REPO=repo),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            out = r.stdout.decode()
            hit = r.returncode == 1 and "VIOLATION property=" + p in out
            print(b, p, "caught" if hit else "MISSED rc=%d" % r.returncode, "%.0fs" % (time.time() - s), flush=True)
            if r.returncode == 2:
                print(out[-600:])
    finally:
        shutil.rmtree(t, ignore_errors=True)
