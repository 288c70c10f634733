#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the definitions in seeds/*.py: mkseeds.py [id ...]."""
import glob, json, os, runpy, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(HERE), "seeded")
REPO = os.environ.get("VF_REPO", "/repo")


def make(id, property, needs, breaks, edits, demo, kit=("kit.py", "srv.c", "cli.c"), files=None):
    d = os.path.join(OUT, id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    w = "/tmp/mkseed." + id
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(["git", "-C", REPO, "worktree", "add", "-q", "--detach", w, "HEAD"])
    try:
        for f, old, new in edits:
            p = os.path.join(w, f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", w, "diff"], text=True)
    finally:
        subprocess.check_call(["git", "-C", REPO, "worktree", "remove", "--force", w])
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    json.dump(dict(property=property, needs=needs, what_it_breaks=breaks), open(os.path.join(d, "meta.json"), "w"), indent=1)
    for k in kit:
        shutil.copy(os.path.join(HERE, "seedkit", k), d)
    for n, t in (files or {}).items():
        open(os.path.join(d, n), "w").write(t)
    open(os.path.join(d, "demo.py"), "w").write(demo)
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexec env PYTHONDONTWRITEBYTECODE=1 python3 "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    print("made", id)


if __name__ == "__main__":
    want = set(sys.argv[1:])
    for f in sorted(glob.glob(os.path.join(HERE, "seeds", "*.py"))):
        for s in runpy.run_path(f)["SEEDS"]:
            if not want or s["id"] in want:
                make(**s)
