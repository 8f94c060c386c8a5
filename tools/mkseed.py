"""python3 tools/mkseed.py SEEDS.py : create seeded/<id>/ from descriptions (see tools/seeds_*.py)."""
import json
import os
import shutil
import subprocess
import sys

WT = "/tmp/w/seedwt"


def mk(id, prop, edits, needs, breaks, demo):
    subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", WT], capture_output=True)
    subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", WT, "HEAD"])
    try:
        for f, old, new in edits:
            s = open(f"{WT}/{f}").read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(f"{WT}/{f}", "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", WT, "diff"], capture_output=True, text=True).stdout
        assert diff
        # the changed lines have to be lines of the original repository
        cur, minus = None, 0
        for line in diff.splitlines():
            if line.startswith("--- a/"):
                cur = subprocess.run(["git", "-C", "/repo", "show", f"1c26538:{line[6:]}"], capture_output=True,
                                     text=True).stdout.splitlines()
            elif line.startswith("-"):
                assert line[1:] in cur, (id, "not an original line", line)
                minus += 1
        assert minus, (id, "only adds lines")
    finally:
        subprocess.check_call(["git", "-C", "/repo", "worktree", "remove", "--force", WT])
    d = f"/verif/seeded/{id}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(f"{d}/patch.diff", "w").write(diff)
    open(f"{d}/demo.py", "w").write(demo.lstrip("\n"))
    open(f"{d}/demo.sh", "w").write('#!/bin/bash\nexport PYTHONPATH=/repo OPENBLAS_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1\n'
                                    'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(f"{d}/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
    print("made", id)


if __name__ == "__main__":
    only = set(sys.argv[2:])
    for s in eval(open(sys.argv[1]).read()):
        if not only or s["id"] in only:
            mk(**s)
