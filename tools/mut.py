"""tools/mut.py PROP file <<< 'old====new' : apply a textual mutation to /repo, run the quick check, undo"""
import subprocess, sys, re
props, f = sys.argv[1].split(","), "/repo/" + sys.argv[2]
old, new = sys.stdin.read().rstrip("\n").split("\n====\n") if True else None
s = open(f).read()
old, new = old.replace("\\s", " "), new
assert s.count(old) >= 1, "text not found"
open(f, "w").write(s.replace(old, new, 1))
try:
    for p in props:
        r = subprocess.run(["/verif/check.sh", p], capture_output=True, text=True)
        m = re.findall(r"rejected: (\[.*?\])", r.stdout)
        print(p, "exit", r.returncode, sorted(set(m)), r.stderr[-300:] if r.returncode == 2 else "", flush=True)
finally:
    subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
