"""Mutation testing (development tool).  tools/mutate.sh runs this in a private mount namespace in which
/repo, /verif and /opt/vp are copies.  python3 tools/mutate.py SEED COUNT LOG [file...]"""
import json
import os
import random
import re
import subprocess
import sys

MAP = {
    "implicit/cpu/als.py": "C07 C08 C09 C10 C06 C20 C21 C15 C05 C22",
    "implicit/cpu/_als.pyx": "C07 C08 C09",
    "implicit/cpu/bpr.pyx": "C16 C20 C06 C21 C15 C22",
    "implicit/cpu/lmf.pyx": "C17 C20 C06 C21 C15 C22",
    "implicit/cpu/matrix_factorization_base.py": "C03 C02 C01 C04 C06 C21 C15 C22",
    "implicit/cpu/topk.pyx": "C01 C03 C04 C02",
    "implicit/cpu/select.h": "C01 C03 C04",
    "implicit/nearest_neighbours.py": "C11 C12 C21 C15 C04 C05 C22",
    "implicit/_nearest_neighbours.pyx": "C11 C12 C21 C05",
    "implicit/nearest_neighbours.h": "C11 C12 C05",
    "implicit/evaluation.pyx": "C13 C14 C20 C21 C05",
    "implicit/utils.py": "C18 C21 C20 C04 C12",
    "implicit/ann/annoy.py": "C18 C22",
    "implicit/ann/faiss.py": "C18 C22 C05",
    "implicit/ann/nmslib.py": "C18 C22",
    "implicit/approximate_als.py": "C22", "implicit/als.py": "C22", "implicit/bpr.py": "C22", "implicit/lmf.py": "C22",
    "implicit/recommender_base.py": "C22 C21 C15",
    "implicit/datasets/_download.py": "C19", "implicit/datasets/movielens.py": "C19", "implicit/datasets/lastfm.py": "C19",
    "implicit/datasets/reddit.py": "C19", "implicit/datasets/sketchfab.py": "C19", "implicit/datasets/million_song_dataset.py": "C19",
}
REP = [(r"<=", "<"), (r">=", ">"), (r"(?<![<>=!-])<(?![<=])", "<="), (r"(?<![<>=!-])>(?![>=])", ">="), (r"==", "!="), (r"!=", "=="),
       (r"\band\b", "or"), (r"\bor\b", "and"), (r"\bnot ", ""), (r"\bmin\(", "max("), (r"\bmax\(", "min("), (r" \+ 1\b", ""), (r" - 1\b", ""),
       (r"\bTrue\b", "False"), (r"\bFalse\b", "True"), (r"\b0\b(?!\.)", "1"), (r"\b1\b(?!\.)", "0"), (r"\b1\b(?!\.)", "2"), (r"\b2\b(?!\.)", "1"),
       (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r"\+=", "="), (r"-=", "+="), (r"&&", "||"), (r"\bis None\b", "is not None"),
       (r"\bis not None\b", "is None"), (r"float32", "float64"), (r"\.copy\(\)", ""), (r"axis=1", "axis=0"), (r"\bany\(", "all("), (r"\ball\(", "any("),
       (r"np\.unique\(", "np.sort("), (r"\buser_factors\b", "item_factors"), (r"\bitem_factors\b", "user_factors"), (r"\[::-1\]", ""),
       (r"\busers\b", "items"), (r"\bitems\b", "users"), (r"\buserid\b", "itemid"), (r"\+\+", "--"), (r"abs\(", "("), (r"sqrt\(", "("), (r"\bN\b", "(N + 1)")]


def lines_of(path):
    """indices of code lines (no docstrings, comments, imports, logging)"""
    out, doc = [], False
    for i, t in enumerate(open(path).read().split("\n")):
        s = t.strip()
        n = s.count('"""')
        if doc:
            doc = n == 0
            continue
        if n:
            doc = n == 1
            continue
        if not s or s.startswith(("#", "//", "import", "from", "log.", "@", "cdef extern", "class ", "def ", "*", "/*")) or "log" in s.split("(")[0] or "warn" in s or "raise " in s or "gpu" in s.lower() or "tqdm" in s:
            continue
        out.append(i)
    return out


def mutants(f):
    src = open(f"/repo/{f}").read().split("\n")
    for i in lines_of(f"/repo/{f}"):
        t = src[i]
        code = t.split("  #")[0] if not f.endswith(".h") else t.split("//")[0]
        for pat, rep in REP:
            for m in re.finditer(pat, code):
                yield i, code[:m.start()] + rep + code[m.end():]
        s = code.strip()
        ind = code[:len(code) - len(code.lstrip())]
        if f.endswith(".h"):
            if s.endswith(";") and not s.startswith(("return", "std::", "int", "Index", "double", "typedef")):
                yield i, ind + ";"
        elif re.match(r"[\w.\[\], :-]+ [-+*/]?= .*[^\\(,\[{]$|[\w.]+\(.*\)$|continue$|break$", s):
            yield i, ind + "pass"
        if re.match(r"if .*:$", s) and not f.endswith(".h"):
            yield i, ind + "if False:"
            yield i, ind + "if True:"


def sh(cmd, timeout):
    try:
        return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as e:
        class R:
            returncode = 99
            stdout = str(e.stdout)[-500:]
        return R


def main():
    seed, count, logp = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    files = sys.argv[4:] or list(MAP)
    rng = random.Random(seed)
    pool = {f: [(f, i, n) for i, n in dict.fromkeys(mutants(f))] for f in files}
    sel = []
    order = [f for f in files if pool[f]]
    while len(sel) < count and any(pool.values()):
        # weight files by the square root of their mutants
        f = rng.choices(order, [len(pool[x]) ** 0.5 for x in order])[0]
        if pool[f]:
            sel.append(pool[f].pop(rng.randrange(len(pool[f]))))
    for k, (f, i, new) in enumerate(sel):
        subprocess.run("git -C /repo checkout -q -- .", shell=True)
        src = open(f"/repo/{f}").read().split("\n")
        old = src[i]
        src[i] = new
        open(f"/repo/{f}", "w").write("\n".join(src))
        rec = dict(k=k, f=f, line=i + 1, old=old.strip(), new=new.strip())
        if sh("bash /opt/vp/build.sh", 300).returncode:
            rec["verdict"] = "nobuild"
        else:
            t = sh("cd /repo && OMP_NUM_THREADS=2 OPENBLAS_NUM_THREADS=1 OMP_WAIT_POLICY=passive timeout 200 /opt/venv/bin/python -m pytest -q -x "
                   "-p no:cacheprovider --timeout=100 " + os.environ.get("DESELECT", "") + " tests", 260)
            if t.returncode:
                rec["verdict"] = "tests"
            else:
                rec["verdict"] = "SURVIVED"
                for c in MAP[f].split():
                    r = sh(f"cd /verif && ./check.sh {c} quick", 900)
                    if r.returncode == 1 and "VIOLATION" in r.stdout:
                        m = re.search(r"rejected: (\[.*?\])", r.stdout)
                        rec.update(verdict="caught", by=c, why=m and m.group(1))
                        break
                    if r.returncode not in (0, 1):
                        rec.setdefault("odd", []).append([c, r.returncode, r.stdout[-300:]])
        open(logp, "a").write(json.dumps(rec) + "\n")
    subprocess.run("git -C /repo checkout -q -- .", shell=True)


main()
