"""C09: partial_fit updates exactly the given rows."""
import hashlib

import numpy as np
from scipy.sparse import csr_matrix

from ..qlib import attempt, new_model, prog
from .c05 import rows_of
from .c07 import ints

LEVEL = "model_checking"
ASSUMPTIONS = ["ids are distinct within one call (with duplicates the last row wins in numpy, which "
               "is not claimed)"]


def contents(seen, m):
    out = []
    for a in (m.user_factors, m.item_factors):
        rows = []
        for r in np.asarray(a):
            if not np.any(r):
                rows.append(0)
            else:
                h = hashlib.sha1(np.ascontiguousarray(r).tobytes()).hexdigest()
                rows.append(seen.setdefault(h, len(seen) + 1))
        out.append(rows)
    return out


def ids_of(kind, n, rs):
    if isinstance(kind, list):
        return [k if k >= 0 else n + (-k - 1) for k in kind]
    return {"one": [0], "two": [n - 1, 1], "next": [n], "gap": [n + 2], "mixed": [n + 1, 0, n - 1],
            "all": list(range(n))[::-1]}[kind]


def make(case):
    return new_model("als", factors=case["f"], regularization=case["reg"], alpha=case["alpha"],
                     dtype=np.dtype(case["dtype"]), num_threads=case["threads"], iterations=1,
                     use_cg=case["cg"], random_state=3)


def data(rs, k, n, empty=0.15):
    d = (rs.rand(k, n) < 0.5) * rs.choice([1, 2, 3, 0.5, -1, -2, 5], size=(k, n))
    d[rs.rand(k) < empty] = 0
    return csr_matrix(d.astype(np.float32))


def queries(m, seed):
    rs = np.random.RandomState(seed)
    nu, n = m.user_factors.shape[0], m.item_factors.shape[0]
    ui = data(rs, nu, n)
    ids, sc = [], []
    us, its = rs.permutation(nu)[:40], rs.permutation(n)[:40]
    for v in (m.recommend(us, ui[us], N=5), m.similar_items(its, N=4),
              m.similar_users(us, N=4), m.recommend(nu - 1, ui[nu - 1], N=3),
              m.recommend(us, ui[us], N=5, recalculate_user=True)):
        a, b = rows_of(v)
        ids += a
        sc += b
    return ids, sc


def execute(case):
    rs = np.random.RandomState(case["seed"])
    m = make(case)
    n0 = case["n0"]
    m.fit(data(rs, n0, n0, 0), show_progress=prog())
    seen = {}
    us, its = contents(seen, m)
    hdr, ev = {"us": us, "is": its}, []
    for s, kind in case["hist"]:
        mine = m.user_factors.shape[0] if s == "u" else m.item_factors.shape[0]
        other = m.item_factors.shape[0] if s == "u" else m.user_factors.shape[0]
        if s == "q":
            st, v = attempt(queries, m, case["seed"])
            e = dict(op="q", res=st, ids=[], qi=[], qs=[], fi=[], fs=[])
            if st == "ok":
                fresh = make(case)
                fresh.user_factors = m.user_factors.copy()
                fresh.item_factors = m.item_factors.copy()
                e["qi"], e["qs"] = v
                e["fi"], e["fs"] = queries(fresh, case["seed"])
            else:
                e["msg"] = v
            e["us"], e["is"] = contents(seen, m)
            ev.append(e)
            continue
        ids = ids_of(kind, mine, rs)
        w = data(rs, len(ids), other)
        fresh = make(case)
        fresh.user_factors, fresh.item_factors = m.user_factors.copy(), m.item_factors.copy()
        form = rs.randint(3)
        arg = list(ids) if form == 0 else np.array(ids, dtype=np.int32 if form == 1 else np.int64)
        st, v = attempt(m.partial_fit_users if s == "u" else m.partial_fit_items, arg, w)
        e = dict(op=s, res=st, ids=ids, now=[], re=[], tol=4)
        if st == "ok":
            re = (fresh.recalculate_user if s == "u" else fresh.recalculate_item)(arg, w)
            S = 10000
            now = (m.user_factors if s == "u" else m.item_factors)
            e["now"] = ints(now[ids], S) if max(ids, default=-1) < len(now) else []
            e["re"] = ints(re, S)
        else:
            e["msg"] = v
        e["us"], e["is"] = contents(seen, m)
        ev.append(e)
    return hdr, ev


def fill(rng, c):
    c.setdefault("f", rng.choice([1, 2, 3, 6]))
    c.update(seed=rng.randrange(10**6), reg=rng.choice([0.5, 1, 2]),
             alpha=rng.choice([1, 1, 2, 0.5]), dtype=rng.choice(["float32", "float64"]),
             threads=rng.choice([0, 1, 3]), cg=rng.random() < 0.5)
    c.setdefault("n0", 4)
    return c


def wide_case(rng):
    """long lists of ids, in any order, in a larger model"""
    n0, hist = rng.choice([20, 70, 140]), []
    for _ in range(rng.randint(1, 4)):
        k = rng.sample(range(-rng.choice([1, 5, 60]), n0), rng.randint(1, n0))
        if rng.random() < 0.4:
            k.sort(reverse=rng.random() < 0.3)
        hist += [[rng.choice("ui"), k]] + ([["q", ""]] if rng.random() < 0.3 else [])
    return dict(hist=hist + [["q", ""]], n0=n0, f=rng.choice([2, 9, 33, 70]))


def rand_case(rng):
    hist = []
    for _ in range(rng.randint(3, 9)):
        if rng.random() < 0.3:
            hist.append(["q", ""])
        else:
            k = rng.sample(range(-5, 4), rng.choice([0, 1, 1, 2, 3, 4, 5]))
            if rng.random() < 0.04:
                k.append(-rng.choice([130, 300]))
            hist.append([rng.choice("ui"), k])
    return dict(hist=hist + [["q", ""]], n0=rng.choice([4, 9, 30]))


def run(ctx):
    t = ctx.thorough
    for b in ("growone", "alwaysgrow", "sorted"):
        ctx.model_check("PartialFit", f"PartialFit_{b}.cfg", expect_violation="StoredIsMeant")
    rng = ctx.rng
    gen = ctx.generate("PartialFit", "PartialFit_deep.cfg" if t else "PartialFit_none.cfg")
    cases = []
    for g in gen:
        h = []
        for x in g["hist"]:
            h.append(x)
            if rng.random() < 0.4:
                h.append(["q", ""])
        cases.append(dict(hist=h + [["q", ""]]))
    cases += [rand_case(rng) for _ in range(3000 if t else 350)]
    cases += [wide_case(rng) for _ in range(200 if t else 25)]
    cases = [fill(rng, c) for c in cases]
    recs = ctx.drive(cases)
    ctx.validate("TracePartialFit", recs)
    if not ctx.violations:
        def other(r):
            for e in r["ev"]:
                if e["op"] in "ui":
                    k = next((k for k in range(len(e["us"])) if k not in e["ids"]), None)
                    if k is not None:
                        (e["us"] if e["op"] == "u" else e["is"])[k:k + 1] = [777]
                        (e["is"] if e["op"] == "u" else e["us"])[0] += 0
                        return r

        def off(r):
            for e in r["ev"]:
                if e["op"] in "ui" and e["now"]:
                    e["now"][-1][0] += 9
                    return r
        ctx.corrupt("TracePartialFit", recs[:150], other, label="another row changed")
        ctx.corrupt("TracePartialFit", recs[:150], off, label="an updated factor off")


def replay(ctx):
    ctx.validate("TracePartialFit", ctx.drive(ctx.only_cases))
