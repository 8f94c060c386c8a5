"""C16: BPR training performs only legal stochastic steps."""
import json
import re
import time

import numpy as np
from scipy.sparse import csr_matrix

from ..core import CheckError, tlc
from ..klib import gen_counts, places
from ..qlib import attempt, new_model, prog

LEVEL = "model_checking"
ASSUMPTIONS = ["the outcome of an epoch is checked to be reachable by legal samples for tiny matrices "
               "and one thread; for other sizes and thread counts the frame, counts and coverage are "
               "checked (6 sigma for the share of skipped samples)"]
S = 10000


def csr(inter, nu, ni, dtype="float32", values=None):
    """rows in the given entry order"""
    rows = [[] for _ in range(nu)]
    for u, j in inter:
        rows[u].append(j)
    indptr = np.cumsum([0] + [len(r) for r in rows]).astype(np.int32)
    idx = np.array([j for r in rows for j in r], dtype=np.int32)
    data = np.ones(len(idx)) if values is None else np.array(values[:len(idx)])
    return csr_matrix((data.astype(dtype), idx, indptr), shape=(nu, ni))


# ------------------------------------------------------------ reachability on tiny matrices
def tiny_case(rng, D, f=None):
    inter = [[u, j] for u in range(len(D)) for j in range(len(D[0])) if D[u][j]]
    wide, f = f, f or rng.choice([1, 1, 2])
    epochs = 1 if len(inter) > 2 else rng.choice([1, 2])
    vec = lambda k: [rng.choice([-8000, -5000, -2500, -1000, 0, 1000, 2500, 5000, 8000] if not wide else
                               [-2500, -1000, 500, 2000, 3000]) for _ in range(k)]  # noqa
    if not wide and rng.random() < 0.25:        # scores near zero
        vec = lambda k: [rng.choice([-120, -40, -9, 0, 5, 8, 15, 60, 300, 1000]) for _ in range(k)]  # noqa
    return dict(inter=inter, nu=len(D), ni=len(D[0]), f=f, epochs=epochs, verify=rng.random() < 0.7,
                X0=[vec(f) + [S] for _ in D], Y0=[vec(f + 1) for _ in D[0]], lr=rng.choice([250, 500, 800]),
                reg=rng.choice([0, 100, 400]), seed=rng.randrange(10**6), dtype=rng.choice(["float32", "float64"]))


def run_tiny(case):
    f = case["f"]
    m = new_model("bpr", factors=f, learning_rate=case["lr"] / 1000, regularization=case["reg"] / 1000,
                  iterations=case["epochs"], num_threads=1, verify_negative_samples=case["verify"],
                  random_state=case["seed"], dtype=np.dtype(case["dtype"]))
    m.user_factors = (np.array(case["X0"]) / S).astype(case["dtype"])
    m.item_factors = (np.array(case["Y0"]) / S).astype(case["dtype"])
    calls = []
    st, v = attempt(m.fit, csr(case["inter"], case["nu"], case["ni"]), show_progress=prog(),
                    callback=lambda *a: calls.append([int(a[0])] + [int(x) for x in a[2:]]))

    def ints(a):
        return [[int(max(-10**8, min(10**8, round(float(x) * S)))) if x == x else 10**8 for x in r] for r in np.asarray(a)]
    last = calls[-1] if calls else [0, -2, -2]
    return [dict(res=st, msg=str(v) if st != "ok" else "", inter=[[u + 1, j + 1] for u, j in case["inter"]],
                 X0=case["X0"], Y0=case["Y0"], X1=ints(m.user_factors), Y1=ints(m.item_factors), lr=case["lr"],
                 reg=case["reg"], verify=case["verify"], epochs=case["epochs"], correct=last[1], skipped=last[2],
                 tol=10 * case["epochs"] * len(case["inter"]))]


def reach(ctx, cases, recs, corrupted=None):
    """TLC explores all sample sequences of every recorded run"""
    good = [r for r in recs if r and not r.get("crash")]
    todo = []
    for r in good:
        e = r["ev"][0]
        if e.get("harness_exc") or e["res"] != "ok":
            ctx.violations.append({"clauses": ["call_failed"], "case": r["case"], "event": e})
        else:
            todo.append((r["case"], corrupted(dict(e)) if corrupted else e))
    f = ctx.tmp / f"reach-{time.time_ns()}.ndjson"
    f.write_text("".join(json.dumps({k: v for k, v in e.items() if k != "msg"}) + "\n" for _, e in todo))
    r = tlc("TraceBprReach", None, {"TRACE": str(f)}, heap="8g")
    f.unlink()
    if not r.ok:
        import sys
        sys.stderr.write(r.out[-3000:])
        raise CheckError("TraceBprReach failed")
    ok = {int(x) - 1 for x in re.findall(r'<<"MATCH", (\d+)>>', r.out)}
    bad = [k for k in range(len(todo)) if k not in ok]
    if corrupted:
        return len(todo), len(bad)
    ctx.states += r.distinct
    ctx.transitions += r.generated
    ctx.traces += len(todo)
    ctx.events += len(todo)
    ctx.specs.append({"spec": "TraceBprReach", "traces": len(todo), "distinct_states": r.distinct, "rejected": len(bad)})
    ctx.log(f"TraceBprReach: {len(todo)} runs, {r.distinct} states, {len(bad)} not reachable by legal samples")
    for k in bad:
        ctx.violations.append({"clauses": ["not_reachable_by_legal_samples"], "case": todo[k][0], "event": todo[k][1]})


# ------------------------------------------------------------ frames, counts, coverage
def frame_case(rng, wide=False):
    nu, ni = rng.choice([1, 2, 5, 12]), rng.choice([1, 2, 4, 9])
    p = rng.choice([0.2, 0.5, 0.8])
    if wide:
        nu, ni, p = rng.choice([[130, 4, 0.5], [4, 130, 0.5], [140, 150, 0.012], [300, 300, 0.002], [20, 20, 0.6]])
    D = gen_counts(rng, nu, ni, p, hi=1)
    if rng.random() < 0.4:
        D[0] = [1] * ni                       # likes everything
    if rng.random() < 0.4:
        D[-1] = [0] * ni
    if rng.random() < 0.4:
        for r in D:
            r[-1] = 0
    if not any(any(r) for r in D):
        D[0][0] = 1
    inter = [[u, j] for u in range(nu) for j in range(ni) if D[u][j]]
    if rng.random() < 0.6:
        rng.shuffle(inter)
    return dict(inter=inter, nu=nu, ni=ni, f=rng.choice([1, 3, 8] if not wide else [3, 16, 40, 100]), epochs=rng.choice([1, 3, 10]),
                verify=rng.random() < 0.75, lr=rng.choice([0.02, 0.1]), reg=rng.choice([0.01, 0.0]),
                nt=rng.choice([0, 1, 2, 3, 4, 8]), seed=rng.randrange(10**6), refit=rng.random() < 0.3,
                dtype=rng.choice(["float32", "float64"]), vtype=rng.choice(["float32", "float64", "int64"]))


def execute(case):
    if "touch" in case:
        return run_touch(case)
    if "cover" in case:
        return run_cover(case)
    m = new_model("bpr", factors=case["f"], learning_rate=case["lr"], regularization=case["reg"], iterations=0,
                  num_threads=case["nt"], verify_negative_samples=case["verify"], random_state=case["seed"],
                  dtype=np.dtype(case["dtype"]))
    ui = csr(case["inter"], case["nu"], case["ni"], case["vtype"])
    pu, pi = case.get("spread", [0, 0])
    pu, pi = places(case["nu"], pu, 5), places(case["ni"], pi, 6)
    if case.get("spread"):
        coo = ui.tocoo()
        ui = csr_matrix((coo.data, (np.array(pu)[coo.row], np.array(pi)[coo.col])), shape=(pu[-1] + 1, pi[-1] + 1))

    def here(mask, where, every=False):
        """the marked rows; when the ids are spread out the rows in between count as one more row"""
        out = [k for k, x in enumerate(where) if mask[x]]
        if case.get("spread"):
            rest = np.delete(mask, where)
            out += [len(where)] * bool(rest.all() if every else rest.any())
        return out
    ev = []
    st, v = attempt(m.fit, ui.copy(), show_progress=prog())
    e = dict(op="init", res=st, uz=[], iz=[], ones=True, msg=str(v))
    if st == "ok":
        U, V = np.array(m.user_factors), np.array(m.item_factors)
        e.update(uz=here(~U[:, :-1].any(axis=1), pu, True), iz=here(~V.any(axis=1), pi, True), ones=bool((U[:, -1] == 1).all()))
    ev.append(e)
    for _ in range(2 if case["refit"] else 1):
        if st != "ok":
            break
        U, V = np.array(m.user_factors), np.array(m.item_factors)
        m.iterations = case["epochs"]
        calls = []
        st, v = attempt(m.fit, ui.copy(), show_progress=prog(),
                        callback=lambda *a: calls.append([int(a[0]), int(a[2]), int(a[3])]))
        e = dict(op="fit", res=st, epochs=case["epochs"], calls=calls, changedu=[], changedi=[], sums=[], ones=True, finite=True, msg=str(v))
        if st == "ok":
            U1, V1 = np.array(m.user_factors), np.array(m.item_factors)
            if case["nt"] == 1 and case["reg"] == 0:
                w = 1e5 if U1.dtype == np.float64 else 1e3
                e["sums"] = [[int(round(float(x) * w)) for x in A.sum(axis=0, dtype=np.float64)] for A in (V, V1)]
            e.update(changedu=here((U1 != U).any(axis=1), pu), changedi=here((V1 != V).any(axis=1), pi),
                     ones=bool((U1[:, -1] == 1).all()), finite=bool(np.isfinite(U1).all() and np.isfinite(V1).all()))
        ev.append(e)
    more = bool(case.get("spread"))
    return {"inter": case["inter"], "nu": case["nu"] + more, "ni": case["ni"] + more, "verify": case["verify"]}, ev


def run_cover(case):
    """user k likes item k only; all factors zero: the bias of an item counts how often it was
    drawn as liked minus how often as disliked"""
    n = case["cover"]
    inter = [[k, k] for k in range(n)]
    lo, hi = [0] * n, [0] * n
    res = "ok"
    for s in range(case["runs"]):
        m = new_model("bpr", factors=2, learning_rate=0.001, regularization=0.0, iterations=1, num_threads=case["nt"],
                      random_state=case["seed"] + s)
        m.user_factors = np.array([[0, 0, 1]] * n, dtype=np.float32)
        m.item_factors = np.zeros((n, 3), dtype=np.float32)
        st, v = attempt(m.fit, csr(inter, n, n), show_progress=prog())
        if st != "ok":
            res = st
            break
        net = np.rint(np.asarray(m.item_factors)[:, -1] / 0.0005)
        lo = [int(min(a, b)) for a, b in zip(lo, net)]
        hi = [int(max(a, b)) for a, b in zip(hi, net)]
    return {"inter": inter, "nu": n, "ni": n, "verify": True}, [
        dict(op="cover", res=res, net=[[a, b] for a, b in zip(lo, hi)])]


def run_touch(case):
    """n users who like one item each: how many of the users and items an epoch after the other reaches"""
    n = case["touch"]
    ui = csr_matrix((np.ones(n, dtype=np.float32), (np.arange(n), np.arange(n))), shape=(n, n))
    m = new_model("bpr", factors=1, learning_rate=0.05, regularization=0.01, iterations=0, num_threads=case["nt"],
                  random_state=case["seed"])
    st, v = attempt(m.fit, ui, show_progress=prog())
    left = []
    if st == "ok":
        U, V = np.array(m.user_factors), np.array(m.item_factors)
        m.iterations = case["epochs"]
        st, v = attempt(m.fit, ui, show_progress=prog(), callback=lambda *a: left.append(
            [int((np.asarray(A) == B).all(axis=1).sum()) for A, B in ((m.user_factors, U), (m.item_factors, V))]))
    return {"inter": [], "nu": 0, "ni": 0, "verify": True}, [
        dict(op="touch", res=st, msg=str(v), n=n, first=left[0] if left else [n, n], left=left[-1] if left else [n, n])]


def run(ctx):
    ctx.model_check("MCSigmoid")
    ctx.model_check("BprParallel", "BprParallel_none.cfg")
    for bug in ("unsorted", "index"):
        ctx.model_check("BprParallel", f"BprParallel_{bug}.cfg", expect_violation="Frame")
    rng = ctx.rng
    # tiny matrices enumerated by TLC
    mats = [D for D in ctx.generate("GenMatrix", "GenMatrix_2x3b.cfg") if sum(map(sum, D)) <= 3]
    if ctx.thorough:
        mats += [D for D in ctx.generate("GenMatrix", "GenMatrix_3x3.cfg") if sum(map(sum, D)) <= 3]
    tiny = [tiny_case(rng, D) for D in mats for _ in range(12 if ctx.thorough else 4)]
    few = [D for D in mats if sum(map(sum, D)) <= 2]
    tiny += [tiny_case(rng, rng.choice(few), f) for f in (5, 9, 16, 17, 33) for _ in range(12 if ctx.thorough else 4)]
    trecs = ctx.drive(tiny, func="run_tiny")
    reach(ctx, tiny, trecs)
    cases = [frame_case(rng) for _ in range(4000 if ctx.thorough else 700)]
    cases += [dict(cover=n, nt=nt, runs=300 if ctx.thorough else 120, seed=rng.randrange(10**6))
              for n in (2, 3, 6, 40, 300) for nt in (1, 2, 4)]
    cases += [dict(cover=3000, nt=nt, runs=120, seed=rng.randrange(10**6)) for nt in (1, 4)]
    cases += [frame_case(rng, True) for _ in range(200 if ctx.thorough else 40)]
    cases += [dict(frame_case(rng, k % 2), f=3, spread=rng.choice([[40000, 500], [500, 40000], [70000, 70000]]))
              for k in range(40 if ctx.thorough else 10)]
    cases += [dict(touch=n, nt=nt, epochs=32, seed=rng.randrange(10**6)) for n, nt in ((40000, 2), (80000, 1), (300000, 8))]
    recs = ctx.drive(cases)
    ctx.validate("TraceBpr", recs)
    if not ctx.violations:
        def off(e):
            X = [list(r) for r in e["X1"]]
            X[0][0] += 20 * e["tol"] + 377
            return dict(e, X1=X)
        n, bad = reach(ctx, tiny[:60], trecs[:60], off)
        if bad < n:
            raise CheckError(f"{n - bad} of {n} corrupted BPR outcomes were accepted")
        ctx.log(f"{n} corrupted outcomes all rejected by TraceBprReach")

        def frame(r):
            likes = {u: {j for v, j in r["inter"] if v == u} for u in range(r["nu"])}
            u = next((u for u in likes if not likes[u]), None)
            for e in r["ev"]:
                if e["op"] == "fit" and u is not None:
                    e["changedu"].append(u)
                    return r

        def count(r):
            for e in r["ev"]:
                if e["op"] == "fit" and e["calls"]:
                    e["calls"][0][1] = len(r["inter"]) + 1
                    return r
        ctx.corrupt("TraceBpr", recs, frame, label="an uninvolved user changed")
        ctx.corrupt("TraceBpr", recs, count, label="more correct samples than samples")


def replay(ctx):
    a = [c for c in ctx.only_cases if "X0" in c]
    b = [c for c in ctx.only_cases if "X0" not in c]
    if a:
        reach(ctx, a, ctx.drive(a, func="run_tiny"))
    if b:
        ctx.validate("TraceBpr", ctx.drive(b))
