"""C17: LMF training follows its update rule on exactly the interacting rows."""
import numpy as np
from scipy.sparse import csr_matrix

from ..klib import gen_counts
from ..qlib import attempt, new_model, prog

LEVEL = "model_checking"
ASSUMPTIONS = ["the step of every row is checked against the gradient in fixed point (10^-4) with the rounding "
               "errors of the recorded factors allowed for; with sampled negatives for tiny matrices, every possible "
               "draw being considered"]
S = 10000
W = [4, 4, 4, 8, 12, 2, 1, 6, 20, -4]


def matrix(D4, dtype="float32", fmt="csr"):
    return csr_matrix(np.array(D4, dtype=np.float64) / 4).astype(dtype).asformat(fmt)


def rows_of(D4):
    return [[[j, int(v)] for j, v in enumerate(r) if v] for r in D4]


def step_case(rng, D, np_, wide=False):
    D4 = [[rng.choice(W if not wide else [1, 2, -1]) if v else 0 for v in r] for r in D]
    f = rng.choice([1, 1, 2]) if np_ else rng.choice([1, 2, 3])
    vals = [-12000, -7000, -3000, -1000, 0, 1000, 2500, 5000, 9000, 14000]
    if wide:
        f, vals = rng.choice([1, 5, 9, 17, 33]), [-2500, -1000, 500, 1500, 3000]
    val = lambda: rng.choice(vals)  # noqa
    return dict(D4=D4, f=f, X0=[[val() for _ in range(f + 2)] for _ in D], Y0=[[val() for _ in range(f + 2)] for _ in D[0]],
                lr=rng.choice([100, 300, 500] if f < 9 else [50, 100]), reg=rng.choice([0, 100, 600]), np=np_, epochs=rng.choice([2, 3]) if not np_ else 2,
                nt=rng.choice([1, 2, 3, 8]), seed=rng.randrange(10**6), refit=rng.random() < 0.25,
                dtype=rng.choice(["float32", "float64"]))


def ints(a, s=S):
    return [[int(max(-10**6, min(10**6, round(float(x) * s)))) if x == x else 10**6 for x in r] for r in np.asarray(a)]


def fd(case):
    """the floating point type of the factors"""
    return np.float64 if case["seed"] % 2 else np.float32


def make(case, **kw):
    return new_model("lmf", **{**dict(factors=case["f"], learning_rate=case.get("lr", 0) / 1000, regularization=case.get("reg", 0) / 1000,
                                      iterations=case.get("epochs", 1), neg_prop=case["np"], num_threads=case["nt"],
                                      random_state=case["seed"], dtype=fd(case)), **kw})


def execute(case):
    kind = case.get("kind", "step")
    hdr = {"rows": rows_of(case["D4"]), "ni": len(case["D4"][0]), "lr": case.get("lr", 0), "reg": case.get("reg", 0),
           "np": case.get("np", 0)}
    return hdr, {"step": run_step, "frame": run_frame, "same": run_same, "drawn": run_drawn, "negs": run_negs,
                 "many": run_many, "fine": run_fine}[kind](case)


def run_step(case):
    m = make(case)
    m.user_factors = (np.array(case["X0"]) / S).astype(fd(case))
    m.item_factors = (np.array(case["Y0"]) / S).astype(fd(case))
    ev = []
    for _ in range(2 if case["refit"] else 1):
        ev.append(dict(op="start", res="ok", X=ints(m.user_factors), Y=ints(m.item_factors)))
        st, v = attempt(m.fit, matrix(case["D4"], case["dtype"]), show_progress=prog(),
                        callback=lambda k, *a: ev.append(dict(op="epoch", res="ok", k=int(k), X=ints(m.user_factors),
                                                              Y=ints(m.item_factors))))
        if st != "ok" or ev[-1]["op"] == "start":
            ev.append(dict(op="epoch", res=st if st != "ok" else "no_callback", msg=str(v), k=0, X=[], Y=[]))
            break
    return ev


def large_case(rng):
    """large values of the interactions (and small factors)"""
    n = rng.choice([1, 2, 4])
    c = step_case(rng, [[int(a == b) for b in range(n)] for a in range(n)], 0)
    small = lambda M: [[v // 4 for v in r] for r in M]  # noqa
    c.update(D4=[[rng.choice([4, 80, 72, -70]) if v else 0 for v in r] for r in c["D4"]], X0=small(c["X0"]), Y0=small(c["Y0"]),
             lr=100, epochs=1, refit=False)
    if rng.random() < 0.5:      # high scores, at which the regularization outweighs what is left to gain
        X, Y = [], []
        for _ in range(n):
            x, y = rng.choice([20000, 24000, 30000, -30000]), rng.choice([8000, 10000, 12000])
            low = lambda: rng.choice([-500, 0, 500])  # noqa
            X.append([x] + [low() for _ in range(c["f"] + 1)])
            Y.append([y if x > 0 else -y] + [low() for _ in range(c["f"] + 1)])
        c.update(D4=[[rng.choice([4, 80, 72]) if v else 0 for v in r] for r in c["D4"]], X0=X, Y0=Y, reg=600)
    return c


# -------------------------------------------------- any size: frames and determinism
def big_case(rng, kind, wide=False):
    nu, ni = rng.choice([1, 2, 5, 17, 40]), rng.choice([1, 3, 8, 25])
    if wide:
        nu, ni = rng.choice([[300, 8], [8, 300], [130, 130]])
    D = gen_counts(rng, nu, ni, rng.choice([0.1, 0.4, 0.8]), values=[4, 8, 2, 12])
    if rng.random() < 0.5:
        D[rng.randrange(nu)] = [0] * ni
    if rng.random() < 0.5:
        j = rng.randrange(ni)
        for r in D:
            r[j] = 0
    if not any(any(r) for r in D):
        D[0][0] = 4
    return dict(kind=kind, D4=D, f=rng.choice([1, 3, 8] if not wide else [3, 17, 66]), lr=rng.choice([100, 1000]),
                reg=600 if wide else rng.choice([0, 600]),      # many factors: the gradient may vanish without
                epochs=rng.choice([1, 2, 5]), np=0 if kind == "same" else rng.choice([0, 1, 3, 30]),
                nt=rng.choice([0, 1, 2, 3, 4, 8]), seed=rng.randrange(10**6), dtype=rng.choice(["float32", "int32", "float64"]))


def run_frame(case):
    m = make(case, iterations=0)
    M = matrix([[4 * (v != 0) for v in r] for r in case["D4"]], case["dtype"])
    st, v = attempt(m.fit, M, show_progress=prog())
    if st != "ok":
        return [dict(op="init", res=st, msg=str(v))]
    U, V = np.array(m.user_factors), np.array(m.item_factors)
    f = case["f"]
    ucols, icols = [k for k in range(f + 2) if k != f], list(range(f + 1))
    ev = [dict(op="init", res="ok", uz=[int(k) for k in np.flatnonzero(~U[:, ucols].any(axis=1))],
               iz=[int(k) for k in np.flatnonzero(~V[:, icols].any(axis=1))])]
    m.iterations = case["epochs"]
    calls = []
    st, v = attempt(m.fit, M, show_progress=prog(), callback=lambda k, *a: calls.append(int(k)))
    e = dict(op="frame", res=st, msg=str(v), calls=calls, epochs=case["epochs"])
    if st == "ok":
        U1, V1 = np.array(m.user_factors), np.array(m.item_factors)
        e.update(cu=[int(k) for k in np.flatnonzero((U1 != U)[:, ucols].any(axis=1))],
                 ci=[int(k) for k in np.flatnonzero((V1 != V)[:, icols].any(axis=1))],
                 uone=bool((U1[:, -2] == 1).all()), ione=bool((V1[:, -1] == 1).all()),
                 finite=bool(np.isfinite(U1).all() and np.isfinite(V1).all()))
    return ev + [e]


def run_same(case):
    M = matrix(case["D4"])
    out = []
    for nt, seed in ((1, case["seed"]), (case["nt"], case["seed"] + 1)):
        rs = np.random.RandomState(case["seed"])
        m = make(case, num_threads=nt, random_state=seed)
        m.user_factors = rs.normal(size=(M.shape[0], case["f"] + 2)).astype(fd(case))
        m.item_factors = rs.normal(size=(M.shape[1], case["f"] + 2)).astype(fd(case))
        st, v = attempt(m.fit, M, show_progress=prog())
        if st != "ok":
            return [dict(op="same", res=st, msg=str(v))]
        out += [ints(m.user_factors), ints(m.item_factors)]
    return [dict(op="same", res="ok", X=out[0], Y=out[1], X2=out[2], Y2=out[3], tol=2)]


def run_drawn(case):
    """items are unit vectors, users start at zero: after one epoch the sign of each component says
    whether that item was drawn as a negative (own items: drawn at least twice)"""
    n = len(case["D4"][0])
    drawn = [set() for _ in range(n)]
    for s in range(case["runs"]):
        m = make(case, factors=n, random_state=case["seed"] + s)
        m.user_factors = np.zeros((n, n + 2), dtype=fd(case))
        m.item_factors = np.eye(n, n + 2, dtype=fd(case))
        st, v = attempt(m.fit, matrix(case["D4"]), show_progress=prog())
        if st != "ok":
            return [dict(op="drawn", res=st, msg=str(v))]
        U = np.asarray(m.user_factors)
        for u in range(n):
            for j in range(n):
                if U[u, j] < 0:
                    drawn[u].add(j)
    return [dict(op="drawn", res="ok", drawn=[sorted(x) for x in drawn])]


def negs_case(rng, wide=False):
    nu, ni = rng.choice([1, 2, 5, 12, 30]), rng.choice([1, 3, 8, 25])
    p = rng.choice([0.15, 0.4, 0.9])
    if wide:
        nu, ni = rng.choice([[2, 300], [300, 2], [5, 200], [200, 5]])
        many = rng.random() < 0.4              # few entries, many negatives each
        D = gen_counts(rng, nu, ni, 0.01 if many else rng.choice([0.3, 0.5, 0.9]), hi=1)
        D[0][0] = 1
        return dict(kind="negs", D4=[[4 * v for v in r] for r in D], f=12, side="user" if ni > nu else "item",
                    np=rng.choice([70, 150, 290] if many else [1, 1, 2, 3]), nt=rng.choice([1, 4]), seed=2 * rng.randrange(10**6) + 1, runs=2)
    D = gen_counts(rng, nu, ni, p, hi=1)
    if not any(any(r) for r in D):
        D[0][0] = 1
    return dict(kind="negs", D4=[[4 * v for v in r] for r in D], f=rng.choice([1, 2, 3, 6]), side=rng.choice(["user", "item"]),
                np=rng.choice([1, 1, 2, 3, 5, 30]), nt=rng.choice([1, 2, 4, 8]), seed=rng.randrange(10**6), runs=20)


def own_case(rng):
    """rows with disjoint entries, told apart by the buckets: what a row draws does not depend on whose entry it is"""
    k, per = rng.choice([2, 2, 3]), rng.choice([2, 4, 6])
    D = [[4 * (j % k == r) for j in range(k * per)] for r in range(k)]
    side = rng.choice(["user", "item"])
    if side == "item":
        D = [list(x) for x in zip(*D)]
    return dict(kind="negs", D4=D, f=k, side=side, np=rng.choice([1, 1, 2, 3]), nt=rng.choice([1, 2, 4]),
                seed=rng.randrange(10**6), runs=1200 // (k * per), own=True)


def run_negs(case):
    """one side starts at zero, the other at small unit vectors (0.0005 e_(j mod f)): each component of
    the first step, lr d / sqrt(1e-6 + d^2), gives d and with it how many negatives fell in that bucket"""
    M = matrix(case["D4"])
    P = (M if case["side"] == "user" else M.T).toarray()
    nb, eps = case["f"], 5e-4
    bucket = np.arange(P.shape[1]) % nb
    own = np.array([[P[k, bucket == b].sum() for b in range(nb)] for k in range(P.shape[0])])
    tot, n, rt = np.zeros(nb), None, 0
    for s in range(case["runs"]):
        m = make(case, iterations=1, learning_rate=1.0, regularization=0.0, random_state=case["seed"] + s)
        fixed = np.zeros((P.shape[1], nb + 2), dtype=fd(case))
        fixed[np.arange(P.shape[1]), bucket] = eps
        zero = np.zeros((P.shape[0], nb + 2), dtype=fd(case))
        m.user_factors, m.item_factors = (zero, fixed) if case["side"] == "user" else (fixed, zero)
        st, v = attempt(m.fit, M, show_progress=prog())
        if st != "ok":
            return [dict(op="negs", res=st, msg=str(v))]
        x = np.asarray(m.user_factors if case["side"] == "user" else m.item_factors)[:, :nb].astype(np.float64)
        d = 1e-3 * x / np.sqrt(np.maximum(1e-12, 1 - x**2))
        n = np.rint(np.clip(own - d / (eps / 2), -9999, 9999)).astype(int)
        tot += n.sum(axis=0)
        rt = rt + n
    return [dict(op="negs", res="ok", rt=rt.tolist() if case.get("own") else [], side=case["side"], nb=nb, n=n.tolist(), tot=tot.astype(int).tolist())]


def run_many(case):
    """as above for n users who have one item each, user k item k: the rows of the other side are in nb blocks"""
    n, nb, eps = case["many"], case["f"], 5e-4
    M = csr_matrix((np.ones(n, dtype=np.float32), (np.arange(n), np.arange(n))), shape=(n, n))
    m = make(case, iterations=1, learning_rate=1.0, regularization=0.0)
    block = np.arange(n) * nb // n
    fixed = np.zeros((n, nb + 2), dtype=fd(case))
    fixed[np.arange(n), block] = eps
    zero = np.zeros((n, nb + 2), dtype=fd(case))
    m.user_factors, m.item_factors = (zero, fixed) if case["side"] == "user" else (fixed, zero)
    st, v = attempt(m.fit, M, show_progress=prog())
    if st != "ok":
        return [dict(op="many", res=st, msg=str(v))]
    x = np.asarray(m.user_factors if case["side"] == "user" else m.item_factors)[:, :nb].astype(np.float64)
    d = 1e-3 * x / np.sqrt(np.maximum(1e-12, 1 - x**2))
    own = np.zeros((n, nb))
    own[np.arange(n), block] = 1
    k = np.rint(np.clip(own - d / (eps / 2), -9999, 9999)).astype(int)
    return [dict(op="many", res="ok", nb=nb, n=n, off=int(((k < 0).any(axis=1) | (k.sum(axis=1) != case["np"])).sum()),
                 tot=[int(y) for y in k.sum(axis=0)])]


def fine_case(rng):
    """long rows (or many of them) and factors so small that a step shows the size of the gradient, not only its sign"""
    n, other = rng.choice([[1, 60], [3, 200], [2, 400], [150, 7], [40, 40], [4, 12]])
    side = rng.choice(["user", "user", "item"])
    nb = rng.choice([1, 2, 5])
    P = gen_counts(rng, n, other, rng.choice([0.5, 0.95]), hi=1)
    P[0] = [1] * other
    P = [[rng.choice([1, 2, 4, 4, 8, -4]) if v else 0 for v in r] for r in P]
    K = [[rng.choice([-2, -1, 0, 1, 2]) for _ in range(nb)] for _ in range(other)]
    return dict(kind="fine", D4=P if side == "user" else [list(r) for r in zip(*P)], f=nb, side=side, np=0, nt=rng.choice([0, 1, 2, 8]),
                seed=rng.randrange(10**6), K=K, lr=rng.choice([1000, 500, 100]),
                M=[[rng.randint(-15, 15) if side == "user" else 0 for _ in range(nb)] for _ in P],
                reg=rng.choice([0, 100, 600, 1000]) if side == "user" else 0)


def run_fine(case):
    """factors K * eps (fixed) and M * eps (updated): each component of the first step, lr d / sqrt(1e-6 + d^2), gives
    d = eps / 2 (sum of v k - 2 reg m), recorded in units of eps / 40"""
    nb, eps = case["f"], 5e-4
    pad = lambda A: np.hstack([np.array(A) * eps, np.zeros((len(A), 2))]).astype(fd(case))  # noqa
    m = make(case, iterations=1)
    m.user_factors, m.item_factors = (pad(case["M"]), pad(case["K"])) if case["side"] == "user" else (pad(case["K"]), pad(case["M"]))
    st, v = attempt(m.fit, matrix(case["D4"]), show_progress=prog())
    if st != "ok":
        return [dict(op="fine", res=st, msg=str(v))]
    x = np.asarray(m.user_factors if case["side"] == "user" else m.item_factors)[:, :nb].astype(np.float64)
    s = (x - pad(case["M"])[:, :nb].astype(np.float64)) / (case["lr"] / 1000)
    d = 1e-3 * s / np.sqrt(np.maximum(1e-6, 1 - s**2))
    return [dict(op="fine", res="ok", side=case["side"], nb=nb, K=case["K"], M=case["M"],
                 n=np.rint(np.clip(d / (eps / 40), -99999, 99999)).astype(int).tolist())]


def run(ctx):
    ctx.model_check("MCSigmoid")
    ctx.model_check("LmfParallel", "LmfParallel_none.cfg")
    for bug in ("sharedbuf", "noclear", "nobarrier"):
        ctx.model_check("LmfParallel", f"LmfParallel_{bug}.cfg", expect_violation="RightSteps")
    rng = ctx.rng
    mats = ctx.generate("GenMatrix", "GenMatrix_2x3b.cfg")
    more = ctx.generate("GenMatrix", "GenMatrix_3x3.cfg")
    cases = []
    for D in mats:
        cases += [step_case(rng, D, 0) for _ in range(8 if ctx.thorough else 2)]
        cases += [step_case(rng, D, 1) for _ in range(8 if ctx.thorough else 2)]
    pick = more if ctx.thorough else rng.sample(more, min(len(more), 120))
    cases += [step_case(rng, D, 0) for D in pick for _ in range(4 if ctx.thorough else 1)]
    cases += [step_case(rng, D, rng.choice([1, 2])) for D in (pick if ctx.thorough else pick[:40])]
    for _ in range(400 if ctx.thorough else 60):
        cases.append(step_case(rng, gen_counts(rng, rng.choice([1, 4, 9]), rng.choice([1, 3, 7]), 0.5, hi=1), 0))
    n = 1500 if ctx.thorough else 250
    cases += [big_case(rng, "frame") for _ in range(n)] + [big_case(rng, "same") for _ in range(n // 2)]
    for nu, ni in [(1, 70), (70, 1), (40, 30), (9, 60), (60, 9), (3, 140), (140, 3)] * (8 if ctx.thorough else 2):
        cases.append(step_case(rng, gen_counts(rng, nu, ni, rng.choice([0.3, 0.9]), hi=1), 0, True))
    cases += [large_case(rng) for _ in range(400 if ctx.thorough else 60)]
    cases += [big_case(rng, k, True) for k in ("frame", "same") for _ in range(60 if ctx.thorough else 12)]
    cases += [dict(kind="drawn", D4=[[4 * (a == b) for b in range(k)] for a in range(k)], f=k, lr=100, reg=0, np=3, epochs=1,
                   nt=nt, runs=250, seed=rng.randrange(10**6)) for k in (2, 3, 5) for nt in (1, 2, 4)]
    cases += [negs_case(rng) for _ in range(600 if ctx.thorough else 120)]
    cases += [own_case(rng) for _ in range(100 if ctx.thorough else 12)]
    cases += [negs_case(rng, True) for _ in range(40 if ctx.thorough else 8)]
    cases += [dict(kind="many", D4=[[4]], many=n, f=4, side=side, np=rng.choice([1, 2, 3]), nt=rng.choice([1, 4]),
                   seed=rng.randrange(10**6)) for n in (40000, 72000, 200000) for side in ("user", "item")]
    cases += [fine_case(rng) for _ in range(500 if ctx.thorough else 60)]
    recs = ctx.drive(cases)
    ctx.validate("TraceLmf", recs, heap="8g")
    if not ctx.violations:
        def off(r):
            e = r["ev"][-1]
            if e["op"] != "epoch":
                return None
            u = next(u for u, x in enumerate(r["rows"]) if x)
            e["X"][u][0] += 20000 if e["X"][u][0] < 0 else -20000
            return r

        def bias(r):
            if r["ev"][-1]["op"] == "epoch":
                r["ev"][-1]["Y"][0][-1] += 1
                return r
        ctx.corrupt("TraceLmf", recs[:150], off, label="a user factor is off")
        ctx.corrupt("TraceLmf", recs[:150], bias, label="an item bias column is not one")


def replay(ctx):
    ctx.validate("TraceLmf", ctx.drive(ctx.only_cases))
