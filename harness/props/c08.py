"""C08: ALS fit alternates exact half-steps and never increases its objective."""
import numpy as np

from ..qlib import attempt, csr_rows, gen_vectors, new_model, prog
from .c07 import alpha_of, ints, limbs, precise_case as precise_rows, precise_matrix, stored_as

LEVEL = "model_checking"
ASSUMPTIONS = [
    "the first iteration is compared with the specification exactly (identity item factors give "
    "dyadic user factors); later iterations are compared with recalculate_user / recalculate_item, "
    "which C07 compares with the specification",
    "the conjugate gradient solver is checked with enough steps to converge, and in its default "
    "form for monotonicity, continuation and agreement of native and Python versions"]


def matrix(rows, n, dtype="float32"):
    return csr_rows([[e[0] for e in r] for r in rows], n, [[e[1] / 4 for e in r] for r in rows], dtype)


SOLVERS = [("chol", True), ("chol", False), ("cg", True), ("cg", False)]


def model(case, solver, native, **kw):
    f = case["f"]
    m = new_model("als", factors=f, regularization=case["l16"] / 16, alpha=alpha_of(case),
                  dtype=np.dtype(kw.pop("dtype", case["dtype"])), use_native=native,
                  use_cg=solver == "cg", num_threads=kw.pop("threads", case["threads"]),
                  iterations=kw.pop("iterations", 1), random_state=case.get("seed", 1), **kw)
    if solver == "cg":
        m.cg_steps = case.get("cg", 3 * f + 5)
    return m


# ------------------------------------------------------------------ cases
def exact_case(rng, wide=False):
    f = rng.choice([1, 2, 3, 4, 6])
    nu = rng.choice([1, 2, 5, 9, 17])
    if wide:
        f, nu = rng.choice([[33, 40], [5, 300], [9, 130], [17, 20]])
    rows = []
    a = rng.choice([4, 4, 2, 8])          # 4 * alpha; alpha * value in {1, 3, 7}
    for _ in range(nu):
        p = rng.choice([0.0, 0.3, 0.6, 1.0])
        ids = [j for j in range(f) if rng.random() < p]
        rng.shuffle(ids)
        rows.append([[j, rng.choice([1, 3, 7, 1, -1, -3]) * 16 // a] for j in ids])
    s, nat = rng.choice(SOLVERS)
    vtype, aint = stored_as(rng, rows, a)
    return dict(mode="exact", f=f, rows=rows, a4=a, vtype=vtype, aint=aint, l16=16, solver=s, native=nat,
                dtype=rng.choice(["float32", "float64"]) if s == "chol" else "float64",
                threads=rng.choice([0, 1, 2, 5]))


def gen_rows(rng, nu, n, empty=True, vals=(1, 2, 3, 5, 0.5, 0.25, -1, -2, -0.5)):
    rows = []
    for _ in range(nu):
        p = rng.choice([0.0, 0.2, 0.5]) if empty else rng.choice([0.2, 0.5, 0.8])
        ids = [j for j in range(n) if rng.random() < p]
        if not ids and not empty:
            ids = [rng.randrange(n)]
        rows.append([[j, int(4 * rng.choice(vals))] for j in ids])
    if not empty:
        for j in range(n):
            if not any(e[0] == j for r in rows for e in r):
                rng.choice(rows).append([j, 4])
    return rows


def fit_case(rng, wide=False):
    n, nu = rng.choice([3, 6, 12]), rng.choice([3, 7, 20])
    if wide:
        n, nu = rng.choice([[130, 20], [20, 130], [70, 70]])
    s, nat = rng.choice(SOLVERS)
    rows, a4 = gen_rows(rng, nu, n), int(4 * rng.choice([1, 1, 2, 0.5, 5]))
    large = rng.random() < 0.15        # alpha times the stored values does not fit their type
    if large:
        s, rows, a4 = "chol", gen_rows(rng, nu, n, vals=(5, 30, 100)), 4 * rng.choice([3, 10, 40])
    vtype, aint = stored_as(rng, rows, a4)
    return dict(mode="fit", f=rng.choice([1, 2, 3, 5] if not wide else [3, 9, 17, 33]), rows=rows, n=n, vtype=vtype, aint=aint,
                how=rng.choice(["callback", "callback", "both", "attribute"]), a4=a4, l16=rng.choice([2, 8, 16, 48]),
                solver=s, native=nat, dtype="float64" if s == "cg" or large or wide else rng.choice(["float32", "float64"]),
                threads=rng.choice([0, 1, 2, 5]), iters=rng.choice([1, 2, 3, 4, 4] if wide else [1, 2, 3, 4, 13]),
                seed=rng.randrange(1000), asked=rng.random() < 0.6)


def same_case(rng, wide=False):
    n, nu = rng.choice([3, 6, 12, 40]), rng.choice([3, 7, 20, 45])
    if wide:
        n, nu = rng.choice([[260, 30], [30, 260], [130, 130]])
    what = rng.choice(["continue", "native", "threads", "default"])
    s = rng.choice(["chol", "cg"])
    c = dict(mode="same", what=what, f=rng.choice([1, 2, 3, 5, 12] if not wide else [3, 12, 33, 66]),
             rows=gen_rows(rng, nu, n, empty=not (what == "native")), n=n,
             a4=int(4 * rng.choice([1, 1, 2, 0.5])), l16=rng.choice([8, 16, 48]), solver=s,
             native=rng.random() < 0.7, dtype="float64", threads=rng.choice([1, 2]),
             iters=rng.choice([1, 2, 3]), more=rng.choice([1, 2, 3]), seed=rng.randrange(1000),
             threads2=rng.choice([3, 4, 8, 0]))
    if s == "cg":
        c["cg"] = rng.choice([1, 2, 3, 3, 5])
    return c


def loss_case(rng, wide=False):
    n, nu, f = rng.choice([1, 3, 8]), rng.choice([1, 4, 11]), rng.choice([1, 2, 3])
    if wide:
        n, nu, f = rng.choice([[130, 4, 2], [8, 130, 3], [10, 10, 33], [40, 40, 1]])
    vals = [1, 2, 3, 5, 0.5, 0.25, -1, -2, -0.5]
    large = not wide and rng.random() < 0.3
    if large:
        n, nu, vals = min(n, 3), min(nu, 4), [80, -80, 1, -300]
    lim = 1 if wide or large else 3
    return dict(mode="loss", f=f, n=n, rows=gen_rows(rng, nu, n, vals=vals), a4=4, l16=rng.choice([0, 8, 16, 32]),
                X=gen_vectors(rng, nu, f, -lim, lim), Y=gen_vectors(rng, n, f, -lim, lim),
                dtype=rng.choice(["float32", "float64"]), threads=rng.choice([0, 1, 2, 4]))


def precise_case(rng):
    s, nat = rng.choice(SOLVERS)
    c = precise_rows(rng)
    return dict(c, f=len(c["K"][0]), solver=s, native=nat, dtype="float64", l16=16 * c["l"], a4=4)


# ------------------------------------------------------------------ execution
def exec_precise(case):
    m = model(case, case["solver"], case["native"])
    m.item_factors = np.array(case["K"]) / case["Z"]
    m.user_factors = np.full((len(case["rows"]), case["f"]), 0.125)
    w, m.alpha = precise_matrix(case)
    st, v = attempt(m.fit, w, show_progress=prog())
    e = dict(op="precise", res=st, K=case["K"], Z=case["Z"], l=case["l"], Q=case["Q"], rows=case["rows"], x=[],
             slack=case["Q"] * (1000 if case["solver"] == "chol" else 200 * case["Z"] ** 2))
    if st == "ok":
        e["x"] = [limbs(r) for r in m.user_factors]
    else:
        e["msg"] = v
    return [e]


def execute(case):
    return globals()["exec_" + case["mode"]](case)


def exec_exact(case):
    f = case["f"]
    m = model(case, case["solver"], case["native"])
    m.item_factors = np.eye(f, dtype=case["dtype"])
    m.user_factors = np.full((len(case["rows"]), f), 0.125, dtype=case["dtype"])
    st, v = attempt(m.fit, matrix(case["rows"], f).astype(case["vtype"]), show_progress=prog())
    z = 8
    e = dict(op="exact", res=st, f=f, rows=case["rows"], a4=case["a4"], z=z, S=2048, X=[], Y=[],
             dyadic=False)
    if st == "ok":
        X = np.asarray(m.user_factors, dtype=float) * z
        # fractional alpha * value of negatives are 1 or 3 as well, so all x are 0 or c / (c + 1)
        e["dyadic"] = bool(np.all(np.abs(X - np.round(X)) < 1e-3))
        e["X"] = ints(X, 1)
        e["Y"] = ints(m.item_factors, e["S"])
    else:
        e["msg"] = v
    return [e]


def exec_fit(case):
    from implicit.cpu.als import calculate_loss
    n, nu = case["n"], len(case["rows"])
    ui = matrix(case["rows"], n)
    conf = (ui * (case["a4"] / 4)).tocsr()
    m = model(case, case["solver"], case["native"], iterations=case["iters"],
              calculate_training_loss=case["asked"])
    rs = np.random.RandomState(case["seed"])
    m.user_factors = rs.uniform(-1, 1, size=(nu, case["f"])).astype(case["dtype"])
    m.item_factors = rs.uniform(-1, 1, size=(n, case["f"])).astype(case["dtype"])
    snaps = [(m.user_factors.copy(), m.item_factors.copy())]
    epochs, closs, wrong = [], [], []

    def cb(epoch, elapsed, loss):
        snaps.append((m.user_factors.copy(), m.item_factors.copy()))
        epochs.append(int(epoch))
        if loss is not None:
            closs.append(float(loss))
    # a callback can also be an attribute of the model, which the argument takes precedence over
    if case["how"] != "callback":
        m.fit_callback = cb if case["how"] == "attribute" else lambda *a: wrong.append(a)
    st, v = attempt(m.fit, ui.astype(case["vtype"]), show_progress=prog(),
                    **({} if case["how"] == "attribute" else dict(callback=cb)))
    e = dict(op="fit", wrong=len(wrong), res=st, n=case["iters"], epochs=epochs, X=[], XR=[], Y=[], YR=[], loss=[],
             closs=[int(round(x * 10**6)) for x in closs], asked=case["asked"],
             tol=30 if case["dtype"] == "float64" else 120, ltol=0)
    if st != "ok":
        e["msg"] = v
        return [e]
    S = 10000
    uu, ii = np.arange(nu), np.arange(n)
    iu = ui.T.tocsr()
    for k in range(1, len(snaps)):
        o = model(case, "chol", True, dtype="float64", threads=1)
        o.user_factors, o.item_factors = [x.astype("float64") for x in (snaps[k][0], snaps[k - 1][1])]
        e["X"].append(ints(snaps[k][0], S))
        e["XR"].append(ints(o.recalculate_user(uu, ui), S))
        e["Y"].append(ints(snaps[k][1], S))
        e["YR"].append(ints(o.recalculate_item(ii, iu), S))
    ls = [calculate_loss(conf, a.astype("float64"), b.astype("float64"), case["l16"] / 16, 1)
          for a, b in snaps]
    e["loss"] = [int(round(min(x, 2000) * 10**6)) for x in ls]
    # losses of float32 factors are sums of many rounded terms
    e["ltol"] = 20 if case["dtype"] == "float64" else 2000
    return [e]


def exec_same(case):
    n, nu = case["n"], len(case["rows"])
    ui = matrix(case["rows"], n)

    def train(**kw):
        steps = kw.pop("steps")
        m = model(case, case["solver"], kw.pop("native", case["native"]), iterations=steps[0], **kw)
        m.fit(ui, show_progress=prog())
        for s in steps[1:]:
            m.iterations = s
            m.fit(ui, show_progress=prog())
        return m
    total = case["iters"] + case["more"]
    if case["what"] == "continue":
        kws = dict(steps=[total]), dict(steps=[case["iters"], case["more"]])
    elif case["what"] == "native":
        kws = dict(steps=[total], native=True), dict(steps=[total], native=False)
    elif case["what"] == "threads":
        kws = dict(steps=[total], threads=case["threads"]), dict(steps=[total], threads=case["threads2"])
    else:
        kws = dict(steps=[total]), dict(steps=[total], calculate_training_loss=True)
    e = dict(op="same", res="ok", X=[], Y=[], X2=[], Y2=[], tol=12)
    st, v = attempt(lambda: [train(**k) for k in kws])
    e["res"] = st
    if st != "ok":
        e["msg"] = v
        return [e]
    a, b = v
    e.update(X=ints(a.user_factors, 10000), X2=ints(b.user_factors, 10000),
             Y=ints(a.item_factors, 10000), Y2=ints(b.item_factors, 10000))
    return [e]


def exec_loss(case):
    from implicit.cpu.als import calculate_loss
    ui = matrix(case["rows"], case["n"])
    st, v = attempt(calculate_loss, ui, np.array(case["X"], dtype=case["dtype"]),
                    np.array(case["Y"], dtype=case["dtype"]), case["l16"] / 16, case["threads"])
    S = 1000
    e = dict(op="loss", res=st, X=case["X"], Y=case["Y"], rows=case["rows"], a4=case["a4"],
             l16=case["l16"], S=S, loss=int(round(float(v) * S)) if st == "ok" else 0)
    if st != "ok":
        e["msg"] = v
    return [e]


def run(ctx):
    ctx.model_check("AlsSchedule", "AlsSchedule_deep.cfg" if ctx.thorough else "AlsSchedule_none.cfg")
    ctx.model_check("AlsSchedule", "AlsSchedule_nobarrier.cfg", expect_violation="Alternates")
    ctx.model_check("AlsSchedule", "AlsSchedule_itemsfirst.cfg", expect_violation="Alternates")
    ctx.model_check("AlsObjective", "AlsObjective_f1.cfg")
    rng = ctx.rng
    k = 8 if ctx.thorough else 1
    cases = [exact_case(rng) for _ in range(300 * k)] + [fit_case(rng) for _ in range(300 * k)]
    cases += [same_case(rng) for _ in range(250 * k)] + [loss_case(rng) for _ in range(250 * k)]
    for g in (exact_case, fit_case, same_case, loss_case):
        cases += [g(rng, True) for _ in range(15 * k)]
    cases += [precise_case(rng) for _ in range(100 * k)]
    rng.shuffle(cases)
    recs = ctx.drive(cases)
    ctx.validate("TraceAlsFit", recs)
    if not ctx.violations:
        def bad(r):
            e = r["ev"][0]
            if e["op"] == "exact":
                for j, y in enumerate(e["Y"]):
                    if any(y):
                        y[0] += 400
                        return r
            elif e["op"] == "fit":
                e["Y"][0][0][0] += 300
                return r
            elif e["op"] == "same":
                e["X2"][0][0] += 100
                return r
            elif e["op"] == "loss":
                e["loss"] += max(20, e["loss"] // 50)
                return r
        ctx.corrupt("TraceAlsFit", recs[:300], bad, label="a factor or a loss off")


def replay(ctx):
    ctx.validate("TraceAlsFit", ctx.drive(ctx.only_cases))
