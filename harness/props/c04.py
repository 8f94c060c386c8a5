"""C04: batch queries equal the individual queries, for every batch and thread count."""
import numpy as np

from ..core import q as quant
from ..klib import KNN, dense, gen_counts, new_knn
from ..qlib import MODELS, as_list, attempt, csr_rows, gen_liked, gen_vectors, model_with, pick_N

LEVEL = "model_checking"
ASSUMPTIONS = ["thread schedules of the real code are those the runs happened to produce; all "
               "schedules are explored in BatchPlan.tla"]


def gen_args(rng, op, n, nu):
    """filters / N shared by the batch call and the individual calls"""
    cnt = nu if op == "simu" else n
    a = dict(op=op, N=pick_N(rng, min(cnt, rng.choice([30, 30, 130]))), flt=rng.random() < 0.6, filt=None, sel=None,
             recalc=False, form=rng.choice(["list", "i64", "i32"]))
    r = rng.random()
    if r < 0.25:
        a["filt"] = rng.sample(range(cnt), rng.randint(0, min(cnt, rng.choice([6, 6, 90]))))
    elif r < 0.5:
        a["sel"] = rng.sample(range(cnt), rng.randint(1, min(cnt, rng.choice([12, 12, 150]))))
    return a


def mf_case(rng, size, wide=False):
    kind = rng.choice(MODELS)
    n, nu, f = rng.choice([2, 5, 9, 20]), rng.choice([3, 8, 40]), rng.choice([1, 2, 3])
    if wide:
        n, nu, f = rng.choice([70, 140, 300]), rng.choice([70, 300]), rng.choice([2, 9, 33, 70])
    lim = rng.choice([1, 3, 20])
    qs = []
    for _ in range(3):
        op = rng.choice(["rec", "rec", "simi", "simu"])
        a = gen_args(rng, op, n, nu)
        cnt = nu if op in ("rec", "simu") else n
        ids = [rng.randrange(cnt) for _ in range(size)]
        a["ids"] = ids
        if op == "rec":
            a["liked"] = [gen_liked(rng, n) for _ in ids]
            a["recalc"] = kind == "als" and rng.random() < 0.4
        if op == "simi" and kind == "als" and rng.random() < 0.4:
            a["recalc"] = True
            a["liked"] = [gen_liked(rng, nu) for _ in ids]
        qs.append(a)
    return dict(kind=kind, U=gen_vectors(rng, nu, f, -lim, lim), V=gen_vectors(rng, n, f, -lim, lim),
                dtype=rng.choice(["float32", "float64"]), threads=rng.choice([0, 1, 2, 3, 5, 8]),
                threads1=rng.choice([1, 2, 0]), qs=qs, alpha=rng.choice([1, 1, 3, 0.5]), wide=wide)


def fine_case(rng, size):
    """scores base + small integers, which take the full precision of the type"""
    c = mf_case(rng, size)
    c["base"] = 2**26 if c["dtype"] == "float64" else 2**21
    c["U"] = [[1, rng.randint(-3, 3)] for _ in c["U"]]
    c["V"] = [[c["base"] + rng.randint(0, 9), rng.randint(-3, 3)] for _ in c["V"]]
    if rng.random() < 0.5:      # ... or the factors of the users do
        c["U"] = [[c["base"] + rng.randint(0, 9), rng.randint(-3, 3)] for _ in c["U"]]
        c["V"] = [[1, rng.randint(-3, 3)] for _ in c["V"]]
    for a in c["qs"]:
        if a["op"] != "rec":
            a.update(op="rec", ids=[rng.randrange(len(c["U"])) for _ in a["ids"]], liked=[gen_liked(rng, len(c["V"])) for _ in a["ids"]],
                     filt=None, sel=None)
        a["recalc"] = False
    return c


def knn_case(rng, size, wide=False):
    kind = rng.choice(KNN)
    n, nu = rng.choice([2, 5, 9, 20, 45]), rng.choice([3, 8, 20])
    if wide:
        n, nu = rng.choice([70, 140, 300]), rng.choice([20, 60])
    qs = []
    for _ in range(3):
        op = rng.choice(["rec", "rec", "simi"])
        a = gen_args(rng, op, n, nu)
        ids = [rng.randrange(nu if op == "rec" else n) for _ in range(size)]
        a["ids"] = ids
        if op == "rec":
            a["liked"] = [gen_liked(rng, n) for _ in ids]
        qs.append(a)
    return dict(kind=kind, counts=gen_counts(rng, nu, n, rng.choice([0.1, 0.3, 0.7])),
                K=rng.choice([1, 3, 10, 50]), threads=rng.choice([0, 1, 2, 4]), qs=qs)


def call(m, op, ids, a, ui):
    kw = dict(N=a["N"])
    if op == "rec":
        kw["filter_already_liked_items"] = a["flt"]
        if a["recalc"]:
            kw["recalculate_user"] = True
        if a["filt"] is not None:
            kw["filter_items"] = as_list(a["filt"], a["form"])
        if a["sel"] is not None:
            kw["items"] = as_list(a["sel"], a["form"])
        return m.recommend(ids, ui, **kw)
    if op == "simi":
        if a["recalc"]:
            kw["recalculate_item"] = True
            kw["item_users"] = ui
        if a["filt"] is not None:
            kw["filter_items"] = as_list(a["filt"], a["form"])
        if a["sel"] is not None:
            kw["items"] = as_list(a["sel"], a["form"])
        return m.similar_items(ids, **kw)
    if a["filt"] is not None:
        kw["filter_users"] = as_list(a["filt"], a["form"])
    if a["sel"] is not None:
        kw["users"] = as_list(a["sel"], a["form"])
    return m.similar_users(ids, **kw)


def execute(case):
    if "counts" in case:
        m = new_knn(case["kind"], case["K"], case["threads"])
        m.fit(dense(case["counts"]), show_progress=False)
        n, nu = len(case["counts"][0]), len(case["counts"])
        single, padded = m, True
    else:
        kw = {"regularization": 2.0, "alpha": float(case["alpha"])} if case["kind"] == "als" else {}
        m = model_with(case["kind"], case["U"], case["V"], case["dtype"], 0, case["threads"],
                       **kw)
        single = model_with(case["kind"], case["U"], case["V"], case["dtype"], 0,
                            case["threads1"],
                            **kw)
        if case["kind"] == "als":
            for x in (m, single):
                x.dtype = np.dtype(case["dtype"])
        n, nu, padded = len(case["V"]), len(case["U"]), False
    ev, base = [], case.get("base", 0)
    for a in case["qs"]:
        op = a["op"]
        ui = csr_rows(a["liked"], n if op == "rec" else nu) if "liked" in a else None
        st, v = attempt(call, m, op, np.array(a["ids"]), a, ui)
        e = dict(op=op, N=a["N"], size=len(a["ids"]), res=st, padded=padded, tol=20,
                 bids=[], bsc=[], sids=[], ssc=[])
        if st == "ok":
            e["bids"] = [[int(x) for x in r] for r in v[0]]
            e["bsc"] = [[quant(float(x) - base, 10000) for x in r] for r in v[1]]
            for k, idx in enumerate(a["ids"]):
                st, v = attempt(call, single, op, idx, a, ui[k] if ui is not None else None)
                if st != "ok":
                    break
                e["sids"].append([int(x) for x in v[0]])
                e["ssc"].append([quant(float(x) - base, 10000) for x in v[1]])
            e["res"] = st
        if st != "ok":
            e["msg"] = v
        ev.append(e)
    return ev


def run(ctx):
    ctx.model_check("BatchPlan", "BatchPlan_none.cfg")
    ctx.model_check("BatchPlan", "BatchPlan_droptail.cfg", expect_violation="RowsOwnAnswer")
    ctx.model_check("BatchPlan", "BatchPlan_localfilter.cfg", expect_violation="RowsOwnAnswer")
    rng = ctx.rng
    cases = []
    big = [64, 99, 100, 101, 128, 150, 199, 200, 201, 256, 300, 333, 512, 801, 1001]
    for k in big * (5 if ctx.thorough else 1):
        cases.append(mf_case(rng, k))
        cases.append(mf_case(rng, k))
        cases.append(knn_case(rng, min(k, 330)))
    for _ in range(1000 if ctx.thorough else 150):
        cases.append(mf_case(rng, rng.choice([1, 2, 3, 7, 20])))
        cases.append(knn_case(rng, rng.choice([1, 2, 3, 7, 20])))
    for _ in range(60 if ctx.thorough else 12):
        cases.append(mf_case(rng, rng.choice([1, 7, 20, 40]), wide=True))
        cases.append(knn_case(rng, rng.choice([1, 7, 20, 40]), wide=True))
    for k in (1100, 2100):
        c = knn_case(rng, k)
        for a in c["qs"]:
            a["N"] = min(a["N"], 4)
        cases.append(c)
    for k in (2050, 4100):
        c = mf_case(rng, k)
        for a in c["qs"]:
            a["N"] = min(a["N"], 4)
        cases.append(c)
    cases += [fine_case(rng, k) for k in [1, 5, 99, 100, 101, 200, 330] * (10 if ctx.thorough else 3)]
    recs = ctx.drive(cases)
    ctx.validate("TraceBatch", recs)
    if not ctx.violations:
        def swap(r):
            for e in r["ev"]:
                for k in range(len(e["bids"])):
                    if len(e["bids"][k]) >= 2 and e["bsc"][k][0][0] == 0 and e["bsc"][k][1][0] == 0 \
                            and e["bsc"][k][0][1] > e["bsc"][k][1][1] + 100:
                        e["bids"][k][0], e["bids"][k][1] = e["bids"][k][1], e["bids"][k][0]
                        e["bsc"][k][0][1] = e["bsc"][k][1][1]
                        return r
        ctx.corrupt("TraceBatch", recs[-200:], swap, label="two results of a row exchanged")


def replay(ctx):
    ctx.validate("TraceBatch", ctx.drive(ctx.only_cases))
