"""C14: ranking metrics equal their definitions."""
import numpy as np

from ..core import q as quant
from ..klib import KNN, dense, gen_counts, new_knn
from ..qlib import MODELS, attempt, csr_rows, gen_vectors, model_with, prog

LEVEL = "model_checking"
ASSUMPTIONS = ["metrics are compared to 10^-5; a test user has at least one item that is not in the test set"]


class Stub:
    """a model that recommends prescribed lists, whatever the grouping of the users"""

    def __init__(self, lists, train, width):
        self.lists, self.train, self.width, self.ok = lists, train, width, True

    def recommend(self, userid, user_items, N=10, filter_already_liked_items=True, **kw):
        ids = np.atleast_1d(np.asarray(userid))
        if user_items.shape[0] != len(ids) or not filter_already_liked_items:
            self.ok = False
        w = min(N, self.width) if self.width is not None else N
        out = np.full((len(ids), w), -1, dtype=np.int32)
        for k, u in enumerate(ids):
            if sorted(user_items[k].indices.tolist()) != sorted(self.train[int(u)]):
                self.ok = False
            lst = self.lists[int(u)][:w]
            out[k, :len(lst)] = lst
        sc = np.linspace(1, 0, w, dtype=np.float32) * np.ones((len(ids), 1), dtype=np.float32)
        return (out, sc) if not np.isscalar(userid) else (out[0], sc[0])


class Recorder:
    """a real model; remembers the lists it returned"""

    def __init__(self, model, train, users):
        self.model, self.train, self.ok = model, train, True
        self.lists = [[] for _ in range(users)]

    def recommend(self, userid, user_items, *a, **kw):
        ids, sc = self.model.recommend(userid, user_items, *a, **kw)
        for k, u in enumerate(np.atleast_1d(np.asarray(userid))):
            self.lists[int(u)] = [int(x) for x in np.atleast_2d(ids)[k]]
            if sorted(user_items[k].indices.tolist()) != sorted(self.train[int(u)]):
                self.ok = False
        return ids, sc


def stub_case(rng, nt=None, wide=False):
    """nt: the number of users with test items"""
    nu, ni = nt or rng.choice([1, 2, 3, 5, 9]), rng.choice([2, 3, 5, 9, 20])
    K = rng.choice([1, 2, 3, 5, 10, 30])
    if wide == "long":
        nu, ni, K = 3, 1590, rng.choice([250, 500, 999, 1000, 1001, 1200, 1500])
    elif wide:
        ni, K = rng.choice([60, 130, 190]), rng.choice([20, 30, 64, 100, 101, 150, 189])
    test, train, lists = [], [], []
    while (len([t for t in test if t]) if nt else len(test)) < nu:
        items = list(range(ni))
        rng.shuffle(items)
        p = rng.choice([0, 0.2, 0.5, 0.9])
        t = [j for j in items[:-1] if rng.random() < p]
        tr = [j for j in items if j not in t and rng.random() < 0.2]
        rng.shuffle(items)
        lst = [j for j in items if j not in tr]
        if rng.random() < 0.3:
            lst = sorted(lst, key=lambda j: j not in t)          # the perfect list
        if rng.random() < 0.5:
            lst = lst[:rng.randint(0, len(lst))]                # -1 padding
        test.append(t)
        train.append(tr)
        lists.append(lst)
    if not any(test):
        test[0] = [0]
        lists[0] = [j for j in lists[0]]
        train[0] = [j for j in train[0] if j != 0]
    return dict(what="stub", ni=ni, K=K, test=test, train=train, lists=lists,
                width=rng.choice([None, None, max(1, K // 2), ni]), fmt=rng.choice(["csr", "coo"]))


def repeated_case(rng, total):
    """every user of a small case many times over: the metrics stay the same"""
    c = stub_case(rng, rng.choice([3, 5, 8]))
    return dict(c, rep=1 + total // len(c["test"]))


def real_case(rng, wide=False):
    kind = rng.choice(MODELS + KNN)
    nu, ni = rng.choice([1, 3, 8]), rng.choice([2, 4, 8, 15])
    if wide:
        nu, ni = rng.choice([5, 150]), rng.choice([60, 130])
    test, train = [], []
    for _ in range(nu):
        t = [j for j in range(1, ni) if rng.random() < rng.choice([0, 0.2, 0.6])]
        test.append(t)
        train.append([j for j in range(ni) if j not in t and rng.random() < 0.4])
    if not any(test):
        test[0], train[0] = [1], [j for j in train[0] if j != 1]
    c = dict(what=kind, ni=ni, K=rng.choice([1, 2, 4, 10] if not wide else [5, 30, 64, 100, 120]), test=test, train=train, fmt="csr")
    if kind in MODELS:
        c.update(U=gen_vectors(rng, nu, 3, -3, 3), V=gen_vectors(rng, ni, 3, -9, 9, 0, 0))
    else:
        c.update(counts=gen_counts(rng, 6, ni, 0.5))
    return c


def execute(case):
    from implicit import evaluation as ev
    ni, K, test, train = case["ni"], case["K"], case["test"], case["train"]
    rep = case.get("rep", 1)
    train = [x for x in train for _ in range(rep)]
    tr, te = csr_rows(train, ni), csr_rows([x for x in test for _ in range(rep)], ni)
    if case["what"] == "stub":
        w = case["width"]
        model = Stub([x for x in case["lists"] for _ in range(rep)], train, w)
        lists = [x[:w] if w is not None else x for x in case["lists"]]
    else:
        if case["what"] in MODELS:
            model = model_with(case["what"], case["U"], case["V"])
        else:
            model = new_knn(case["what"], 20, 1)
            model.fit(dense(case["counts"]), show_progress=prog())
        model = Recorder(model, train, len(test))
    args = (te if case["fmt"] == "csr" else te.tocoo())
    st, v = attempt(ev.ranking_metrics_at_k, model, tr if case["fmt"] == "csr" else tr.tocoo(), args, K=K, show_progress=prog(), num_threads=K % 3)
    e = dict(op="metrics", res=st, m=[], single=[])
    if case["what"] != "stub":
        lists = [list(x) for x in model.lists]
    if st != "ok":
        e["msg"] = v
    else:
        e["m"] = [quant(v[k], 1e6) for k in ("precision", "map", "ndcg", "auc")]
        one = []
        for fn in (ev.precision_at_k, ev.mean_average_precision_at_k, ev.ndcg_at_k, ev.AUC_at_k):
            st, x = attempt(fn, model, tr, te, K=K, show_progress=prog())
            one.append(quant(x, 1e6) if st == "ok" else [3, 0])
        e["single"] = one
        if getattr(model, "ok", True) is not True:
            e["res"] = "recommend called with the wrong training rows"
    return {"test": test, "list": lists, "ni": ni, "K": K}, [e]


def run(ctx):
    ctx.model_check("MCLogs")
    ctx.model_check("MetricsLoop", "MetricsLoop_deep.cfg" if ctx.thorough else "MetricsLoop_none.cfg")
    for bug in ("keeplikes", "keephits", "droptail", "padmiss"):
        ctx.model_check("MetricsLoop", f"MetricsLoop_{bug}.cfg", expect_violation="Definitions")
    rng = ctx.rng
    cases = [stub_case(rng) for _ in range(15000 if ctx.thorough else 2000)]
    cases += [real_case(rng) for _ in range(3000 if ctx.thorough else 500)]
    cases += [stub_case(rng, wide=True) for _ in range(300 if ctx.thorough else 60)]
    cases += [real_case(rng, wide=True) for _ in range(200 if ctx.thorough else 40)]
    cases += [stub_case(rng, wide="long") for _ in range(60 if ctx.thorough else 12)]
    sizes = [999, 1000, 1001, 1300, 2001] + ([2000, 1999, 2100] if ctx.thorough else [])
    cases += [stub_case(rng, n) for n in sizes]
    cases += [repeated_case(rng, n) for n in [5000, 9000, 12000] + ([20000, 35000, 70000] if ctx.thorough else [])]
    recs = ctx.drive(cases)
    ctx.validate("TraceMetrics", recs)
    if not ctx.violations:
        def shift(k):
            def f(r):
                m = r["ev"][0]["m"]
                m[k][1] += 30
                r["ev"][0]["single"] = m
                return r
            return f
        for k, name in enumerate(["precision", "map", "ndcg", "auc"]):
            ctx.corrupt("TraceMetrics", recs[:150], shift(k), label=f"{name} off by 0.00003")


def replay(ctx):
    ctx.validate("TraceMetrics", ctx.drive(ctx.only_cases))
