"""C22: the entry points agree: factories, classes and the deprecated calls."""
import warnings

import numpy as np
from scipy.sparse import csr_matrix

from ..core import q as quant
from ..klib import gen_counts
from ..qlib import attempt, gen_liked, gen_vectors, new_model, pick_N, prog

LEVEL = "model_checking"
ASSUMPTIONS = ["use_gpu is only exercised as False (no GPU here)", "parameters are observed as the public attributes of the "
               "same name, and through the fitted factors"]
MF = ("als", "bpr", "lmf")
# documented defaults, and other values
DEFAULT = {
    "als": dict(factors=100, regularization=0.01, alpha=1.0, dtype="float32", use_native=True, use_cg=True, use_gpu=False,
                iterations=15, calculate_training_loss=False, num_threads=0, random_state=None),
    "bpr": dict(factors=100, learning_rate=0.01, regularization=0.01, dtype="float32", iterations=100, use_gpu=False,
                num_threads=0, verify_negative_samples=True, random_state=None),
    "lmf": dict(factors=30, learning_rate=1.0, regularization=0.6, dtype="float32", iterations=30, neg_prop=30, use_gpu=False,
                num_threads=0, random_state=None),
    "item": dict(K=20, num_threads=0), "cosine": dict(K=20, num_threads=0), "tfidf": dict(K=20, num_threads=0),
    "bm25": dict(K=20, K1=1.2, B=0.75, num_threads=0),
    "annoy_als": dict(approximate_similar_items=True, approximate_recommend=True, n_trees=50, search_k=-1),
    "faiss_als": dict(approximate_similar_items=True, approximate_recommend=True, nlist=400, nprobe=20),
    "nmslib_als": dict(approximate_similar_items=True, approximate_recommend=True, method="hnsw",
                       index_params={"M": 16, "post": 0, "efConstruction": 400}, query_params={"ef": 90}),
}
for _k in ("annoy_als", "faiss_als", "nmslib_als"):
    DEFAULT[_k] = {**DEFAULT["als"], **DEFAULT[_k]}
VALUES = dict(factors=[7, 3, 12], regularization=[0.125, 0.5, 2.0], alpha=[2.5, 0.25, 4.0], dtype=["float64"], use_native=[False],
              use_cg=[False], use_gpu=[False], iterations=[3, 1, 6], calculate_training_loss=[True], num_threads=[2, 1, 3],
              random_state=[5, 11, 42], learning_rate=[0.25, 0.0625, 0.5], verify_negative_samples=[False], neg_prop=[4, 2, 9],
              K=[3, 5, 2], K1=[2.5, 0.5, 100.0], B=[0.25, 0.5, 0.125], approximate_similar_items=[False],
              approximate_recommend=[False], n_trees=[7, 9], search_k=[123, 456], nlist=[5, 6], nprobe=[3, 4],
              method=["brute_force"], index_params=[{"M": 8, "post": 1, "efConstruction": 100}], query_params=[{"ef": 33}, {}])


def make(entry, args, kw):
    import implicit.approximate_als as ann
    import implicit.nearest_neighbours as nn
    from implicit.cpu import als, bpr, lmf
    cls = {"cpu.als": als.AlternatingLeastSquares, "cpu.bpr": bpr.BayesianPersonalizedRanking,
           "cpu.lmf": lmf.LogisticMatrixFactorization, "als": implicit_mod("als").AlternatingLeastSquares,
           "bpr": implicit_mod("bpr").BayesianPersonalizedRanking, "lmf": implicit_mod("lmf").LogisticMatrixFactorization,
           "annoy_als": ann.AnnoyAlternatingLeastSquares, "faiss_als": ann.FaissAlternatingLeastSquares,
           "nmslib_als": ann.NMSLibAlternatingLeastSquares, "item": nn.ItemItemRecommender, "cosine": nn.CosineRecommender,
           "tfidf": nn.TFIDFRecommender, "bm25": nn.BM25Recommender}[entry]
    return cls(*args, **kw)


def implicit_mod(name):
    import importlib
    return importlib.import_module("implicit." + name)


def real(p, v):
    return np.dtype(v).type if p == "dtype" and v is not None else v


def same(a, b):
    if isinstance(b, dict) or b is None or isinstance(b, (bool, str)):
        return type(a) is type(b) and a == b
    return not isinstance(a, bool) and a == b


def execute(case):
    warnings.simplefilter("ignore")
    return {"make": run_make, "fit": run_fit, "rank": run_rank, "all": run_all}[case["kind"]](case)


def build(case):
    vals = {p: VALUES[p][case["pick"] % len(VALUES[p])] for p in case["params"]}
    args = [real(p, vals[p]) for p in case["params"][:case["k"]]]
    return vals, attempt(make, case["entry"], args, {p: real(p, vals[p]) for p in case["named"]})


def run_make(case):
    vals, (st, m) = build(case)
    e = dict(op="make", entry=case["entry"], k=case["k"], named=case["named"], res=st, msg=str(m)[:200] if st != "ok" else "", obs={})
    if st == "ok":
        dflt = DEFAULT[case["entry"].replace("cpu.", "")]
        for p in case["params"]:
            holder = m.model if hasattr(m, "model") and p in DEFAULT["als"] and p != "use_gpu" else m
            if not hasattr(holder, p):
                e["obs"][p] = 3
                continue
            own = getattr(holder, p)
            if p == "dtype":
                own = np.dtype(own).name
            e["obs"][p] = 1 if same(own, vals[p]) and p in case["params"][:case["k"]] + case["named"] else \
                0 if same(own, dflt[p]) else 1 if same(own, vals[p]) else 2
    return [e]


def ints(a, s=10000):
    return [[int(max(-10**8, min(10**8, round(float(x) * s)))) for x in r] for r in np.asarray(a)]


def run_fit(case):
    """the same data through the entry point and through the class, all parameters by name"""
    vals, (st, m) = build(case)
    entry = case["entry"]
    base = {"annoy_als": "als", "faiss_als": "als", "nmslib_als": "als"}.get(entry, entry.replace("cpu.", ""))
    given = set(case["params"][:case["k"]] + case["named"])
    want = {p: (vals[p] if p in given else v) for p, v in DEFAULT[base].items() if p != "use_gpu"}
    ref = make("cpu." + base, [], {p: real(p, v) for p, v in want.items()})
    e = dict(op="fit", entry=entry, res=st, msg=str(m)[:200] if st != "ok" else "")
    if st != "ok":
        return [e]
    M = csr_matrix(np.array(case["D"], dtype=np.float32))
    out = []
    for x in (m, ref):
        calls = []
        st, v = attempt(x.fit, M, show_progress=prog(), callback=lambda *a: calls.append([float(t) if t is not None else -1 for t in a]))
        if st != "ok":
            return [dict(e, res=st, msg=str(v)[:200])]
        mf = getattr(x, "model", x)
        U, V = np.asarray(mf.user_factors), np.asarray(mf.item_factors)
        # the callback's loss (ALS): there, or not
        out.append((len(calls), [len(c) for c in calls[:1]] + [int(len(c) > 2 and c[2] >= 0) for c in calls[:1]], U, V))
    (n1, c1, U1, V1), (n2, c2, U2, V2) = out
    e.update(cols=[int(U1.shape[1]), int(V1.shape[1])], wcols=[want["factors"] + {"als": 0, "bpr": 1, "lmf": 2}[base]] * 2,
             dt=[U1.dtype.name, V1.dtype.name], wdt=[want["dtype"]] * 2, calls=[n1] + c1, wcalls=[want["iterations"]] + c2,
             v=ints(U1) + ints(V1), w=ints(U2) + ints(V2), tol=30 if base == "als" else 2)
    return [e]


def rows2(v, batch, scale=1000.0):
    i, s = np.asarray(v[0]), np.asarray(v[1])
    if not batch:
        i, s = i.reshape(1, -1), s.reshape(1, -1)
    return [[int(x) for x in r] for r in i], [[quant(x, scale) for x in r] for r in s]


def model_of(case):
    if case["model"] in MF:
        kw = dict(regularization=0.5, dtype=np.dtype(case["dtype"])) if case["model"] == "als" else {}
        m = new_model(case["model"], factors=len(case["V"][0]), num_threads=case["nt"], **kw)
        m.user_factors = np.array(case["U"], dtype=case["dtype"])
        m.item_factors = np.array(case["V"], dtype=case["dtype"])
        return m
    m = make(case["model"], [], dict(K=case["K"], num_threads=case["nt"]))
    m.fit(csr_matrix(np.array(case["D"], dtype=np.float32)), show_progress=prog())
    return m


def csr(rows, n):
    indptr = np.cumsum([0] + [len(r) for r in rows])
    return csr_matrix((np.array([v for r in rows for _, v in r], dtype=np.float32),
                       np.array([j for r in rows for j, _ in r], dtype=np.int32), indptr), shape=(len(rows), n))


def model_case(rng, kinds):
    n, nu, f = rng.choice([1, 2, 5, 11, 15, 30, 60]), rng.randint(1, 9), rng.choice([1, 2, 4])
    kind = rng.choice(kinds)
    c = dict(model=kind, nt=rng.choice([0, 1, 3]), n=n, nu=nu)
    if kind in MF:
        c.update(U=gen_vectors(rng, nu, f, -5, 5), V=gen_vectors(rng, n, f, -5, 5), dtype=rng.choice(["float32", "float64"]))
    else:
        c.update(D=gen_counts(rng, nu, n, 0.5), K=rng.choice([1, 3, 20, 100]))
    return c


def liked_row(rng, n):
    return [[j, rng.choice([1, 1, 2, 3])] for j in sorted(gen_liked(rng, n))]


def rank_case(rng):
    c = model_case(rng, MF + ("item", "cosine", "tfidf", "bm25"))
    c["kind"] = "rank"
    c["qs"] = []
    for _ in range(4):
        sel = rng.sample(range(c["n"]), rng.randint(1, c["n"]))
        if rng.random() < 0.25:
            sel = sel + rng.choices(sel, k=rng.choice([1, 4]))
        c["qs"].append(dict(u=rng.randrange(c["nu"]), row=liked_row(rng, c["n"]), sel=sel, recalc=c["model"] == "als" and rng.random() < 0.3,
                            form=rng.choice(["list", "i32", "i64"]), how=rng.choice(["pos", "kw"])))
    return c


def sel_of(q):
    return q["sel"] if q["form"] == "list" else np.array(q["sel"], dtype="int32" if q["form"] == "i32" else "int64")


def run_rank(case):
    m = model_of(case)
    ev = []
    for q in case["qs"]:
        M = csr([q["row"]], case["n"])
        if q["how"] == "pos":
            st, v = attempt(m.rank_items, q["u"], M, sel_of(q), q["recalc"])
        else:
            st, v = attempt(m.rank_items, userid=q["u"], user_items=M, selected_items=sel_of(q), recalculate_user=q["recalc"])
        e = dict(op="rank", res=st, msg=str(v)[:200] if st != "ok" else "", sel=q["sel"], mf=case["model"] in MF, tol=2)
        if st == "ok":
            w = m.recommend(q["u"], M, N=len(set(q["sel"])), items=np.array(q["sel"]), filter_already_liked_items=False,
                            recalculate_user=q["recalc"])
            a, b = rows2(v, False), rows2(w, False)
            e.update(ids=a[0], sc=a[1], wids=b[0], wsc=b[1])
        ev.append(e)
    return ev


def all_case(rng):
    c = model_case(rng, MF)
    c["kind"] = "all"
    c["qs"] = []
    for _ in range(4):
        off = rng.choice([0, 0, 0, rng.randrange(c["nu"])])
        rows = rng.randint(1, c["nu"] - off)
        q = dict(off=off, rows=[liked_row(rng, c["n"]) for _ in range(rows)], recalc=c["model"] == "als" and rng.random() < 0.3,
                 flt=rng.random() < 0.6, filt=None, N=pick_N(rng, c["n"]), given=sorted(rng.sample(["N", "recalc", "flt", "filt", "off"], 5)))
        if rng.random() < 0.4:
            q["filt"] = rng.sample(range(c["n"]), rng.randint(0, c["n"]))
        c["qs"].append(q)
    return c


def run_all(case):
    m = model_of(case)
    ev = []
    for q in case["qs"]:
        M = csr(q["rows"], case["n"])
        kw = dict(N=q["N"], recalculate_user=q["recalc"], filter_already_liked_items=q["flt"], filter_items=q["filt"])
        st, v = attempt(m.recommend_all, M, users_items_offset=q["off"], **kw)
        e = dict(op="all", res=st, msg=str(v)[:200] if st != "ok" else "", tol=2)
        if st == "ok":
            w = m.recommend(np.arange(len(q["rows"])) + q["off"], M, **kw)
            wids, wsc = rows2(w, True)
            e.update(ids=[[int(x) for x in r] for r in np.asarray(v)], wids=wids, wsc=wsc)
        ev.append(e)
    return ev


def fit_case(rng, shape):
    need = ["random_state"] + ([] if shape["entry"].endswith("als") else ["num_threads"])
    # (brute_force takes no index parameters)
    named = [p for p in shape["named"] if p != "method"] + [p for p in need if p not in shape["params"][:shape["k"]] + shape["named"]]
    if shape["entry"] == "faiss_als" and "nlist" not in named:
        named.append("nlist")                                       # the default needs 400 items
    D = gen_counts(rng, rng.choice([3, 6, 12]), rng.choice([6, 9] if shape["entry"] == "faiss_als" else [2, 5, 9]), 0.5)
    D[0][0] = 1
    return dict(shape, kind="fit", named=named, D=D, pick=1)        # the second value of num_threads is 1


def run(ctx):
    ctx.model_check("Facade", "Facade_deep.cfg" if ctx.thorough else "Facade_none.cfg")
    for bug in ("byposition", "drop", "swap"):
        ctx.model_check("Facade", f"Facade_{bug}.cfg", expect_violation="Right")
    rng = ctx.rng
    shapes = ctx.generate("Facade", "Facade_gendeep.cfg" if ctx.thorough else "Facade_gen.cfg")
    cases = [dict(s, kind="make", pick=rng.randrange(3)) for s in shapes]
    mf = [s for s in shapes if s["entry"] not in ("item", "cosine", "tfidf", "bm25")]
    cases += [fit_case(rng, s) for s in (mf if len(mf) < 4000 else rng.sample(mf, 4000))[::1 if ctx.thorough else 2]]
    k = 10 if ctx.thorough else 1
    cases += [rank_case(rng) for _ in range(200 * k)] + [all_case(rng) for _ in range(200 * k)]
    rng.shuffle(cases)
    recs = ctx.drive(cases)
    ctx.validate("TraceFacade", recs)
    if not ctx.violations:
        def lost(r):
            for e in r["ev"]:
                if e["op"] == "make" and e["named"]:
                    e["obs"][e["named"][0]] = 0
                    return r

        def short(r):
            for e in r["ev"]:
                if e["op"] == "rank" and len(e["ids"][0]) > 1:
                    e["ids"][0].pop()
                    e["sc"][0].pop()
                    return r
        ctx.corrupt("TraceFacade", recs[:400], lost, label="a given parameter has its default")
        ctx.corrupt("TraceFacade", recs[:400], short, label="a selected item is not ranked")


def replay(ctx):
    ctx.validate("TraceFacade", ctx.drive(ctx.only_cases))
