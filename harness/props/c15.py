"""C15: saved or pickled models come back equivalent."""
import copy
import io
import os
import pickle
import tempfile

import numpy as np
from scipy.sparse import csr_matrix

from ..core import q as quant
from ..klib import KNN, knn_class
from ..qlib import MODELS, attempt, new_model, prog
from .c05 import Intern, content, rows_of
from .c06 import data

LEVEL = "model_checking"
ASSUMPTIONS = ["the histories of the specification up to a depth are replayed with random "
               "hyper-parameters; factors are compared to 4 digits, hyper-parameters exactly"]
DIMS = [6, 7]
WAYS = ["path", "npz", "bytesio", "file", "pickle0", "pickle2", "pickle5", "deepcopy", "odd"]
ODD = ["m.npz.old", "v1.npz", "x.NPZ", ".npz.d/m", "m.npzz", "a b.bin", "m\u00e9.npz.gz", "npz"]
HYPER = {
    "als": ["factors", "regularization", "alpha", "iterations", "use_native", "use_cg", "cg_steps",
            "calculate_training_loss", "num_threads", "dtype", "random_state"],
    "bpr": ["factors", "learning_rate", "regularization", "iterations", "verify_negative_samples",
            "num_threads", "dtype", "random_state"],
    "lmf": ["factors", "learning_rate", "regularization", "iterations", "neg_prop", "num_threads",
            "dtype", "random_state"],
    "item": ["K", "num_threads"], "cosine": ["K", "num_threads"], "tfidf": ["K", "num_threads"],
    "bm25": ["K", "num_threads", "K1", "B"],
}


def gen_hyper(rng, kind):
    if kind in KNN:
        h = dict(K=rng.choice([1, 2, 3, 5, 30]), num_threads=rng.choice([0, 1, 2]))
        if kind == "bm25":
            h.update(K1=rng.choice([0.3, 1.2, 5.5, 100]), B=rng.choice([0.0, 0.1, 0.75, 1.0]))
        return h
    h = dict(factors=rng.choice([1, 2, 3, 8]), iterations=rng.choice([1, 2, 3]),
             regularization=rng.choice([0.0, 0.01, 0.3, 2]) if kind != "als" else rng.choice([0.1, 0.3, 2]),
             num_threads=rng.choice([0, 1, 2, 5]) if kind == "als" else rng.choice([1, 1, 1, 2, 0, 5]),
             random_state=rng.choice([None, 0, 1, 42, 12345, 2**31 + 7]))
    if kind == "als":
        h.update(alpha=rng.choice([0.5, 1.0, 3, 40]), use_native=rng.random() < 0.7, use_cg=rng.random() < 0.6,
                 calculate_training_loss=rng.random() < 0.3, cg_steps=rng.choice([1, 2, 3, 5]),
                 dtype=rng.choice(["float32", "float64"]))
    elif kind == "bpr":
        h.update(learning_rate=rng.choice([0.02, 0.1, 0.5]), verify_negative_samples=rng.random() < 0.5,
                 dtype=rng.choice(["float32", "float64"]))
    else:
        h.update(learning_rate=rng.choice([0.1, 0.7, 1.0]), neg_prop=rng.choice([0, 1, 3, 30]))
    return h


def build(kind, h):
    h = dict(h)
    if "cg_steps" in h:
        steps = h.pop("cg_steps")
    if "dtype" in h:
        h["dtype"] = np.dtype(h["dtype"])
    m = knn_class(kind)(**h) if kind in KNN else new_model(kind, **h)
    if kind == "als":
        m.cg_steps = steps
    return m


def norm(v):
    if isinstance(v, (np.dtype, type)):
        return str(np.dtype(v))
    if v is None or isinstance(v, str):
        return v
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    return float(v)


def through(m, way, d, nth=None):
    if way.startswith("pickle"):
        return pickle.loads(pickle.dumps(m, protocol=int(way[-1])))
    if way == "deepcopy":
        return copy.deepcopy(m)
    if way == "bytesio":
        f = io.BytesIO()
        m.save(f)
        f.seek(0)
        return type(m).load(f)
    p = os.path.join(d, f"model{len(os.listdir(d))}.{'npz' if way == 'npz' else 'bin'}")
    if way == "file":
        with open(p, "wb") as f:
            m.save(f)
        with open(p, "rb") as f:
            return type(m).load(f)
    if way == "path":
        p = p[:-4]
    if way == "odd":
        k = len(os.listdir(d))
        p = os.path.join(d, str(k), ODD[k % len(ODD)] if nth is None else ODD[nth % len(ODD)])
        os.makedirs(os.path.dirname(p))
    if nth is not None and nth % 3 == 0:        # over an earlier file
        type(m)().save(p)
    m.save(p)
    return type(m).load(p)


def execute(case):
    kind = case["kind"]
    rs = np.random.RandomState(case["seed"])
    NU, NI = case.get("dims") or DIMS
    d = data(rs, NU, NI)
    qd = data(rs, NU, NI)
    d2 = data(rs, 2, NI)
    intern = Intern()
    hyp = HYPER[kind]
    m = {"A": build(kind, case["hyper"]), "B": None}

    def state(x):
        if x is None:
            return 0
        return 1 + intern(content(x), [norm(getattr(x, n)) for n in hyp])

    def factors(x, digits=0):
        """at scale 10^4, or relative to the largest value"""
        if kind in KNN:
            f = [] if x.similarity is None else [np.asarray(x.similarity.todense())]
        else:
            f = [np.asarray(y) for y in (x.user_factors, x.item_factors) if y is not None]
        s = [10**digits / max(1e-30, float(np.abs(a).max(initial=0))) if digits else 10000 for a in f]
        return [[quant(v, s[k]) for v in row] for k, a in enumerate(f) for row in a]

    def fitted(x):
        return (x.similarity if kind in KNN else x.user_factors) is not None

    def answers(x):
        if not fitted(x):
            return [], []
        ids, sc = [], []
        jobs = [lambda: x.recommend(np.arange(NU), qd, N=4), lambda: x.similar_items(np.arange(NI), N=7)]
        if kind not in KNN:
            jobs.append(lambda: x.similar_users(np.arange(NU), N=6))
        if kind == "als":
            jobs.append(lambda: x.recommend(np.arange(NU), qd, N=4, recalculate_user=True))
        for j in jobs:
            a, b = rows_of(j())
            ids += a
            sc += b
        return ids, sc

    def train(x, t):
        if t == "fit":
            x.fit(d, show_progress=prog())
        else:
            x.partial_fit_users(np.array([1, 3]), d2)
    ev = []
    start = state(m["A"])
    with tempfile.TemporaryDirectory(prefix="verif-c15-") as tmp:
        for k, (op, arg) in enumerate(case["hist"]):
            deterministic = (case["hyper"].get("random_state") is not None and
                             (kind == "als" or case["hyper"]["num_threads"] == 1)) or kind in KNN or \
                (kind == "als" and fitted(m["A"]))
            if op == "copy":
                if case["queries"]:
                    attempt(answers, m["A"])
                st, v = attempt(through, m["A"], case["ways"][k % len(case["ways"])], tmp, case["seed"])
                if st == "ok":
                    m["B"] = v
            elif op == "swap":
                m["A"], m["B"] = m["B"], m["A"]
                st, v = "ok", None
            elif op == "both":
                st, v = attempt(train, m["A"], arg)
                if st == "ok":
                    st, v = attempt(train, m["B"], arg)
                if not deterministic:
                    op = "different"
            else:
                st, v = attempt(train, m[op], arg)
            e = dict(op=op, res=st, tol=10, cls=True, ca=0, cb=0, ha=[], hb=[], fa=[], fb=[], qai=[], qas=[], qbi=[], qbs=[])
            if st != "ok" and "posv" in str(v):     # a system too ill-conditioned for the data type
                break
            if st != "ok":
                e["msg"] = str(v)
                ev.append(e)
                break
            e["ca"], e["cb"] = state(m["A"]), state(m["B"])
            if op in ("copy", "both"):
                a, b = m["A"], m["B"]
                e["cls"] = type(a) is type(b)
                e["ha"] = [str(norm(getattr(a, n, "missing"))) for n in hyp]
                e["hb"] = [str(norm(getattr(b, n, "missing"))) for n in hyp]
                # a copy holds the same numbers; training twice gives the same up to rounding
                e["fa"], e["fb"] = (factors(x, 7 if op == "copy" else 0) for x in (a, b))
                (e["qai"], e["qas"]), (e["qbi"], e["qbs"]) = answers(a), answers(b)
            ev.append(e)
            if op == "different":
                # the histories of the two models diverge from here on
                break
    return {"ca": start}, ev


def run(ctx):
    ctx.model_check("SaveLoad", "SaveLoad_deep.cfg" if ctx.thorough else "SaveLoad_none.cfg")
    ctx.model_check("SaveLoad", "SaveLoad_alias.cfg", expect_violation="Independent")
    ctx.model_check("SaveLoad", "SaveLoad_lostparam.cfg", expect_violation="Equivalent")
    ctx.model_check("SaveLoad", "SaveLoad_lostfactors.cfg", expect_violation="Equivalent")
    rng = ctx.rng
    hist = ctx.generate("SaveLoad", "SaveLoad_gen3.cfg", workers=1)
    als = ctx.generate("SaveLoad", "SaveLoad_genalsdeep.cfg" if ctx.thorough else "SaveLoad_genals.cfg", workers=1)
    cases = []

    def add(kind, h):
        ways = rng.sample(WAYS, 3)
        cases.append(dict(kind=kind, hist=h, hyper=gen_hyper(rng, kind), seed=rng.randrange(10**6), ways=ways,
                          queries=rng.random() < 0.5))
    for kind in MODELS + KNN:
        for way in range(6 if ctx.thorough else 2):
            for h in hist:
                add(kind, h)
    for h in als:
        for _ in range(3 if ctx.thorough else 1):
            add("als", h)
    # all parameters survive, fitted and not
    for kind in MODELS + KNN:
        for w in WAYS:
            for h in ([["copy", "x"], ["both", "fit"]], [["A", "fit"], ["copy", "x"], ["both", "fit"], ["A", "fit"]]):
                for _ in range(12 if ctx.thorough else 4):
                    add(kind, h)
                    cases[-1]["ways"] = [w]
    for kind in MODELS + KNN:
        for w in WAYS[:4] + ["pickle5"]:
            for _ in range(6 if ctx.thorough else 1):
                add(kind, [["A", "fit"], ["copy", "x"], ["both", "fit"], ["A", "fit"]])
                cases[-1].update(ways=[w], dims=rng.choice([[70, 12], [12, 70], [40, 40]]))
                if "factors" in cases[-1]["hyper"]:
                    cases[-1]["hyper"]["factors"] = rng.choice([9, 33, 65])
    # one user, one item, one factor: arrays of a single value
    for kind in MODELS + KNN:
        for w in WAYS[:4] + ["pickle5"]:
            for dims in ([1, 1], [1, 5], [5, 1]):
                add(kind, [["A", "fit"], ["copy", "x"], ["both", "fit"], ["A", "fit"]])
                cases[-1].update(ways=[w], dims=dims)
                if "factors" in cases[-1]["hyper"]:
                    cases[-1]["hyper"]["factors"] = 1
    recs = ctx.drive(cases)
    ctx.validate("TraceSave", recs)
    if not ctx.violations:
        def param(r):
            for e in r["ev"]:
                if e["op"] == "copy":
                    e["hb"][-1] = "999"
                    return r

        def alias(r):
            for e in r["ev"]:
                if e["op"] in "AB" and e["cb"]:
                    e["ca"] += 100
                    e["cb"] += 100
                    return r
        ctx.corrupt("TraceSave", recs[::3], param, label="a hyper-parameter lost")
        ctx.corrupt("TraceSave", recs[::3], alias, label="both models change")


def replay(ctx):
    ctx.validate("TraceSave", ctx.drive(ctx.only_cases))
