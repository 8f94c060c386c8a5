"""C20: training is reproducible from random_state alone."""
import hashlib
import pickle
import random

import numpy as np

from ..qlib import attempt, new_model, prog
from .c06 import data

LEVEL = "model_checking"
ASSUMPTIONS = ["the histories of the specification up to a depth are replayed, each in two processes; factors are "
               "compared to 3 digits (reductions may be reordered by threads)"]
NU, NI = 7, 8
KINDS = ["als", "bpr", "lmf"]


def globals_digest():
    s = np.random.get_state()
    return hashlib.sha1(pickle.dumps((s[0], s[1].tobytes(), s[2:], random.getstate()))).hexdigest()[:10]


def rstate(kind, seed):
    return {"int": lambda: seed, "npint": lambda: np.int64(seed), "RandomState": lambda: np.random.RandomState(seed),
            "Generator": lambda: np.random.default_rng(seed),
            "PCG": lambda: np.random.Generator(np.random.PCG64(seed))}[kind]()


def ints(a, s=1000):
    return [[int(max(-10**8, min(10**8, round(float(x) * s)))) if x == x else 10**9 for x in r] for r in np.asarray(a)]


def gen_params(rng, kind):
    p = dict(factors=rng.choice([2, 3, 6]), iterations=rng.choice([0, 1, 2, 4]))
    if kind == "als":
        p.update(regularization=rng.choice([0.1, 1.0]), use_cg=rng.random() < 0.5, use_native=rng.random() < 0.7,
                 calculate_training_loss=rng.random() < 0.2, dtype=rng.choice(["float32", "float64"]))
    elif kind == "bpr":
        p.update(learning_rate=rng.choice([0.05, 0.3]), verify_negative_samples=rng.random() < 0.6,
                 dtype=rng.choice(["float32", "float64"]))
    else:
        p.update(learning_rate=rng.choice([0.3, 1.0]), neg_prop=rng.choice([0, 1, 5, 30]))
    return p


def gen_seeds(rng):
    a = rng.choice([0, 1, rng.randrange(10**6), 2**31 - 1, 2**32 - 1])
    b = rng.choice([a ^ (1 << rng.randrange(32)), rng.randrange(10**6), 0, 1, 2**31])
    return rng.choice([[a, b], [b, a]]) if a != b else [a, a ^ 1]


def gen_case(rng, hist, kind=None):
    kind = kind or rng.choice(KINDS)
    return dict(hist=hist, kind=kind, params=gen_params(rng, kind), seeds=gen_seeds(rng), data=rng.randrange(1000),
                rs=rng.choice(["int", "int", "npint", "RandomState", "Generator", "PCG"]), fits=rng.choice([1, 1, 2]),
                nts=[rng.choice([0, 1, 2, 3, 8]) for _ in hist], split=rng.choice(["tts", "lko"]),
                distract=rng.choice(KINDS), fmt=rng.choice(["csr", "csc", "coo"]))


def train(kind, params, nt, rs, d, fits):
    p = dict(params)
    if "dtype" in p:
        p["dtype"] = np.dtype(p["dtype"])
    m = new_model(kind, num_threads=nt, random_state=rs, **p)
    for _ in range(fits):
        m.fit(d.copy(), show_progress=prog())
    return m


def execute(case):
    from implicit.evaluation import leave_k_out_split, train_test_split
    d = data(np.random.RandomState(case["data"]), *case.get("dims", [NU, NI]))
    kind, ev, model = case["kind"], [], None
    nt0 = case["nts"][0]
    for (op, s), nt in zip(case["hist"], case["nts"]):
        nt = {"als": nt, "bpr": 1, "lmf": nt0}[kind]
        g0 = globals_digest()
        e = dict(op="random", g0=g0)
        if op == "perturb":
            np.random.seed(case["seeds"][s - 1] % 2**32)
            random.seed(case["seeds"][s - 1])
            st, v, e["op"] = "ok", None, "perturb"
        elif op == "query":
            # anything else the library does
            e["op"] = "other"
            if model is None:
                st, v = attempt(train, case["distract"], {"factors": 2, "iterations": 1}, 2, 5, d, 1)
            else:
                st, v = attempt(model.recommend, np.arange(3), d[:3], N=3)
                if st == "ok":
                    st, v = attempt(model.similar_items, 1, N=3)
        elif op == "train":
            seed = case["seeds"][s - 1]
            st, v = attempt(train, kind, case["params"], nt, rstate(case["rs"], seed), d, case["fits"])
            e.update(key=f"train{s}", group="train", tol=3, v=[], distinct=True)
            if st == "ok":
                model = v
                e["v"] = ints(v.user_factors) + ints(v.item_factors)
        else:
            seed = case["seeds"][s - 1]
            fn = (lambda: train_test_split(d.asformat(case["fmt"]), 0.5, random_state=rstate(case["rs"], seed))) \
                if case["split"] == "tts" else \
                (lambda: leave_k_out_split(d.asformat(case["fmt"]), K=1, train_only_size=0.25, random_state=rstate(case["rs"], seed)))
            st, v = attempt(fn)
            e.update(key=f"split{s}", group="split", tol=0, v=[], distinct=False)
            if st == "ok":
                e["v"] = ints(np.asarray(v[0].todense())) + ints(np.asarray(v[1].todense()))
        e.update(res=st, g1=globals_digest(), msg=str(v)[:200] if st != "ok" else "")
        ev.append(e)
    return ev


def merged(recs):
    """the two runs of a case, in two processes, as one trace"""
    n = len(recs) // 2
    out = []
    for a, b in zip(recs[:n], recs[n:]):
        if a.get("crash") or b.get("crash"):
            continue
        out.append({"case": a["case"], "ev": a["ev"] + b["ev"]})
    return out


def run(ctx):
    ctx.model_check("Repro", "Repro_none.cfg")
    for bug, inv in (("global", "Reproducible"), ("shared", "Reproducible"), ("ignoreseed", "SeedsMatter")):
        ctx.model_check("Repro", f"Repro_{bug}.cfg", expect_violation=inv)
    for bug in ("advance", "reseed"):
        ctx.model_check("Repro", f"Repro_{bug}.cfg", expect_violation="GlobalUntouched")
    rng = ctx.rng
    hists = ctx.generate("Repro", "Repro_gendeep.cfg" if ctx.thorough else "Repro_gen.cfg")
    cases = [gen_case(rng, h, k) for h in hists for k in KINDS for _ in range(1)]
    # every kind of random_state with every model
    for k in KINDS:
        for rs in ("int", "npint", "RandomState", "Generator", "PCG"):
            for _ in range(10 if ctx.thorough else 3):
                c = gen_case(rng, [["train", 1], ["perturb", 1], ["train", 2], ["query", 0], ["train", 1], ["split", 1],
                                   ["perturb", 2], ["train", 1], ["split", 1], ["train", 2]], k)
                c.update(rs=rs, nts=[rng.choice([1, 2, 3, 4, 8]) for _ in c["hist"]])
                cases.append(c)
    for k in KINDS:
        for rs in ("int", "Generator"):
            for dims in ([60, 70], [12, 150], [150, 12]):
                c = gen_case(rng, [["train", 1], ["split", 1], ["perturb", 2], ["train", 2], ["query", 0], ["train", 1], ["split", 1]], k)
                c["params"]["factors"] = rng.choice([5, 17, 33])
                c.update(rs=rs, dims=dims)
                cases.append(c)
    # many seeds, many models
    for k in KINDS:
        for rs in ("int", "RandomState", "Generator"):
            seeds = list(range(20)) + [2**p for p in range(5, 32)] + [rng.randrange(2**32) for _ in range(20)]
            c = gen_case(rng, [["train", s + 1] for s in range(len(seeds))], k)
            c["params"].update(factors=3, iterations=1)
            c.update(rs=rs, seeds=seeds, nts=[2] * len(seeds), fits=1, dims=[4, 5])
            cases.append(c)
    recs = ctx.drive(cases + cases, procs=7)     # the copies land in other processes
    ctx.validate("TraceRepro", merged(recs))
    if not ctx.violations:
        def glob(r):
            for e in r["ev"]:
                if e["op"] != "perturb":
                    e["g1"] = "moved"
                    return r

        def other(r):
            for e in r["ev"][len(r["ev"]) // 2:]:
                if e["op"] == "random":
                    e["v"][0][0] += 100
                    return r
        ctx.corrupt("TraceRepro", merged(recs)[:150], glob, label="a global generator moved")
        ctx.corrupt("TraceRepro", merged(recs)[:150], other, label="another result for the same seed")


def replay(ctx):
    ctx.validate("TraceRepro", merged(ctx.drive(ctx.only_cases + ctx.only_cases, procs=7)))
