"""C12: item-item recommend() / similar_items() rank by the similarity matrix."""
import itertools

import numpy as np
from scipy.sparse import csr_matrix

from ..core import q as quant
from ..klib import gen_counts, new_knn, places, spread
from ..qlib import as_list, attempt, csr_rows, pick_N

LEVEL = "model_checking"
ASSUMPTIONS = ["exact for integer similarities and weights that are multiples of 1/4; within the "
               "rounding of 4 digits for cosine, tf-idf and BM25 similarities"]


def gen_query(rng, n, op=None):
    op = op or rng.choice(["rec", "rec", "rec", "simi"])
    e = dict(op=op, N=pick_N(rng, n), flt=rng.random() < 0.6, filt=[], hassel=False, sel=[], row=[],
             item=0, form=rng.choice(["list", "i32", "i64"]), batch=rng.random() < 0.25,
             vtype=rng.choice(["float32", "float64"]))
    if op == "rec":
        ids = [j for j in range(n) if rng.random() < rng.choice([0.1, 0.3, 0.8])]
        if rng.random() < 0.5:
            rng.shuffle(ids)
        vals = rng.choice([[4], [4, 8, 12, 20], [1, 2, 3, 4, 6, -4, -1, -8, 40]])
        if all(v % 4 == 0 for v in vals) and rng.random() < 0.3:
            e["vtype"] = rng.choice(["int64", "int32"])
        e["row"] = [[j, rng.choice(vals)] for j in ids]
    else:
        e["item"] = rng.randrange(n)
    r = rng.random()
    if r < 0.3:
        e["filt"] = rng.sample(range(n), rng.randint(0, n))
    elif r < 0.6:
        e["hassel"] = True
        e["sel"] = rng.sample(range(n), rng.randint(1, n))
        if rng.random() < 0.3:
            e["sel"] += e["sel"][:2]
    return e


def gen_case(rng, nq=8):
    kind = rng.choice(["item", "item", "item", "cosine", "tfidf", "bm25"])
    nu, n = rng.choice([1, 3, 6, 12]), rng.choice([1, 2, 3, 5, 9, 17, 33])
    neg = kind in ("item", "cosine") and rng.random() < 0.3
    D = gen_counts(rng, nu, n, rng.choice([0.1, 0.3, 0.6, 0.9]),
                   values=[-3, -1, 1, 2] if neg else rng.choice([[1], [1, 2, 3], range(1, 10)]))
    D[0][0] = D[0][0] or 1
    return dict(kind=kind, D=D, K=rng.choice([1, 2, 5, n, 40]), nt=rng.choice([0, 1, 3]),
                qs=[gen_query(rng, n) for _ in range(nq)])


def pivot_cases(rng, thorough):
    """one user whose weights are the scores: item 0 is the pivot, the user liking only the pivot
    gets the score w_j for item j; every score vector x every filter x every N"""
    out = []
    for w in itertools.product([-1, 0, 1, 2], repeat=3):
        qs = []
        for N in (1, 2, 3, 4, 5):
            for k in range(16):
                s = [j for j in range(4) if k >> j & 1]
                for mode in ("filt", "sel"):
                    if mode == "sel" and not s:
                        continue
                    for extra in ([], [[2, 4]]):
                        qs.append(dict(op="rec", N=N, flt=rng.random() < 0.7, filt=s if mode == "filt" else [],
                                       hassel=mode == "sel", sel=s if mode == "sel" else [],
                                       row=[[0, 4]] + extra, item=0, form="i64", batch=False, vtype="float64"))
                    qs.append(dict(qs[-1], op="simi", row=[], item=rng.randrange(4)))
        if not thorough:
            qs = rng.sample(qs, 60)
        out.append(dict(kind="item", D=[[1, *w], [0, 0, 1, 0]], K=rng.choice([2, 3, 10]), nt=1, qs=qs))
    return out


def precise_case(rng):
    """scores that need more digits than single precision has: user j has a large value for the
    pivot (item 0) and 1 for item j, so that large numbers are the similarities with the pivot"""
    n = rng.choice([3, 6, 12])
    big = rng.choice([2**24, 2**26 - 50])
    D = [[big + rng.randint(0, 40)] + [int(j == k) for k in range(1, n)] for j in range(1, n)]
    qs = []
    for _ in range(8):
        e = gen_query(rng, n)
        e.update(form="i64", vtype="float64", batch=False, row=[[0, 4]], item=0)
        if e["op"] == "rec":
            e["flt"] = True
        elif not e["hassel"]:
            e["filt"] = sorted(set(e["filt"] + [0]))
        if e["hassel"]:
            e["sel"] = [j for j in e["sel"] if j] or [1]
        qs.append(e)
    return dict(kind="item", D=D, K=n + 2, nt=1, qs=qs)


def weights_case(rng):
    """similarities 0..3 and weights that need more digits than single precision has"""
    n = rng.choice([3, 6, 12])
    D = gen_counts(rng, 2, n, 0.5, values=[1])
    D[0][0] = 1
    qs = []
    for _ in range(6):
        e = gen_query(rng, n, "rec")
        row = rng.sample(range(n), min(n, rng.choice([1, 2, 3])))
        e.update(vtype="float64", batch=False, row=[[j, 4 * (2**24 + rng.randint(0, 9))] for j in row])
        qs.append(e)
    return dict(kind="item", D=D, K=n + 2, nt=1, qs=qs)


def wide_case(rng, n):
    """many items with positive scores, of which the best are liked, filtered, or the rest selected"""
    w = [0] + [rng.randint(1, 900) for _ in range(n - 1)]
    best = sorted(range(1, n), key=lambda j: -w[j])
    qs = []
    for how in ("filt", "liked", "liked", "against", "sel", "selbest", "all"):
        k = rng.choice([n // 2, n - 20] if how in ("liked", "against") else [n // 4, n // 2, n - 20])
        e = dict(op="rec", N=rng.choice([1, 10, n // 3]), flt=True, filt=[], hassel=False, sel=[], row=[[0, 4]], item=0,
                 form=rng.choice(["list", "i32", "i64"]), batch=rng.random() < 0.3, vtype="float64")
        if how == "filt":
            e["filt"] = rng.sample(best[:k], k)
        elif how == "liked":
            e["row"] = [[0, 4]] + [[j, rng.choice([4, 4, 4, -4])] for j in sorted(best[:k])]
        elif how == "against":              # what is not liked has negative scores, below the liked
            e["row"] = [[0, -4]] + [[j, rng.choice([4, 4, -4])] for j in sorted(best[:k])]
        elif how == "sel":
            k = rng.choice([20, n // 8])
            e.update(hassel=True, sel=rng.sample(best[-k:], k))
        elif how == "selbest":
            e.update(hassel=True, sel=rng.sample(best[:k], k), N=k - rng.randint(0, 5))
        else:
            e["N"] = n + rng.randint(-3, 3)
        qs.append(e)
        if how not in ("liked", "against") and not e["batch"]:
            qs.append(dict(e, op="simi", row=[], item=0))
    return dict(kind="item", w=w, D=[], K=n + 2, nt=1, qs=qs)


def execute(case):
    m = new_knn(case["kind"], case["K"], case["nt"])
    D, out = case["D"], case.get("spread", 0)
    if "w" in case:                 # user j has the pivot, item 0, and item j, w_j times
        D = [[int(k == 0) or case["w"][j] * (j == k) for k in range(len(case["w"]))] for j in range(1, len(case["w"]))]
    where = places(len(D[0]), out, 7)
    back = {j: k for k, j in enumerate(where)}
    m.fit(spread(D, places(len(D), out, 8), where), show_progress=False)
    sim = csr_matrix(m.similarity)
    wide = sim.shape[0]
    sim = csr_matrix(sim[where][:, where])
    sim.sum_duplicates()                                        # and orders the rows by column
    n = len(where)
    exact = case["kind"] == "item"
    S = 1 if exact else (10000 if case["kind"] != "bm25" else 1000)
    rows = [[[int(j), max(-2**30, min(2**30, int(round(x * S))))] for j, x in zip(sim[a].indices, sim[a].data)] for a in range(n)]
    ev = []
    for e in case["qs"]:
        e = dict(e)
        kw = dict(N=e["N"])
        if e["filt"]:
            kw["filter_items"] = as_list([where[j] for j in e["filt"]], e["form"])
        if e["hassel"]:
            kw["items"] = as_list([where[j] for j in e["sel"]], e["form"])
        if e["op"] == "rec":
            ui = csr_rows([[where[x[0]] for x in e["row"]]], wide, [[x[1] / 4 for x in e["row"]]], e["vtype"])
            if e["batch"]:
                other = csr_rows([[where[0]]], wide, [[1]], e["vtype"])
                from scipy.sparse import vstack
                ui = vstack([other, ui]).tocsr()
            st, v = attempt(m.recommend, np.array([3, 0]) if e["batch"] else 0, ui,
                            filter_already_liked_items=e["flt"], **kw)
        else:
            st, v = attempt(m.similar_items, np.array([where[0], where[e["item"]]]) if e["batch"] else where[e["item"]], **kw)
        e.update(res=st, ids=[], sc=[])
        if st != "ok":
            e["msg"] = v
        else:
            ids, sc = np.asarray(v[0]), np.asarray(v[1])
            if e["batch"]:
                ids, sc = ids[1], sc[1]
                keep = len(ids)
                while keep and ids[keep - 1] == -1:
                    keep -= 1
                ids, sc = ids[:keep], sc[:keep]
            e["ids"] = [back.get(int(x), -7) for x in ids]
            e["sc"] = [quant(x, 4.0 * S) for x in sc]
        ev.append(e)
    return {"sim": rows, "S": S, "exact": exact}, ev


def run(ctx):
    ctx.model_check("ItemQuery", "ItemQuery_deep.cfg" if ctx.thorough else "ItemQuery_none.cfg")
    for bug in ("nofilterroom", "nolikedroom", "keepliked"):
        ctx.model_check("ItemQuery", f"ItemQuery_{bug}.cfg", expect_violation="Right")
    rng = ctx.rng
    cases = pivot_cases(rng, ctx.thorough) + [gen_case(rng) for _ in range(5000 if ctx.thorough else 600)]
    cases += [f(rng) for f in (precise_case, weights_case) for _ in range(200 if ctx.thorough else 30)]
    for _ in range(100 if ctx.thorough else 20):
        c = gen_case(rng, 4)
        if c["kind"] in ("item", "cosine"):
            cases.append(dict(c, spread=rng.choice([33000, 66000])))
    cases += [wide_case(rng, n) for n in [150, 300, 600, 1300, 1300] * (6 if ctx.thorough else 1)]
    recs = ctx.drive(cases)
    ctx.validate("TraceItem", recs)
    if not ctx.violations:
        def score(r):
            for e in r["ev"]:
                if e["sc"] and e["sc"][0][0] == 0:
                    e["sc"][0][1] += 500
                    return r

        def liked(r):
            for e in r["ev"]:
                if e["op"] == "rec" and e["flt"] and e["row"] and e["ids"]:
                    e["ids"][0] = e["row"][0][0]
                    if e["hassel"]:
                        continue
                    return r

        def swap(r):
            for e in r["ev"]:
                if len(e["ids"]) > 1 and e["sc"][1][0] == 0 and e["sc"][0][1] - e["sc"][1][1] > 500:
                    e["ids"][:2] = e["ids"][:2][::-1]
                    e["sc"][:2] = e["sc"][:2][::-1]
                    return r
        ctx.corrupt("TraceItem", recs[:300], score, label="a score off")
        ctx.corrupt("TraceItem", recs[:300], liked, label="a liked item returned")
        ctx.corrupt("TraceItem", recs[::3], swap, label="wrong order")


def replay(ctx):
    ctx.validate("TraceItem", ctx.drive(ctx.only_cases))
