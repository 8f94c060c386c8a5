"""C11: item-item similarity is the exact top K of the weighted item-item product."""
import math

import numpy as np
from scipy.sparse import coo_matrix, csc_matrix, csr_matrix

from ..core import q
from ..klib import KNN, gen_counts, new_knn, places, spread
from ..qlib import attempt, prog

LEVEL = "model_checking"
ASSUMPTIONS = ["interactions are integers; the weights are recorded to 4 digits and the products "
               "are checked within the rounding of the recorded weights"]
DTYPES = ["float32", "float64", "int64", "int32", "int16", "int8"]
SCALES = [10000, 5000, 2000, 1000, 500, 200, 100, 50, 20, 10]


def matrix(D, form, dtype, shuffle):
    m = csr_matrix(np.array(D, dtype=dtype))
    if form == "unsorted":
        c = m.tocoo()
        perm = np.random.RandomState(shuffle).permutation(c.nnz)
        rows, cols, data = c.row[perm], c.col[perm], c.data[perm]
        o = np.argsort(rows, kind="stable")
        indptr = np.concatenate([[0], np.cumsum(np.bincount(rows, minlength=m.shape[0]))])
        return csr_matrix((data[o], cols[o], indptr.astype(np.int32)), shape=m.shape)
    return {"csr": csr_matrix, "csc": csc_matrix, "coo": coo_matrix}[form](m)


def gen_case(rng, D=None):
    kind = rng.choice(KNN)
    neg = False
    if D is None:
        nu, ni = rng.choice([1, 2, 4, 7, 12]), rng.choice([1, 2, 3, 5, 9, 16])
        neg = kind in ("item", "cosine") and rng.random() < 0.3
        D = gen_counts(rng, nu, ni, rng.choice([0.1, 0.3, 0.6, 0.9]),
                       values=[-2, -1, 1, 2, 3] if neg else rng.choice([[1], [1, 2, 3], range(1, 10)] + ([range(1, 120)] if kind in ("item", "cosine") else [])))
        if not any(any(r) for r in D):
            D[0][0] = 1
    ni = len(D[0])
    evs = []
    for _ in range(2):
        evs.append(dict(kind=kind, K=rng.choice([0, 1, 2, 3, ni, max(1, ni - 1), ni + 3, 20]),
                        nt=rng.choice([0, 1, 2, 3, 4, 8]), k10=rng.choice([12, 5, 20, 1000]),
                        b4=rng.choice([0, 1, 2, 3, 4]), form=rng.choice(["csr", "csc", "coo", "unsorted"]),
                        dtype=rng.choice(DTYPES if neg else DTYPES + ["uint8", "uint16"]),
                        shuffle=rng.randrange(1000)))
    if rng.random() < 0.7:      # the same again, with another type, entry order or thread count
        evs[1].update(K=evs[0]["K"], k10=evs[0]["k10"], b4=evs[0]["b4"])
    return dict(D=D, evs=evs)


def gen_wide(rng, neg=False):
    """many items: several chunks of items per thread"""
    ni, nu = rng.choice([17, 40, 64, 90, 150] if not neg else [90, 150, 300]), rng.choice([3, 6])
    D = gen_counts(rng, nu, ni, rng.choice([0.1, 0.4, 0.9]), values=[-2, -1, 1, 2] if neg else rng.choice([[1], [1, 2, 3], [-2, -1, 1, 2]]))
    D[0][0] = 1
    kind = rng.choice(["item", "item", "cosine"])
    K = rng.choice([1, 3, 7, 20, ni] if not neg else [70, 100, ni - 1, ni, 2 * ni])
    return dict(D=D, evs=[dict(kind=kind, K=K, nt=nt, k10=12, b4=3, form="csr", dtype="float64", shuffle=0)
                          for nt in (1, rng.choice([2, 4, 8]))])


def gen_precise(rng):
    """products that need more digits than single precision has"""
    nu, ni = rng.choice([1, 2, 3]), rng.choice([2, 3, 6, 12])
    D = gen_counts(rng, nu, ni, 0.8, values=rng.choice([range(15900, 16001), range(8000, 16001), [-15001, 15000, 15002]]))
    D[0][0] = 15999
    return dict(D=D, evs=[dict(kind="item", K=rng.choice([1, 2, ni]), nt=rng.choice([1, 3]), k10=12, b4=3,
                               form=rng.choice(["csr", "csc", "coo", "unsorted"]),
                               dtype=rng.choice(["float64", "float32", "int32", "int64", "int16"]), shuffle=rng.randrange(99))])


def gen_spread(rng):
    """a few users and items among very many that have no interactions"""
    c = gen_case(rng)
    for e in c["evs"]:
        e.update(kind=rng.choice(["item", "cosine"]) if e is c["evs"][0] else c["evs"][0]["kind"], form="csr",
                 spread=[rng.choice([0, 300, 33000, 66000]), rng.choice([400, 33000, 66000])], K=min(e["K"], 20))
    return c


def scale_for(D, kind, k10, b4):
    """a scale at which the weights fit (by the definitions; only a choice of scale)"""
    A = np.array(D, dtype=float)
    n = A.shape[1]
    idf = np.log(n) - np.log1p((A != 0).sum(axis=1))
    if kind == "tfidf":
        w = np.sqrt(np.abs(A)) * idf[:, None]
        lim = 60000
    else:
        rs = A.sum(axis=0)
        ln = (1 - b4 / 4) + b4 / 4 * rs / max(rs.mean(), 1e-9)
        w = A * (k10 / 10 + 1) / np.maximum(k10 / 10 * ln + A, 1e-9) * idf[:, None]
        lim = 40000 / math.sqrt(len(D) + 1)
    top = max(np.abs(w).max(), 1e-3)
    return next((s for s in SCALES if s * top <= lim), 1)


def execute(case):
    from implicit import nearest_neighbours as nn
    D = case["D"]
    ev = []
    for c in case["evs"]:
        m = matrix(D, c["form"], c["dtype"], c["shuffle"])
        where = None
        if c.get("spread"):
            where = places(len(D[0]), c["spread"][1], c["shuffle"])
            m = spread(D, places(len(D), c["spread"][0], c["shuffle"]), where, c["dtype"])
        kind = c["kind"]
        kw = dict(K1=c["k10"] / 10, B=c["b4"] / 4) if kind == "bm25" else {}
        model = new_knn(kind, c["K"], c["nt"], **kw)
        st, v = attempt(model.fit, m, show_progress=prog())
        e = dict(c, res=st, S=1, Sw=1, v=D, w=D, sim=[])
        if st != "ok":
            e["msg"] = v
            ev.append(e)
            continue
        A = csr_matrix(np.array(D, dtype=c["dtype"]))

        def scaled(x, s):
            x = np.asarray(x.todense(), dtype=float).T
            return [[max(-2**30, min(2**30, int(round(y * s)))) if y == y else 2**30 for y in r] for r in x]
        if kind == "cosine":
            e["Sw"] = 10000
            e["w"] = scaled(nn.normalize(A.T), 10000)
        elif kind == "tfidf":
            e["S"] = scale_for(D, kind, 0, 0)
            t = nn.tfidf_weight(A.T)
            e["v"] = scaled(t, e["S"])
            e["Sw"] = 10000
            e["w"] = scaled(nn.normalize(t), 10000)
        elif kind == "bm25":
            e["S"] = e["Sw"] = scale_for(D, kind, c["k10"], c["b4"])
            e["v"] = e["w"] = scaled(nn.bm25_weight(A.T, c["k10"] / 10, c["b4"] / 4), e["S"])
        s = csr_matrix(model.similarity)
        if where:                                     # back to the ids of D
            if s.shape != (where[-1] + 1, where[-1] + 1) or s[where].nnz != s.nnz or s[:, where].nnz != s.nnz:
                e["res"] = "neighbours among items without interactions"
                ev.append(e)
                continue
            s = csr_matrix(s[where][:, where])
        sc = 1.0 * e["Sw"] ** 2
        e["sim"] = [[[int(j)] + q(x, sc) for j, x in
                     zip(s.indices[s.indptr[a]:s.indptr[a + 1]], s.data[s.indptr[a]:s.indptr[a + 1]])]
                    for a in range(s.shape[0])]
        if s.shape != (len(D[0]), len(D[0])):
            e["res"] = "wrong shape"
        ev.append(e)
    return {"D": D}, ev


def run(ctx):
    ctx.model_check("MCLogs")
    ctx.model_check("KnnParallel", "KnnParallel_deep.cfg" if ctx.thorough else "KnnParallel_none.cfg")
    for bug in ("sharedacc", "keepresults", "noclear"):
        ctx.model_check("KnnParallel", f"KnnParallel_{bug}.cfg", expect_violation="TopK")
    rng = ctx.rng
    small = ctx.generate("GenMatrix", "GenMatrix_2x3.cfg") + ctx.generate("GenMatrix", "GenMatrix_3x3.cfg")
    if ctx.thorough:
        small += ctx.generate("GenMatrix", "GenMatrix_2x4.cfg") + ctx.generate("GenMatrix", "GenMatrix_3x4.cfg")
    cases = [gen_case(rng, D) for D in small]
    cases += [gen_case(rng) for _ in range(6000 if ctx.thorough else 700)]
    cases += [gen_wide(rng) for _ in range(200 if ctx.thorough else 24)]
    cases += [gen_wide(rng, True) for _ in range(60 if ctx.thorough else 8)]
    cases += [gen_precise(rng) for _ in range(300 if ctx.thorough else 40)]
    cases += [gen_spread(rng) for _ in range(150 if ctx.thorough else 20)]
    recs = ctx.drive(cases)
    ctx.validate("TraceKnn", recs)
    if not ctx.violations:
        def value(r):
            for e in r["ev"]:
                for row in e["sim"]:
                    for x in row:
                        if x[2] > 100:
                            x[2] += x[2] // 2
                            return r

        def drop(r):
            for e in r["ev"]:
                for row in e["sim"]:
                    for k, x in enumerate(row):
                        if x[2] > 3000:
                            del row[k]
                            return r
                        if e["kind"] == "item":
                            del row[k]
                            return r

        def weight(r):
            for e in r["ev"]:
                if e["kind"] in ("tfidf", "bm25"):
                    for row in e["v"]:
                        for k, x in enumerate(row):
                            if abs(x) > 500:
                                row[k] = x * 9 // 10
                                return r
        ctx.corrupt("TraceKnn", recs[::9], value, label="a similarity off")
        ctx.corrupt("TraceKnn", recs[::9], drop, label="a neighbour missing")
        ctx.corrupt("TraceKnn", recs[::9], weight, label="a weight off")


def replay(ctx):
    ctx.validate("TraceKnn", ctx.drive(ctx.only_cases))
